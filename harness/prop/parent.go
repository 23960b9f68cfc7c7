package prop

import (
	"bytes"
	"crypto/sha1"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	"unicode"
)

// shardOut is the outcome of one worker process.
type shardOut struct {
	part   *Part
	env    string
	seed   uint64
	res    *Result
	hashes []uint64
	crash  string // stderr of a crashed worker
	jcase  []byte
	err    error
}

func binFor(p *Part) (string, error) {
	self, err := os.Executable()
	if err != nil {
		return "", err
	}
	if p.Race {
		return envOr("VHARNESS_RACE", self+"-race"), nil
	}
	return self, nil
}

// knownText maps "ID/key" to the text of a listed finding.
var (
	knownText = map[string]string{}
	knownKeys []string
)

// loadKnown reads known-findings.txt: lines "known: property=ID key=KEY text".
func loadKnown(root string) error {
	b, err := os.ReadFile(filepath.Join(root, "known-findings.txt"))
	if os.IsNotExist(err) {
		return nil
	}
	if err != nil {
		return err
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) < 4 || f[0] != "known:" || !strings.HasPrefix(f[1], "property=") || !strings.HasPrefix(f[2], "key=") {
			continue
		}
		k := strings.TrimPrefix(f[1], "property=") + "/" + strings.TrimPrefix(f[2], "key=")
		knownText[k] = strings.Join(f[3:], " ")
		knownKeys = append(knownKeys, k)
	}
	return nil
}

func environ(extra string) []string {
	var out []string
	for _, kv := range os.Environ() {
		if strings.HasPrefix(kv, "TZ=") || strings.HasPrefix(kv, "VHARNESS_KNOWN=") || strings.HasPrefix(kv, "GORACE=") || strings.HasPrefix(kv, "GOTRACEBACK=") || strings.HasPrefix(kv, "GODEBUG=") {
			continue
		}
		out = append(out, kv)
	}
	out = append(out, "VHARNESS_KNOWN="+strings.Join(knownKeys, " "), "GORACE=halt_on_error=1 exitcode=66 history_size=3", "GOTRACEBACK=all")
	if extra != "" {
		out = append(out, strings.Split(extra, ";")...)
	}
	return out
}

func runShard(p *Part, seed uint64, checks, deadline, shrink int, thorough bool, env, dir, tag string) *shardOut {
	so := &shardOut{part: p, env: env, seed: seed}
	bin, err := binFor(p)
	if err != nil {
		so.err = err
		return so
	}
	outF := filepath.Join(dir, tag+".json")
	jF := filepath.Join(dir, tag+".case")
	cmd := exec.Command(bin, "worker", "-prop", p.Prop, "-part", p.Name, "-seed", strconv.FormatUint(seed, 10),
		"-checks", strconv.Itoa(checks), "-out", outF, "-journal", jF, "-deadline", strconv.Itoa(deadline), "-shrink", strconv.Itoa(shrink),
		fmt.Sprintf("-thorough=%v", thorough))
	cmd.Env = append(environ(env), "TMPDIR="+dir)
	var stderr, stdout bytes.Buffer
	cmd.Stderr = &stderr
	cmd.Stdout = &stdout
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		so.err = err
		return so
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err = <-done:
	case <-time.After(time.Duration(deadline+shrink+p.HangSec+120) * time.Second):
		_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-done
		so.err = fmt.Errorf("worker did not end in time")
		return so
	}
	so.jcase, _ = os.ReadFile(jF)
	if b, e := os.ReadFile(outF); e == nil && err == nil {
		so.res = &Result{}
		if e := json.Unmarshal(b, so.res); e != nil {
			so.err = e
			return so
		}
		if hb, e := os.ReadFile(outF + ".hashes"); e == nil {
			for i := 0; i+8 <= len(hb); i += 8 {
				so.hashes = append(so.hashes, binary.LittleEndian.Uint64(hb[i:]))
			}
		}
		return so
	}
	so.crash = fmt.Sprintf("worker ended with %v\n%s", err, stderr.String())
	return so
}

func debugf(f string, args ...interface{}) {
	if os.Getenv("VHARNESS_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, f+"\n", args...)
	}
}

// crashOwner says whether a crash is the code under test's doing.
func crashOwner(stderr string) (sut bool, sound bool) {
	if i := strings.Index(stderr, "WARNING: DATA RACE"); i >= 0 {
		rep := stderr[i:]
		if j := strings.Index(rep[10:], "=================="); j >= 0 {
			rep = rep[:j+10]
		}
		// the two accesses: the first frame of each
		owner := false
		for _, blk := range strings.Split(rep, "\n\n") {
			head := strings.SplitN(blk, "\n", 2)[0]
			if strings.Contains(blk, "Goroutine ") && strings.Contains(head, "created at") {
				continue
			}
			for _, line := range strings.Split(blk, "\n") {
				l := strings.TrimSpace(line)
				if strings.HasPrefix(l, underTest) || strings.HasPrefix(l, "github.com/jolestar/go-commons-pool") || strings.HasPrefix(l, "github.com/mindstand/gotime") {
					owner = true
					break
				}
				if strings.HasPrefix(l, "vharness/") {
					break
				}
			}
		}
		return owner, owner
	}
	if strings.Contains(stderr, "fatal error: concurrent map") {
		return strings.Contains(stderr, underTest), true
	}
	for _, mark := range []string{"panic: ", "fatal error: ", "runtime: goroutine stack exceeds"} {
		i := strings.Index(stderr, mark)
		if i < 0 {
			continue
		}
		rest := stderr[i:]
		if j := strings.Index(rest, "\ngoroutine "); j >= 0 {
			blk := rest[j+1:]
			if k := strings.Index(blk, "\n\n"); k >= 0 {
				blk = blk[:k]
			}
			if firstOwner(blk) == "sut" {
				return true, false
			}
			// runtime stack of an allocation failure: look at every running goroutine
			if strings.Contains(rest[:j], "out of memory") || strings.Contains(rest[:j], "stack exceeds") || strings.Contains(rest[:j], "cannot allocate") {
				return strings.Contains(rest, underTest), false
			}
		}
	}
	return false, false
}

// Replay runs a replay file in fresh processes; true if any execution fails.
func replayFile(p *Part, path, env string, tries int) (failed bool, msg string, infra error) {
	bin, err := binFor(p)
	if err != nil {
		return false, "", err
	}
	dir, err := os.MkdirTemp("", "vharness-replay-")
	if err != nil {
		return false, "", err
	}
	defer os.RemoveAll(dir)
	for i := 0; i < tries; i++ {
		cmd := exec.Command(bin, "replay", path)
		cmd.Env = append(environ(env), "TMPDIR="+dir)
		var outb, errb bytes.Buffer
		cmd.Stdout, cmd.Stderr = &outb, &errb
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
		if err := cmd.Start(); err != nil {
			return false, "", err
		}
		done := make(chan error, 1)
		go func() { done <- cmd.Wait() }()
		select {
		case err = <-done:
		case <-time.After(time.Duration(p.HangSec+60) * time.Second):
			_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			<-done
			return true, "replay did not end", nil
		}
		if err == nil {
			continue
		}
		if ee, ok := err.(*exec.ExitError); ok {
			switch {
			case ee.ExitCode() == 1 && strings.Contains(outb.String(), "REPLAY-FAILS"):
				return true, outb.String(), nil
			default:
				if sut, _ := crashOwner(errb.String()); sut {
					return true, errb.String(), nil
				}
				infra = fmt.Errorf("replay ended with %v: %s", err, trim(errb.String(), 1500))
			}
		}
	}
	return false, "", infra
}

// Verdict is a confirmed violation.
type Verdict struct {
	Part, Path, Msg string
}

func writeReplay(root string, rf ReplayFile) (string, error) {
	dir := filepath.Join(root, "replays")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return "", err
	}
	sum := sha1.Sum(append([]byte(rf.Part), rf.Case...))
	path := filepath.Join(dir, fmt.Sprintf("%s-%s-%x.json", rf.Property, rf.Part, sum[:5]))
	b, err := json.MarshalIndent(rf, "", " ")
	if err != nil {
		return "", err
	}
	return path, os.WriteFile(path, b, 0o644)
}

// RunMain runs all parts of a property and writes its evidence.
func RunMain(id, tier, root string) int {
	start := time.Now()
	ps := Parts(id)
	if only := os.Getenv("VHARNESS_PART"); only != "" {
		var sel []*Part
		for _, p := range ps {
			if p.Name == only {
				sel = append(sel, p)
			}
		}
		ps = sel
	}
	if len(ps) == 0 {
		fmt.Fprintln(os.Stderr, "no such property", id)
		return 2
	}
	seed := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseInt(s, 10, 64); err == nil {
			seed = v
		}
	}
	if err := loadKnown(root); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	thorough := tier == "thorough"
	dir, err := os.MkdirTemp("", "vharness-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	if old, err := filepath.Glob(filepath.Join(root, "replays", id+"-*.json")); err == nil {
		for _, f := range old {
			_ = os.Remove(f)
		}
	}
	ncpu := runtime.NumCPU()
	budget := 45
	shrink := 20
	if thorough {
		budget = 480 / len(ps)
		shrink = 60
	}
	if v, err := strconv.Atoi(os.Getenv("VHARNESS_BUDGET")); err == nil && v > 0 {
		budget = v
	}
	if v, err := strconv.Atoi(os.Getenv("VHARNESS_SHRINK")); err == nil && v > 0 {
		shrink = v
	}
	labels := map[string]map[string]int{}
	evals, skipped := 0, 0
	distinct := map[uint64]bool{}
	var samples []interface{}
	var rules []string
	perPart := map[string]interface{}{}
	var verdicts []Verdict
	var infra []string
	var unconfirmed []string
	envs := map[string]bool{}
	for _, p := range ps {
		if len(verdicts) > 0 {
			break // the property is broken: the remaining parts add nothing
		}
		p0 := time.Now()
		n := p.Quick
		if thorough {
			n = p.Thorough
		}
		if m, err := strconv.ParseFloat(os.Getenv("VHARNESS_SCALE"), 64); err == nil && m > 0 {
			n = int(float64(n)*m) + 1
		}
		sh := p.Shards
		if sh == 0 || sh > ncpu {
			if p.Shards == 0 {
				sh = ncpu
			}
		}
		if sh > n {
			sh = n
		}
		if sh < len(p.Envs) {
			sh = len(p.Envs)
		}
		per := (n + sh - 1) / sh
		outs := make([]*shardOut, sh)
		width := ncpu
		if p.Shards > width {
			width = p.Shards // the part sleeps most of the time
		}
		sem := make(chan struct{}, width)
		var wg sync.WaitGroup
		for i := 0; i < sh; i++ {
			env := ""
			if len(p.Envs) > 0 {
				env = p.Envs[i%len(p.Envs)]
				envs[env] = true
			}
			h := fnv.New32a()
			_, _ = h.Write([]byte(p.Prop + p.Name))
			s := uint64(seed)*1000003 + uint64(h.Sum32())*31 + uint64(i)*7919 + 1
			wg.Add(1)
			go func(i int, env string, s uint64) {
				defer wg.Done()
				sem <- struct{}{}
				defer func() { <-sem }()
				outs[i] = runShard(p, s, per, budget, shrink, thorough, env, dir, fmt.Sprintf("%s-%d", p.Name, i))
			}(i, env, s)
		}
		wg.Wait()
		debugf("%s: shards ended after %.1fs", p.Name, time.Since(p0).Seconds())
		pe, pn, psk := 0, map[uint64]bool{}, 0
		pl := map[string]int{}
		nsamp := 0
		for i, so := range outs {
			if so.err != nil {
				infra = append(infra, fmt.Sprintf("%s shard %d: %v", p.Name, i, so.err))
				continue
			}
			if so.crash != "" {
				if os.Getenv("VHARNESS_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, so.crash)
				}
				sut, sound := crashOwner(so.crash)
				if !sut {
					infra = append(infra, fmt.Sprintf("%s shard %d: %s", p.Name, i, trim(so.crash, 3000)))
					continue
				}
				if len(so.jcase) == 0 {
					so.jcase = []byte("null")
				}
				path, err := writeReplay(root, ReplayFile{id, p.Name, so.env, p.Race, trim(so.crash, 6000), so.jcase})
				if err != nil {
					infra = append(infra, err.Error())
					continue
				}
				bad, _, _ := replayFile(p, path, so.env, p.Retries)
				if bad || sound || p.AlwaysBad {
					verdicts = append(verdicts, Verdict{p.Name, path, trim(so.crash, 1500)})
				} else {
					unconfirmed = append(unconfirmed, p.Name+": "+trim(so.crash, 300))
				}
				continue
			}
			r := so.res
			pe += r.Evaluations
			psk += r.Skipped
			for k, v := range r.Labels {
				pl[k] += v
			}
			for _, h := range so.hashes {
				pn[h] = true
			}
			for _, s := range r.Samples {
				if nsamp < 3 {
					samples = append(samples, map[string]interface{}{"part": p.Name, "case": s})
					nsamp++
				}
			}
			if r.Infra != "" {
				infra = append(infra, fmt.Sprintf("%s shard %d: %s", p.Name, i, r.Infra))
			}
			var cands []Failure
			if len(r.Failures) > 0 {
				cands = append(cands, r.Failures[len(r.Failures)-1])
				if len(r.Failures) > 1 {
					cands = append(cands, r.Failures[0])
				}
			}
			if r.Hang != nil {
				cands = append(cands, *r.Hang)
			}
			if len(cands) > 0 && len(verdicts) >= 3 {
				// enough confirmed already; do not spend time on more
				continue
			}
			ok := false
			first := ""
			for _, f := range cands {
				path, err := writeReplay(root, ReplayFile{id, p.Name, so.env, p.Race, f.Error, f.Case})
				if err != nil {
					infra = append(infra, err.Error())
					continue
				}
				if first == "" {
					first = path
				}
				bad, _, ierr := replayFile(p, path, so.env, p.Retries)
				debugf("%s shard %d: replayed (%v) after %.1fs", p.Name, i, bad, time.Since(p0).Seconds())
				if bad {
					verdicts = append(verdicts, Verdict{p.Name, path, trim(f.Error, 1500)})
					ok = true
					break
				}
				if ierr != nil {
					infra = append(infra, ierr.Error())
				}
			}
			if len(cands) > 0 && !ok {
				if p.AlwaysBad && r.Hang == nil {
					verdicts = append(verdicts, Verdict{p.Name, first, trim(cands[0].Error, 1500)})
				} else {
					unconfirmed = append(unconfirmed, p.Name+": "+trim(cands[0].Error, 600))
				}
			}
		}
		evals += pe
		skipped += psk
		for h := range pn {
			distinct[h] = true
		}
		labels[p.Name] = pl
		rules = append(rules, p.Name+": "+p.Rule)
		perPart[p.Name] = map[string]interface{}{"evaluations": pe, "distinct_nontrivial": len(pn), "skipped_for_time": psk, "shards": sh, "wall_s": round(time.Since(p0).Seconds()), "classes": pl, "race_detector": p.Race}
		fmt.Printf("%s %-22s cases=%d nontrivial=%d skipped=%d %.1fs\n", id, p.Name, pe, len(pn), psk, time.Since(p0).Seconds())
		if os.Getenv("VHARNESS_DEBUG") != "" {
			var ks []string
			for k := range pl {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				fmt.Printf("    %-40s %d\n", k, pl[k])
			}
		}
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]interface{}{
			"evaluations": evals, "distinct_nontrivial": len(distinct),
			"rule":    strings.Join(rules, " | "),
			"samples": samples, "parts": perPart,
		},
		"wall_s":     round(time.Since(start).Seconds()),
		"violations": len(verdicts),
	}
	var as []string
	if len(envs) > 0 {
		for e := range envs {
			as = append(as, "environment variant "+e)
		}
		sort.Strings(as)
	}
	for _, u := range unconfirmed {
		as = append(as, "failure seen once and not reproduced by replay (not reported): "+u)
	}
	if as != nil {
		ev["assumptions"] = as
	}
	if samples == nil {
		ev["coverage"].(map[string]interface{})["samples"] = []interface{}{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if len(b) > 60000 {
		ev["coverage"].(map[string]interface{})["samples"] = samples[:1]
		b, _ = json.MarshalIndent(ev, "", " ")
	}
	_ = os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(root, "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var found []string
	for _, p := range ps {
		for l, n := range labels[p.Name] {
			if k := strings.TrimPrefix(l, "known:"); k != l {
				found = append(found, fmt.Sprintf("KNOWN-FINDING: property=%s %s (%s, %d cases)", id, knownText[id+"/"+k], k, n))
			}
		}
	}
	sort.Strings(found)
	for _, l := range found {
		fmt.Println(l)
	}
	for _, u := range unconfirmed {
		fmt.Printf("note: unconfirmed failure, not reported: %s\n", printable(u))
	}
	if len(verdicts) > 0 {
		shown := map[string]bool{}
		for _, v := range verdicts {
			if shown[v.Path] {
				continue
			}
			shown[v.Path] = true
			fmt.Printf("--- %s/%s\n%s\n", id, v.Part, printable(v.Msg))
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, v.Path)
		}
		return 1
	}
	if len(infra) > 0 {
		for _, s := range infra {
			fmt.Fprintln(os.Stderr, "machinery failure:", s)
		}
		return 2
	}
	if evals == 0 {
		fmt.Fprintln(os.Stderr, "nothing was explored")
		return 2
	}
	fmt.Printf("%s held on %d cases (%d distinct non-trivial) in %.1fs\n", id, evals, len(distinct), time.Since(start).Seconds())
	return 0
}

// printable keeps what is printed text, whatever a message quotes.
func printable(s string) string {
	return strings.Map(func(c rune) rune {
		if c == '\n' || c == '\t' || unicode.IsPrint(c) {
			return c
		}
		return '.'
	}, s)
}

func round(f float64) float64 { return float64(int(f*10)) / 10 }
