package prop

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Failure is one failing case.
type Failure struct {
	Case  json.RawMessage `json:"case"`
	Error string          `json:"error"`
}

// Result is what a worker reports.
type Result struct {
	Evaluations int               `json:"evaluations"`
	Hashes      []uint64          `json:"-"`
	NonTrivial  int               `json:"nontrivial"`
	Labels      map[string]int    `json:"labels"`
	Samples     []json.RawMessage `json:"samples"`
	Failures    []Failure         `json:"failures"` // first failing case and last (minimal) one
	Hang        *Failure          `json:"hang,omitempty"`
	Infra       string            `json:"infra,omitempty"`
	Skipped     int               `json:"skipped"`
}

// tb is a rapid.TB that only records.
type tb struct {
	failed bool
	logs   []string
}

type stop struct{}

func (t *tb) Helper()                   {}
func (t *tb) Name() string              { return "prop" }
func (t *tb) Logf(f string, a ...any)   { t.logs = append(t.logs, fmt.Sprintf(f, a...)) }
func (t *tb) Log(a ...any)              { t.logs = append(t.logs, fmt.Sprint(a...)) }
func (t *tb) Skipf(f string, a ...any)  {}
func (t *tb) Skip(a ...any)             {}
func (t *tb) SkipNow()                  {}
func (t *tb) Errorf(f string, a ...any) { t.failed = true; t.Logf(f, a...) }
func (t *tb) Error(a ...any)            { t.failed = true; t.Log(a...) }
func (t *tb) Fatalf(f string, a ...any) { t.failed = true; t.Logf(f, a...); panic(stop{}) }
func (t *tb) Fatal(a ...any)            { t.failed = true; t.Log(a...); panic(stop{}) }
func (t *tb) FailNow()                  { t.failed = true; panic(stop{}) }
func (t *tb) Fail()                     { t.failed = true }
func (t *tb) Failed() bool              { return t.failed }

// WorkerMain searches for failures of one part.
func WorkerMain(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	id := fs.String("prop", "", "")
	name := fs.String("part", "", "")
	seed := fs.Uint64("seed", 1, "")
	checks := fs.Int("checks", 100, "")
	out := fs.String("out", "", "")
	journal := fs.String("journal", "", "")
	deadline := fs.Int("deadline", 60, "seconds after which remaining cases are skipped")
	shrink := fs.Int("shrink", 20, "")
	thorough := fs.Bool("thorough", false, "")
	_ = fs.Parse(args)

	p := find(*id, *name)
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such part", *id, *name)
		os.Exit(2)
	}
	if p.MemLimit > 0 {
		_ = syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: p.MemLimit, Max: p.MemLimit})
	}
	testing.Init()
	_ = flag.CommandLine.Parse(nil)
	set := func(k, v string) {
		if err := flag.Set(k, v); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	set("rapid.checks", strconv.Itoa(*checks))
	set("rapid.seed", strconv.FormatUint(*seed, 10))
	set("rapid.nofailfile", "true")
	set("rapid.shrinktime", fmt.Sprintf("%ds", *shrink))

	res := &Result{Labels: map[string]int{}}
	var resMu sync.Mutex
	seen := map[uint64]bool{}
	start := time.Now()
	end := start.Add(time.Duration(*deadline) * time.Second)
	var jf *os.File
	if *journal != "" {
		var err error
		if jf, err = os.Create(*journal); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	var curStart int64 // unix nano of the running case, 0 if none
	var failedAt int64 // unix nano of the first failure, 0 if none
	var curCase []byte
	finish := func() {
		resMu.Lock()
		res.NonTrivial = len(seen)
		b, _ := json.Marshal(res)
		hb := make([]byte, 0, 8*len(seen))
		for h := range seen {
			hb = binary.LittleEndian.AppendUint64(hb, h)
		}
		_ = os.WriteFile(*out+".hashes", hb, 0o644)
		_ = os.WriteFile(*out, b, 0o644)
		resMu.Unlock()
	}
	go func() { // watchdog
		for {
			time.Sleep(250 * time.Millisecond)
			if f := atomic.LoadInt64(&failedAt); f != 0 && time.Since(time.Unix(0, f)) > time.Duration(*shrink+5)*time.Second {
				finish() // shrinking runs over: what has been found so far counts
				os.Exit(0)
			}
			s := atomic.LoadInt64(&curStart)
			if s != 0 && time.Since(time.Unix(0, s)) > time.Duration(p.HangSec)*time.Second {
				resMu.Lock()
				res.Hang = &Failure{Case: append(json.RawMessage{}, curCase...), Error: fmt.Sprintf("case still running after %d s\n%s", p.HangSec, trim(AllStacks(), 12000))}
				resMu.Unlock()
				finish()
				os.Exit(0)
			}
		}
	}()

	failing := false
	prop := func(t *rapid.T) {
		c := p.gen(t)
		if !failing && time.Now().After(end) {
			res.Skipped++
			return
		}
		b, err := json.Marshal(c)
		if err != nil {
			panic(err)
		}
		if jf != nil {
			_, _ = jf.WriteAt(b, 0)
			_ = jf.Truncate(int64(len(b)))
		}
		// run on a decoded copy, so that a replay sees exactly the same case
		c2, err := p.decode(b)
		if err != nil {
			panic(err)
		}
		ctx := &Ctx{Thorough: *thorough}
		resMu.Lock()
		curCase = b
		resMu.Unlock()
		atomic.StoreInt64(&curStart, time.Now().UnixNano())
		err = p.exec(ctx, c2)
		atomic.StoreInt64(&curStart, 0)
		if k := p.listedKnown(err); k != "" {
			ctx.Label("known:" + k)
			err = nil
		}
		if !failing {
			res.Evaluations++
			for k, v := range ctx.labels {
				res.Labels[k] += v
			}
			if ctx.nontrivial {
				h := fnv.New64a()
				_, _ = h.Write([]byte(p.Name))
				_, _ = h.Write(b)
				s := h.Sum64()
				if !seen[s] {
					seen[s] = true
					if len(res.Samples) < 3 && len(b) < 1500 && len(seen)%7 == 1 {
						res.Samples = append(res.Samples, b)
					}
				}
			}
		}
		if err != nil {
			if IsInfra(err) {
				resMu.Lock()
				res.Infra = err.Error()
				resMu.Unlock()
				finish()
				os.Exit(0)
			}
			f := Failure{Case: b, Error: trim(err.Error(), 6000)}
			resMu.Lock()
			if len(res.Failures) < 2 {
				res.Failures = append(res.Failures, f)
			} else {
				res.Failures[1] = f
			}
			resMu.Unlock()
			failing = true
			atomic.CompareAndSwapInt64(&failedAt, 0, time.Now().UnixNano())
			// the message must be stable for rapid's shrinker
			t.Fatalf("violated")
		}
	}
	t := &tb{}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stop); !ok {
					panic(r)
				}
			}
		}()
		rapid.Check(t, prop)
	}()
	if t.failed && len(res.Failures) == 0 {
		res.Infra = "rapid failed without a failing case: " + strings.Join(t.logs, "\n")
	}
	finish()
}

// ReplayMain runs one recorded case; exit status 1 if it fails.
func ReplayMain(args []string) {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	tries := fs.Int("n", 1, "executions")
	_ = fs.Parse(args)
	if fs.NArg() < 1 {
		fmt.Fprintln(os.Stderr, "usage: replay [-n tries] FILE")
		os.Exit(2)
	}
	b, err := os.ReadFile(fs.Arg(0))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var rf ReplayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	p := find(rf.Property, rf.Part)
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such part")
		os.Exit(2)
	}
	if p.MemLimit > 0 {
		_ = syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: p.MemLimit, Max: p.MemLimit})
	}
	for i := 0; i < *tries; i++ {
		c, err := p.decode(rf.Case)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		done := make(chan struct{})
		go func() {
			select {
			case <-done:
			case <-time.After(time.Duration(p.HangSec+30) * time.Second):
				fmt.Printf("REPLAY-FAILS case hangs\n%s\n", trim(AllStacks(), 12000))
				os.Exit(1)
			}
		}()
		ctx := &Ctx{Replay: true}
		err = p.exec(ctx, c)
		close(done)
		if p.listedKnown(err) != "" {
			err = nil
		}
		if err != nil {
			if IsInfra(err) {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(2)
			}
			fmt.Printf("REPLAY-FAILS %v\n", err)
			os.Exit(1)
		}
	}
	fmt.Println("REPLAY-HOLDS")
}

// ReplayFile is the format of a replay file.
type ReplayFile struct {
	Property string          `json:"property"`
	Part     string          `json:"part"`
	Env      string          `json:"env,omitempty"`
	Race     bool            `json:"race,omitempty"`
	Error    string          `json:"error"`
	Case     json.RawMessage `json:"case"`
}
