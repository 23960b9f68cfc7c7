// Package prop is the machinery around the properties: a registry of checks
// ("parts") that each pair a generator of plain-data cases with an oracle, a
// worker that searches cases with rapid and shrinks failures, a parent that
// runs workers as separate processes, confirms failures by replay and writes
// evidence.
package prop

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"time"

	"pgregory.net/rapid"
)

// Ctx is handed to each execution of a case.
type Ctx struct {
	mu         sync.Mutex
	nontrivial bool
	labels     map[string]int
	cleanups   []func()
	Replay     bool
	Thorough   bool
}

// NonTrivial marks the case as exercising what the property is about.
func (c *Ctx) NonTrivial() { c.mu.Lock(); c.nontrivial = true; c.mu.Unlock() }

// Label counts a class of behaviour seen.
func (c *Ctx) Label(l string) { c.LabelN(l, 1) }

// LabelN counts n occurrences.
func (c *Ctx) LabelN(l string, n int) {
	c.mu.Lock()
	if c.labels == nil {
		c.labels = map[string]int{}
	}
	c.labels[l] += n
	c.mu.Unlock()
}

// Cleanup registers a function to run when the case ends.
func (c *Ctx) Cleanup(f func()) { c.mu.Lock(); c.cleanups = append(c.cleanups, f); c.mu.Unlock() }

func (c *Ctx) done() {
	for i := len(c.cleanups) - 1; i >= 0; i-- {
		c.cleanups[i]()
	}
	c.cleanups = nil
}

// InfraError is a failure of the machinery, not of the code under test.
type InfraError struct{ Err error }

func (e InfraError) Error() string { return "machinery: " + e.Err.Error() }

// Infra makes one.
func Infra(format string, a ...interface{}) error { return InfraError{fmt.Errorf(format, a...)} }

// KnownError is a violation that may be listed in known-findings.txt under Key.
type KnownError struct {
	Key string
	Err error
}

func (e KnownError) Error() string { return e.Err.Error() }

// Known makes a violation identified by key: while "known: property=ID key=KEY"
// is listed in known-findings.txt it is announced but does not fail the check.
func Known(key, format string, a ...interface{}) error {
	return KnownError{key, fmt.Errorf(format, a...)}
}

// listedKnown is the key of a listed known finding, or "".
func (p *Part) listedKnown(err error) string {
	var ke KnownError
	if !errors.As(err, &ke) {
		return ""
	}
	for _, k := range strings.Fields(os.Getenv("VHARNESS_KNOWN")) {
		if k == p.Prop+"/"+ke.Key {
			return ke.Key
		}
	}
	return ""
}

// Part is one check of a property.
type Part struct {
	Prop, Name string
	Rule       string
	Quick      int      // cases in total, over all shards
	Thorough   int      // cases in total
	Shards     int      // maximum number of worker processes (0: number of CPUs)
	Race       bool     // run in the race-detector build
	Envs       []string // environment variants (K=V), dealt to shards in turn
	HangSec    int      // watchdog per case, default 60
	Retries    int      // replays used to confirm a failure, default 3
	AlwaysBad  bool     // a failure is evidence even if replay does not show it again
	MemLimit   uint64   // RLIMIT_AS in bytes, 0 none

	gen    func(*rapid.T) interface{}
	decode func([]byte) (interface{}, error)
	run    func(*Ctx, interface{}) error
}

var parts []*Part

// Add registers a part.
func Add[C any](p Part, gen func(*rapid.T) C, run func(*Ctx, C) error) {
	p.gen = func(t *rapid.T) interface{} { return gen(t) }
	p.decode = func(b []byte) (interface{}, error) {
		var c C
		err := json.Unmarshal(b, &c)
		return c, err
	}
	p.run = func(ctx *Ctx, c interface{}) error { return run(ctx, c.(C)) }
	if p.HangSec == 0 {
		p.HangSec = 60
	}
	if p.Retries == 0 {
		p.Retries = 3
	}
	q := p
	parts = append(parts, &q)
}

// Parts lists the parts of a property ("" for all).
func Parts(id string) []*Part {
	var out []*Part
	for _, p := range parts {
		if id == "" || p.Prop == id {
			out = append(out, p)
		}
	}
	return out
}

func find(id, name string) *Part {
	for _, p := range parts {
		if p.Prop == id && p.Name == name {
			return p
		}
	}
	return nil
}

const underTest = "github.com/mindstand/go-bolt"

// firstOwner says whose code a stack (from the top) reaches first.
func firstOwner(stack string) string {
	for _, line := range strings.Split(stack, "\n") {
		if strings.HasPrefix(line, underTest) {
			return "sut"
		}
		if strings.HasPrefix(line, "github.com/jolestar/go-commons-pool") || strings.HasPrefix(line, "github.com/mindstand/gotime") {
			return "sut"
		}
		if strings.HasPrefix(line, "vharness/") || strings.HasPrefix(line, "main.") {
			if strings.HasPrefix(line, "vharness/prop.firstOwner") || strings.HasPrefix(line, "vharness/prop.Guard") || strings.HasPrefix(line, "vharness/prop.(*Part).exec") {
				continue
			}
			return "harness"
		}
	}
	return "none"
}

// Guard runs f and turns a panic that comes out of the code under test into an
// error; any other panic becomes an InfraError.
func Guard(f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			if i := strings.Index(st, "panic("); i >= 0 {
				st = st[i:]
			}
			if firstOwner(st) == "sut" {
				err = fmt.Errorf("panic in the code under test: %v\n%s", r, trim(st, 2500))
			} else {
				err = Infra("panic in the harness: %v\n%s", r, trim(st, 4000))
			}
		}
	}()
	return f()
}

func trim(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func (p *Part) exec(ctx *Ctx, c interface{}) error {
	defer ctx.done()
	return Guard(func() error { return p.run(ctx, c) })
}

// IsInfra reports a machinery failure.
func IsInfra(err error) bool {
	var ie InfraError
	return errors.As(err, &ie)
}

// Within runs f in a goroutine and reports whether it returned in time. A
// panic in f is turned into an error like in Guard.
func Within(d time.Duration, f func() error) (finished bool, err error) {
	ch := make(chan error, 1)
	go func() { ch <- Guard(f) }()
	select {
	case err = <-ch:
		return true, err
	case <-time.After(d):
		select {
		case err = <-ch:
			return true, err
		default:
		}
		return false, nil
	}
}

// AllStacks dumps all goroutines.
func AllStacks() string {
	buf := make([]byte, 1<<20)
	return string(buf[:runtime.Stack(buf, true)])
}

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}
