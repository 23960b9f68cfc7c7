package checks

import (
	"database/sql/driver"
	"errors"
	"fmt"

	berr "github.com/mindstand/go-bolt/errors"
	"github.com/mindstand/go-bolt/structures/messages"
	"pgregory.net/rapid"

	"vharness/fb"
	"vharness/prop"
	"vharness/ps"
)

// What went wrong can be told from the error.

// isBadConn reports that an error says that the connection broke.
func isBadConn(err error) bool {
	for err != nil {
		if errors.Is(err, driver.ErrBadConn) {
			return true
		}
		if e, ok := err.(*berr.Error); ok {
			inner := e.InnerMost()
			if inner == err {
				return false
			}
			err = inner
			continue
		}
		err = errors.Unwrap(err)
	}
	return false
}

// failure is the failure a script makes the server send.
func (o op) failure() ps.V {
	f := fb.Failure(o.Code, o.Msg)
	if o.FMore.K == ps.Map {
		f.L[0] = o.metadata()
	}
	return f
}

// metadata is what the failure carries.
func (o op) metadata() ps.V {
	m := ps.MapV("code", ps.StrV(o.Code), "message", ps.StrV(o.Msg))
	more := o.FMore.Expand()
	for i, k := range more.Keys {
		if string(k) != "code" && string(k) != "message" {
			m.Keys, m.L = append(m.Keys, k), append(m.L, more.L[i])
		}
	}
	return m
}

// toldFailure judges the error of a request the server failed.
func (e *engine) toldFailure(o op, err error) error {
	if !e.h.Cause {
		return nil
	}
	b, ok := err.(*berr.Error)
	if !ok {
		return fmt.Errorf("the error of a server failure is a %T, documented is *errors.Error", err)
	}
	f, ok := b.InnerMost().(messages.FailureMessage)
	if !ok {
		return fmt.Errorf("the innermost cause of a server failure is a %T", b.InnerMost())
	}
	if e2 := same(o.metadata(), f.Metadata); e2 != nil {
		return fmt.Errorf("the metadata of the server's failure: %v", e2)
	}
	if isBadConn(err) {
		return fmt.Errorf("a server failure after which the connection works reports a bad connection")
	}
	e.ctx.Label("told-failure")
	return nil
}

// toldRefused judges the error of an operation refused on a connection that works.
func (e *engine) toldRefused(err error, why string) error {
	if !e.h.Cause {
		return nil
	}
	if isBadConn(err) {
		return fmt.Errorf("%s: the connection works, but the error reports a bad connection: %s", why, oneLine(err))
	}
	if f, ok := cause(err); ok {
		return fmt.Errorf("%s: the server was not asked, but the error reports its failure %v", why, f.Metadata)
	}
	e.ctx.Label("told-refused")
	return nil
}

// toldBroken judges the error of a request during which the connection broke.
func (e *engine) toldBroken(o op, err error) error {
	if !e.h.Cause || err == nil {
		return nil
	}
	f, failed := cause(err)
	switch {
	case o.Fault == nil || o.Fault.Kind == "bad":
		return nil // a RESET or an answer that made no sense
	case failed && o.Fail != "":
		if f.GetCode() != o.Code || f.GetMessage() != o.Msg {
			return fmt.Errorf("the error reports the failure (%q, %q), the server sent (%q, %q)", f.GetCode(), f.GetMessage(), o.Code, o.Msg)
		}
	case failed:
		return fmt.Errorf("%s: the server sent no failure, but the error reports one: %v", faultNote(o.Fault), f.Metadata)
	case !isBadConn(err):
		return fmt.Errorf("%s: the innermost cause of the error is not driver.ErrBadConn: %s", faultNote(o.Fault), oneLine(err))
	default:
		e.ctx.Label("told-broken-" + o.Fault.Kind)
	}
	return nil
}

// gone judges an operation on a connection the server has closed.
func (e *engine) gone(o op, err error) error {
	if e2 := e.nothing(err, "the server has closed the connection"); e2 != nil || !e.h.Cause {
		return e2
	}
	if _, failed := cause(err); failed && o.HangUp == "word" {
		return nil
	}
	if !isBadConn(err) {
		return fmt.Errorf("the server has closed the connection (%s), but the innermost cause of the error is not driver.ErrBadConn: %s", o.HangUp, oneLine(err))
	}
	e.ctx.Label("told-gone-" + o.HangUp)
	return nil
}

// toldOpening judges the error of an opening that failed.
func toldOpening(o opening, err error) error {
	f, failed := cause(err)
	switch {
	case o.Dead:
	case o.Greet != nil, o.Init == "success" && o.Fault != nil && o.Fault.Kind != "bad":
		if !isBadConn(err) {
			return fmt.Errorf("the server went away (handshake fault %v, fault %v), but the innermost cause of the error is not driver.ErrBadConn: %s", o.Greet, faultNote2(o.Fault), oneLine(err))
		}
	case o.Init == "failure" || o.Init == "close-failure":
		if !failed {
			return fmt.Errorf("the error does not expose the server's failure %q: %s", o.Code, oneLine(err))
		}
		if e2 := same(ps.MapV("code", ps.StrV(o.Code), "message", ps.StrV(o.Msg)), f.Metadata); e2 != nil {
			return fmt.Errorf("the metadata of the server's failure: %v", e2)
		}
	}
	return nil
}

func init() {
	broke := func(h hist) bool {
		return countOps(h, func(o op) bool { return o.Fault != nil && o.Fault.Kind != "bad" || o.HangUp != "" || o.Fail != "" }) > 0
	}
	prop.Add(prop.Part{Prop: "C30", Name: "histories",
		Rule:  "3-12 operations of which some are failed by the server with generated metadata, refused by the driver, or hit by a disconnect or reset at a generated byte or while idle; the innermost cause of every error judged; non-trivial: a server failure or a disconnect",
		Quick: 12000, Thorough: 200000},
		genHist(flavour{MinOps: 3, MaxOps: 12, Tx: 35, Fail: 20, Faults: 65, Bad: 10, DB: 20, Odd: 10, Shape: true, Cause: true}),
		histRun(broke))
	prop.Add(prop.Part{Prop: "C30", Name: "stalled",
		Rule:  "as histories, some faults being stalls that end in a timeout; non-trivial: the history stalls",
		Quick: 500, Thorough: 16000},
		genHist(flavour{MinOps: 2, MaxOps: 6, Tx: 35, Fail: 10, Faults: 100, Stall: true, Cause: true}),
		histRun(func(h hist) bool {
			return countOps(h, func(o op) bool { return o.Fault != nil && o.Fault.Kind == "stall" }) > 0
		}))
	prop.Add(prop.Part{Prop: "C30", Name: "opening",
		Rule:  "1-3 openings refused by the server or cut off at a generated byte of the handshake or of the initial reply; non-trivial: all",
		Quick: 6000, Thorough: 60000},
		func(t *rapid.T) opening {
			o := genOpening(t)
			o.Choice, o.Greet, o.Fault, o.Dead, o.Cause = []byte{0, 0, 0, byte(o.Ver)}, nil, nil, false, true
			o.Code, o.Msg = genCode(t)
			o.Init = "success"
			switch rapid.IntRange(0, 2).Draw(t, "how") {
			case 0:
				o.Greet = &fault{Kind: rapid.SampledFrom([]string{"close", "rst"}).Draw(t, "gk2"), At: rapid.IntRange(0, 4).Draw(t, "gat2")}
			case 1:
				o.Init = rapid.SampledFrom([]string{"failure", "close-failure"}).Draw(t, "refusal3")
			case 2:
				o.Fault = &fault{On: "init", Kind: rapid.SampledFrom([]string{"close", "rst"}).Draw(t, "ik"), At: rapid.IntRange(0, 999).Draw(t, "iat"), Rel: true}
			}
			return o
		},
		func(ctx *prop.Ctx, o opening) error {
			ctx.NonTrivial()
			return runOpening(ctx, o, false)
		})
}
