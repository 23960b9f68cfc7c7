package checks

import (
	"bytes"
	"fmt"

	"vharness/ps"
)

// twist gives a value of the same shape with other leaves: what a later
// message may well look like, and what must not show in an earlier one.
func twist(v ps.V) ps.V {
	switch v.K {
	case ps.Bool:
		v.B = !v.B
	case ps.Int:
		if v.G == "" || v.G == "int" || v.G == "int64" {
			v.I = ^v.I
		}
	case ps.Float:
		v.F ^= 1 << 51
	case ps.Str:
		s := make([]byte, len(v.S))
		for i := range s {
			s[i] = v.S[i]
			if s[i] < 0x80 {
				s[i] ^= 0x15
			}
		}
		v.S = s
	case ps.List, ps.Map, ps.Struct:
		l := make([]ps.V, len(v.L))
		for i := range l {
			l[i] = twist(v.L[i])
		}
		if v.K == ps.Struct && v.Sig == 'P' && len(l) == 3 {
			l[2] = v.L[2] // the steps must fit the nodes and relationships
		}
		v.L = l
	}
	return v
}

// undisturbed decodes other messages of the same shape after one that was
// decoded before (with the same means), and calls check again: what was handed
// out must not change.
func undisturbed(cd codec, v ps.V, check func() error) error {
	b := ps.Chunk(ps.Append(nil, twist(v)), nil)
	if costly(b) {
		return nil
	}
	if _, err := cd.unmarshal(b); err != nil {
		return fmt.Errorf("decoding a second well-formed message failed: %v", err)
	}
	if _, err := cd.dec(bytes.NewReader(b)).Decode(); err != nil {
		return fmt.Errorf("decoding a third well-formed message failed: %v", err)
	}
	if err := check(); err != nil {
		return fmt.Errorf("a decoded value changed when another message was decoded: %v", err)
	}
	return nil
}

// unwritten encodes another value of the same shape and checks the first bytes again.
func unwritten(cd codec, v ps.V, b []byte) error {
	if costly(b) {
		return nil
	}
	if _, err := cd.marshal(toGo(twist(v))); err != nil {
		return fmt.Errorf("encoding a second supported value failed: %v", err)
	}
	if err := encoded(v, b); err != nil {
		return fmt.Errorf("after another value was encoded: %v", err)
	}
	return nil
}

// costly leaves out most of the big messages.
func costly(b []byte) bool { return len(b) > 8192 && len(b)%8 != 0 }
