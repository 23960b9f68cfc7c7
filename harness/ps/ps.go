// Package ps is an independent reference implementation of PackStream and of
// Bolt message chunking. It shares no code with the driver under test and is
// the oracle for everything that goes over the wire.
package ps

import (
	"encoding/binary"
	"fmt"
	"math"
)

// Kinds of values.
const (
	Nil    = "nil"
	Bool   = "bool"
	Int    = "int"
	Float  = "float"
	Str    = "str"
	List   = "list"
	Map    = "map"
	Struct = "struct"
	// Bad is a value the wire format cannot carry; only G says which one.
	Bad = "bad"
	// Raw is a stand-in for raw bytes in an encoding (malformed on purpose).
	Raw = "raw"
)

// V is a JSON-serialisable PackStream value. W asks the reference encoder for
// a non-minimal form (0: minimal; 8/16/32/64: at least that many bits). G
// selects the Go type used when the value is handed to the driver.
// N > 0 makes big values out of small cases: a string of N bytes (the pattern
// S repeated), a list of N elements (L repeated), a map of N entries (generated
// keys, values from L repeated).
type V struct {
	K    string   `json:"k"`
	B    bool     `json:"b,omitempty"`
	I    int64    `json:"i,omitempty"`
	F    uint64   `json:"f,omitempty"`
	S    []byte   `json:"s,omitempty"`
	N    int      `json:"n,omitempty"`
	L    []V      `json:"l,omitempty"`
	Keys [][]byte `json:"keys,omitempty"`
	Sig  byte     `json:"sig,omitempty"`
	W    int      `json:"w,omitempty"`
	G    string   `json:"g,omitempty"`
	Gone []V      `json:"-"` // values of a parsed map whose keys came again
}

func NilV() V                    { return V{K: Nil} }
func BoolV(b bool) V             { return V{K: Bool, B: b} }
func IntV(i int64) V             { return V{K: Int, I: i} }
func FloatV(f float64) V         { return V{K: Float, F: math.Float64bits(f)} }
func StrV(s string) V            { return V{K: Str, S: []byte(s)} }
func ListV(l ...V) V             { return V{K: List, L: l} }
func StructV(sig byte, l ...V) V { return V{K: Struct, Sig: sig, L: l} }

// MapV builds a map from alternating key strings and values.
func MapV(kv ...interface{}) V {
	v := V{K: Map}
	for i := 0; i+1 < len(kv); i += 2 {
		v.Keys = append(v.Keys, []byte(kv[i].(string)))
		v.L = append(v.L, kv[i+1].(V))
	}
	return v
}

// Get returns the entry of a map value.
func (v V) Get(key string) (V, bool) {
	for i, k := range v.Keys {
		if string(k) == key {
			return v.L[i], true
		}
	}
	return V{}, false
}

// KeySet lists map keys.
func (v V) KeySet() []string {
	out := []string{}
	for _, k := range v.Keys {
		out = append(out, string(k))
	}
	return out
}

// Expand replaces the N shorthand by explicit content, recursively.
func (v V) Expand() V {
	switch v.K {
	case Str:
		if v.N > 0 {
			pat := v.S
			if len(pat) == 0 {
				pat = []byte("x")
			}
			out := make([]byte, v.N)
			for i := range out {
				out[i] = pat[i%len(pat)]
			}
			v.S, v.N = out, 0
		}
	case List, Struct:
		if v.N > 0 {
			src := v.L
			if len(src) == 0 {
				src = []V{IntV(1)}
			}
			ex := make([]V, len(src))
			for i := range src {
				ex[i] = src[i].Expand()
			}
			out := make([]V, v.N)
			for i := range out {
				out[i] = ex[i%len(ex)]
			}
			v.L, v.N = out, 0
		} else {
			out := make([]V, len(v.L))
			for i := range v.L {
				out[i] = v.L[i].Expand()
			}
			v.L = out
		}
	case Map:
		if v.N > 0 {
			src := v.L
			if len(src) == 0 {
				src = []V{IntV(1)}
			}
			ex := make([]V, len(src))
			for i := range src {
				ex[i] = src[i].Expand()
			}
			out := make([]V, v.N)
			keys := make([][]byte, v.N)
			for i := range out {
				out[i] = ex[i%len(ex)]
				keys[i] = []byte(fmt.Sprintf("k%d", i))
			}
			v.L, v.Keys, v.N = out, keys, 0
		} else {
			out := make([]V, len(v.L))
			for i := range v.L {
				out[i] = v.L[i].Expand()
			}
			v.L = out
		}
	}
	return v
}

// Size is the number of nodes of an expanded value.
func (v V) Size() int {
	n := 1
	for i := range v.L {
		n += v.L[i].Size()
	}
	return n
}

// Walk calls f on each node.
func (v V) Walk(f func(V)) {
	f(v)
	for i := range v.L {
		v.L[i].Walk(f)
	}
}

func be16(b []byte, n int) []byte { return append(b, byte(n>>8), byte(n)) }
func be32(b []byte, n uint32) []byte {
	return append(b, byte(n>>24), byte(n>>16), byte(n>>8), byte(n))
}

func header(b []byte, n, w int, tiny, m8, m16, m32 byte) []byte {
	switch {
	case n <= 15 && w == 0:
		return append(b, tiny|byte(n))
	case n <= 255 && w <= 8:
		return append(b, m8, byte(n))
	case n <= 65535 && w <= 16:
		return be16(append(b, m16), n)
	default:
		return be32(append(b, m32), uint32(n))
	}
}

// Append encodes an expanded value.
func Append(b []byte, v V) []byte {
	switch v.K {
	case Nil:
		return append(b, 0xC0)
	case Bool:
		if v.B {
			return append(b, 0xC3)
		}
		return append(b, 0xC2)
	case Int:
		i := v.I
		switch {
		case i >= -16 && i <= 127 && v.W == 0:
			return append(b, byte(int8(i)))
		case i >= -128 && i <= 127 && v.W <= 8:
			return append(b, 0xC8, byte(int8(i)))
		case i >= -32768 && i <= 32767 && v.W <= 16:
			return be16(append(b, 0xC9), int(uint16(int16(i))))
		case i >= math.MinInt32 && i <= math.MaxInt32 && v.W <= 32:
			return be32(append(b, 0xCA), uint32(int32(i)))
		default:
			b = append(b, 0xCB)
			return binary.BigEndian.AppendUint64(b, uint64(i))
		}
	case Float:
		return binary.BigEndian.AppendUint64(append(b, 0xC1), v.F)
	case Str:
		b = header(b, len(v.S), v.W, 0x80, 0xD0, 0xD1, 0xD2)
		return append(b, v.S...)
	case List:
		b = header(b, len(v.L), v.W, 0x90, 0xD4, 0xD5, 0xD6)
		for i := range v.L {
			b = Append(b, v.L[i])
		}
		return b
	case Map:
		b = header(b, len(v.L), v.W, 0xA0, 0xD8, 0xD9, 0xDA)
		for i := range v.L {
			b = Append(b, V{K: Str, S: v.Keys[i]})
			b = Append(b, v.L[i])
		}
		return b
	case Struct:
		n := len(v.L)
		switch {
		case n <= 15 && v.W == 0:
			b = append(b, 0xB0|byte(n))
		case n <= 255 && v.W <= 8:
			b = append(b, 0xDC, byte(n))
		default:
			b = be16(append(b, 0xDD), n)
		}
		b = append(b, v.Sig)
		for i := range v.L {
			b = Append(b, v.L[i])
		}
		return b
	case Raw:
		return append(b, v.S...)
	}
	panic("ps.Append: kind " + v.K)
}

// Encode encodes (expanding first).
func Encode(v V) []byte { return Append(nil, v.Expand()) }

// Parse decodes exactly one value and requires that nothing follows.
func Parse(b []byte) (V, error) {
	p := &parser{b: b}
	v, err := p.value(0)
	if err != nil {
		return V{}, err
	}
	if p.i != len(b) {
		return V{}, fmt.Errorf("%d stray bytes after value", len(b)-p.i)
	}
	return v, nil
}

// ParsePrefix decodes one value from the front of b, ignoring what follows and
// letting the last of several equal map keys win. It returns the bytes used.
func ParsePrefix(b []byte) (V, int, error) {
	p := &parser{b: b, lenient: true}
	v, err := p.value(0)
	return v, p.i, err
}

type parser struct {
	b       []byte
	i       int
	lenient bool
}

func (p *parser) take(n int) ([]byte, error) {
	if n < 0 || len(p.b)-p.i < n {
		return nil, fmt.Errorf("need %d bytes at %d, have %d", n, p.i, len(p.b)-p.i)
	}
	out := p.b[p.i : p.i+n]
	p.i += n
	return out, nil
}

func (p *parser) size(w int) (int, error) {
	x, err := p.take(w)
	if err != nil {
		return 0, err
	}
	n := 0
	for _, c := range x {
		n = n<<8 | int(c)
	}
	return n, nil
}

func (p *parser) value(depth int) (V, error) {
	if depth > 100000 {
		return V{}, fmt.Errorf("too deep")
	}
	mb, err := p.take(1)
	if err != nil {
		return V{}, err
	}
	m := mb[0]
	sz := func(base byte) (int, error) {
		switch m - base {
		case 0:
			return p.size(1)
		case 1:
			return p.size(2)
		default:
			return p.size(4)
		}
	}
	switch {
	case m == 0xC0:
		return V{K: Nil}, nil
	case m == 0xC2 || m == 0xC3:
		return V{K: Bool, B: m == 0xC3}, nil
	case m < 0x80 || m >= 0xF0:
		return V{K: Int, I: int64(int8(m))}, nil
	case m >= 0xC8 && m <= 0xCB:
		w := 1 << (m - 0xC8)
		x, err := p.take(w)
		if err != nil {
			return V{}, err
		}
		u := uint64(0)
		for _, c := range x {
			u = u<<8 | uint64(c)
		}
		shift := uint(64 - 8*w)
		return V{K: Int, I: int64(u<<shift) >> shift}, nil
	case m == 0xC1:
		x, err := p.take(8)
		if err != nil {
			return V{}, err
		}
		return V{K: Float, F: binary.BigEndian.Uint64(x)}, nil
	case m&0xF0 == 0x80 || (m >= 0xD0 && m <= 0xD2):
		n := int(m & 0x0F)
		if m >= 0xD0 {
			if n, err = sz(0xD0); err != nil {
				return V{}, err
			}
		}
		x, err := p.take(n)
		if err != nil {
			return V{}, err
		}
		return V{K: Str, S: append([]byte{}, x...)}, nil
	case m&0xF0 == 0x90 || (m >= 0xD4 && m <= 0xD6):
		n := int(m & 0x0F)
		if m >= 0xD0 {
			if n, err = sz(0xD4); err != nil {
				return V{}, err
			}
		}
		v := V{K: List, L: []V{}}
		for i := 0; i < n; i++ {
			e, err := p.value(depth + 1)
			if err != nil {
				return V{}, err
			}
			v.L = append(v.L, e)
		}
		return v, nil
	case m&0xF0 == 0xA0 || (m >= 0xD8 && m <= 0xDA):
		n := int(m & 0x0F)
		if m >= 0xD0 {
			if n, err = sz(0xD8); err != nil {
				return V{}, err
			}
		}
		v := V{K: Map, L: []V{}, Keys: [][]byte{}}
		seen := map[string]int{}
		for i := 0; i < n; i++ {
			k, err := p.value(depth + 1)
			if err != nil {
				return V{}, err
			}
			if k.K != Str {
				return V{}, fmt.Errorf("map key of kind %s", k.K)
			}
			at, dup := seen[string(k.S)]
			if dup && !p.lenient {
				return V{}, fmt.Errorf("duplicate map key %q", k.S)
			}
			e, err := p.value(depth + 1)
			if err != nil {
				return V{}, err
			}
			if dup {
				v.Gone = append(v.Gone, v.L[at])
				v.L[at] = e
				continue
			}
			seen[string(k.S)] = len(v.L)
			v.Keys = append(v.Keys, k.S)
			v.L = append(v.L, e)
		}
		return v, nil
	case m&0xF0 == 0xB0 || m == 0xDC || m == 0xDD:
		n := int(m & 0x0F)
		if m >= 0xD0 {
			if n, err = p.size(1 << (m - 0xDC)); err != nil {
				return V{}, err
			}
		}
		s, err := p.take(1)
		if err != nil {
			return V{}, err
		}
		v := V{K: Struct, Sig: s[0], L: []V{}}
		for i := 0; i < n; i++ {
			e, err := p.value(depth + 1)
			if err != nil {
				return V{}, err
			}
			v.L = append(v.L, e)
		}
		return v, nil
	}
	return V{}, fmt.Errorf("illegal marker 0x%02x at %d", m, p.i-1)
}

// Diff compares two expanded values, ignoring W, G and map order. Empty means equal.
func Diff(want, got V) string { return diff("", want, got) }

func short(v V) string {
	s := fmt.Sprintf("%s", Show(v))
	if len(s) > 120 {
		s = s[:120] + "..."
	}
	return s
}

func diff(path string, a, b V) string {
	if a.K != b.K {
		return fmt.Sprintf("%s: want %s got %s", path, short(a), short(b))
	}
	switch a.K {
	case Bool:
		if a.B != b.B {
			return fmt.Sprintf("%s: want %v got %v", path, a.B, b.B)
		}
	case Int:
		if a.I != b.I {
			return fmt.Sprintf("%s: want %d got %d", path, a.I, b.I)
		}
	case Float:
		if a.F != b.F {
			return fmt.Sprintf("%s: want float bits %x got %x", path, a.F, b.F)
		}
	case Str:
		if string(a.S) != string(b.S) {
			return fmt.Sprintf("%s: want %s (%d bytes) got %s (%d bytes)", path, short(a), len(a.S), short(b), len(b.S))
		}
	case List:
		if len(a.L) != len(b.L) {
			return fmt.Sprintf("%s: want list of %d got list of %d", path, len(a.L), len(b.L))
		}
		for i := range a.L {
			if d := diff(fmt.Sprintf("%s[%d]", path, i), a.L[i], b.L[i]); d != "" {
				return d
			}
		}
	case Struct:
		if a.Sig != b.Sig {
			return fmt.Sprintf("%s: want struct 0x%02x got 0x%02x", path, a.Sig, b.Sig)
		}
		if len(a.L) != len(b.L) {
			return fmt.Sprintf("%s: want struct 0x%02x with %d fields got %d", path, a.Sig, len(a.L), len(b.L))
		}
		for i := range a.L {
			if d := diff(fmt.Sprintf("%s<%d>", path, i), a.L[i], b.L[i]); d != "" {
				return d
			}
		}
	case Map:
		if len(a.L) != len(b.L) {
			return fmt.Sprintf("%s: want map %v got %v", path, short(a), short(b))
		}
		idx := make(map[string]int, len(b.L))
		for i, k := range b.Keys {
			idx[string(k)] = i
		}
		for i, k := range a.Keys {
			j, ok := idx[string(k)]
			if !ok {
				return fmt.Sprintf("%s: missing key %q", path, k)
			}
			if d := diff(fmt.Sprintf("%s.%q", path, k), a.L[i], b.L[j]); d != "" {
				return d
			}
		}
	}
	return ""
}

// Show renders a value compactly.
func Show(v V) string {
	switch v.K {
	case Nil:
		return "nil"
	case Bool:
		return fmt.Sprint(v.B)
	case Int:
		return fmt.Sprint(v.I)
	case Float:
		return fmt.Sprintf("%g", math.Float64frombits(v.F))
	case Str:
		s := v.S
		if len(s) > 40 {
			return fmt.Sprintf("%q...(%d)", s[:40], len(s))
		}
		return fmt.Sprintf("%q", s)
	case List, Struct:
		out := "["
		if v.K == Struct {
			out = fmt.Sprintf("0x%02x(", v.Sig)
		}
		for i := range v.L {
			if i > 0 {
				out += " "
			}
			if i > 8 {
				out += fmt.Sprintf("...%d", len(v.L))
				break
			}
			out += Show(v.L[i])
		}
		if v.K == Struct {
			return out + ")"
		}
		return out + "]"
	case Map:
		out := "{"
		for i := range v.L {
			if i > 0 {
				out += " "
			}
			if i > 8 {
				out += fmt.Sprintf("...%d", len(v.L))
				break
			}
			if i < len(v.Keys) {
				out += fmt.Sprintf("%q:", v.Keys[i])
			}
			out += Show(v.L[i])
		}
		return out + "}"
	}
	return v.K + ":" + v.G
}

// Chunk cuts a message into chunks whose sizes follow pattern cyclically
// (values < 1 or > 65535 mean 65535) and appends the end marker.
func Chunk(msg []byte, pattern []int) []byte {
	var out []byte
	i := 0
	for len(msg) > 0 {
		n := 65535
		if len(pattern) > 0 {
			n = pattern[i%len(pattern)]
			i++
			if n < 1 || n > 65535 {
				n = 65535
			}
		}
		if n > len(msg) {
			n = len(msg)
		}
		out = be16(out, n)
		out = append(out, msg[:n]...)
		msg = msg[n:]
	}
	return append(out, 0, 0)
}

// Message is one dechunked message with the chunk sizes used.
type Message struct {
	Body   []byte
	Chunks []int
}

// Dechunk splits a complete stream into messages; trailing partial data is an error.
func Dechunk(b []byte) ([]Message, error) {
	var out []Message
	cur := Message{}
	open := false
	for len(b) > 0 {
		if len(b) < 2 {
			return out, fmt.Errorf("dangling half chunk header")
		}
		n := int(b[0])<<8 | int(b[1])
		b = b[2:]
		open = true
		if n == 0 {
			out = append(out, cur)
			cur = Message{}
			open = false
			continue
		}
		if len(b) < n {
			return out, fmt.Errorf("chunk declares %d bytes, only %d follow", n, len(b))
		}
		cur.Body = append(cur.Body, b[:n]...)
		cur.Chunks = append(cur.Chunks, n)
		b = b[n:]
	}
	if open {
		return out, fmt.Errorf("message without end marker")
	}
	return out, nil
}
