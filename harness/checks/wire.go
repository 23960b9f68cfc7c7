package checks

import (
	"fmt"
	"time"

	"github.com/mindstand/go-bolt/structures/graph"
	"github.com/mindstand/go-bolt/structures/messages"
	"github.com/mindstand/gotime"
	"pgregory.net/rapid"

	"vharness/ps"
)

// Wire forms of the structures a server may send, and a strict typed model of
// what a decoder may make of arbitrary PackStream.

func genLabels(t *rapid.T) ps.V {
	v := ps.V{K: ps.List, L: []ps.V{}}
	n := rapid.SampledFrom([]int{0, 1, 1, 2, 3, 5, 16, 17, 130}).Draw(t, "labels")
	for i := 0; i < n; i++ {
		if n > 5 {
			v.L = append(v.L, ps.StrV(fmt.Sprintf("L%d", i)))
		} else {
			v.L = append(v.L, ps.V{K: ps.Str, S: []byte(rapid.SampledFrom([]string{"Person", "", "A", "ü", "x y", "Movie", "\x00"}).Draw(t, "label"))})
		}
	}
	return v
}

func smallMap(t *rapid.T, o ps.GenOpts) ps.V {
	if o.Depth > 2 {
		o.Depth = 2
	}
	o.Big = false
	return ps.GenMap(t, o)
}

func genID(t *rapid.T, o ps.GenOpts) ps.V {
	v := ps.IntV(ps.GenInt(t, "id"))
	if o.Wide {
		v.W = rapid.SampledFrom([]int{0, 8, 16, 32, 64}).Draw(t, "w")
	}
	return v
}

func genNode(t *rapid.T, o ps.GenOpts) ps.V {
	return ps.StructV('N', genID(t, o), genLabels(t), smallMap(t, o))
}

func genType(t *rapid.T) ps.V {
	return ps.V{K: ps.Str, S: []byte(rapid.SampledFrom([]string{"KNOWS", "", "ü", "LIKES", "a b", "\x00"}).Draw(t, "type"))}
}

func genRel(t *rapid.T, o ps.GenOpts) ps.V {
	return ps.StructV('R', genID(t, o), genID(t, o), genID(t, o), genType(t), smallMap(t, o))
}

func genURel(t *rapid.T, o ps.GenOpts) ps.V {
	return ps.StructV('r', genID(t, o), genType(t), smallMap(t, o))
}

func genPath(t *rapid.T, o ps.GenOpts) ps.V {
	nodes, rels, seq := ps.V{K: ps.List, L: []ps.V{}}, ps.V{K: ps.List, L: []ps.V{}}, ps.V{K: ps.List, L: []ps.V{}}
	for i, n := 0, rapid.IntRange(0, 4).Draw(t, "nodes"); i < n; i++ {
		nodes.L = append(nodes.L, genNode(t, o))
	}
	for i, n := 0, rapid.IntRange(0, 3).Draw(t, "rels"); i < n; i++ {
		rels.L = append(rels.L, genURel(t, o))
	}
	for i, n := 0, rapid.SampledFrom([]int{0, 1, 2, 4, 16, 140}).Draw(t, "seq"); i < n; i++ {
		if n > 4 {
			seq.L = append(seq.L, ps.IntV(int64(i-70)))
		} else {
			seq.L = append(seq.L, genID(t, o))
		}
	}
	return ps.StructV('P', nodes, rels, seq)
}

// genGraph draws a node, relationship, unbound relationship or path.
func genGraph(t *rapid.T, o ps.GenOpts) ps.V {
	var v ps.V
	switch rapid.IntRange(0, 3).Draw(t, "graph") {
	case 0:
		v = genNode(t, o)
	case 1:
		v = genRel(t, o)
	case 2:
		v = genURel(t, o)
	default:
		v = genPath(t, o)
	}
	if o.Wide {
		v.W = rapid.SampledFrom([]int{0, 0, 8, 16}).Draw(t, "sw")
	}
	return v
}

var srids = []int64{4326, 4979, 7203, 9157, 0, -1, 1 << 40}

func genPoint(t *rapid.T, o ps.GenOpts) ps.V {
	f := func(l string) ps.V { return ps.V{K: ps.Float, F: ps.GenFloat(t, l)} }
	srid := ps.IntV(rapid.SampledFrom(srids).Draw(t, "srid"))
	v := ps.StructV('X', srid, f("x"), f("y"))
	if rapid.Bool().Draw(t, "3d") {
		v = ps.StructV('Y', srid, f("x"), f("y"), f("z"))
	}
	if o.Wide {
		v.W = rapid.SampledFrom([]int{0, 0, 8, 16}).Draw(t, "sw")
	}
	return v
}

// genTemporal draws a well-formed temporal structure with ordinary contents.
func genTemporal(t *rapid.T, o ps.GenOpts) ps.V {
	r := func(l string, a, b int64) ps.V { return ps.IntV(rapid.Int64Range(a, b).Draw(t, l)) }
	off := func() ps.V { return r("off", -18*3600, 18*3600) }
	switch rapid.IntRange(0, 6).Draw(t, "temporal") {
	case 0:
		return ps.StructV('D', r("d", -1000000, 1000000))
	case 1:
		return ps.StructV('T', r("n", 0, 86399999999999), off())
	case 2:
		return ps.StructV('t', r("n", 0, 86399999999999))
	case 3:
		return ps.StructV('d', r("s", -1e11, 1e11), r("n", 0, 999999999))
	case 4:
		return ps.StructV('F', r("s", -1e11, 1e11), r("n", 0, 999999999), off())
	case 5:
		return ps.StructV('f', r("s", -1e9, 4e9), r("n", 0, 999999999), ps.StrV(rapid.SampledFrom([]string{"Europe/Berlin", "UTC", "America/New_York", "Asia/Kolkata"}).Draw(t, "z")))
	default:
		return ps.StructV('E', r("mo", 0, 0), r("d", -10000, 10000), r("s", -1e8, 1e8), r("n", -999999999, 999999999))
	}
}

// genAnyWire draws any structure a server of the encoding version may send.
func genAnyWire(ver int) func(*rapid.T, ps.GenOpts) ps.V {
	return func(t *rapid.T, o ps.GenOpts) ps.V {
		if ver == 1 {
			return genGraph(t, o)
		}
		switch rapid.IntRange(0, 3).Draw(t, "wire") {
		case 0:
			return genPoint(t, o)
		case 1:
			return genTemporal(t, o)
		}
		return genGraph(t, o)
	}
}

// Verdicts of the typed model.
const (
	wireOK     = iota // denotes exactly one value
	wireOpaque        // well-formed, but its value is not modelled here
	wireLoose         // not a value a server sends; only termination is claimed
	wireBad           // malformed: must be an error
)

var graphShape = map[byte][]string{
	'N': {ps.Int, "strings", ps.Map},
	'R': {ps.Int, ps.Int, ps.Int, ps.Str, ps.Map},
	'r': {ps.Int, ps.Str, ps.Map},
	'P': {"nodes", "urels", "ints"},
}
var pointShape = map[byte][]string{
	'X': {ps.Int, ps.Float, ps.Float},
	'Y': {ps.Int, ps.Float, ps.Float, ps.Float},
}
var temporalShape = map[byte][]string{
	'D': {ps.Int}, 'T': {ps.Int, ps.Int}, 't': {ps.Int}, 'd': {ps.Int, ps.Int},
	'F': {ps.Int, ps.Int, ps.Int}, 'f': {ps.Int, ps.Int, ps.Str}, 'E': {ps.Int, ps.Int, ps.Int, ps.Int},
}
var messageShape = map[byte][]string{
	0x70: {ps.Map}, 0x7F: {ps.Map}, 0x71: {ps.List}, 0x7E: {},
}

func fieldOK(kind string, v ps.V) bool {
	all := func(k string, sig byte) bool {
		if v.K != ps.List {
			return false
		}
		for _, e := range v.L {
			if e.K != k || (k == ps.Struct && e.Sig != sig) {
				return false
			}
		}
		return true
	}
	switch kind {
	case "strings":
		return all(ps.Str, 0)
	case "ints":
		return all(ps.Int, 0)
	case "nodes":
		return all(ps.Struct, 'N')
	case "urels":
		return all(ps.Struct, 'r')
	}
	return v.K == kind
}

// typed judges a parsed value as a decoder of the given encoding version must.
func typed(ver int, v ps.V) (int, string) {
	verdict := wireOK
	for i, e := range v.L {
		k, why := typed(ver, e)
		if k == wireBad {
			return k, fmt.Sprintf("[%d]%s", i, why)
		}
		if k > verdict {
			verdict = k
		}
	}
	for _, e := range v.Gone {
		// what is wrong with a value that another one replaces may be told or not
		if k, _ := typed(ver, e); k != wireOK && verdict < wireOpaque {
			verdict = wireOpaque
		}
	}
	if v.K != ps.Struct {
		return verdict, ""
	}
	shape, known := graphShape[v.Sig]
	if !known {
		shape, known = messageShape[v.Sig]
	}
	if !known && ver == 2 {
		if shape, known = pointShape[v.Sig]; !known {
			if shape, known = temporalShape[v.Sig]; known && verdict == wireOK {
				verdict = wireOpaque
			}
		}
	}
	if !known {
		if v.Sig == 0x0F || v.Sig == 0x2F || v.Sig == 0x3F {
			return wireLoose, "" // request messages: what the decoder makes of them is nobody's business
		}
		return wireBad, fmt.Sprintf("unknown structure 0x%02x", v.Sig)
	}
	if v.Sig == 0x7E && len(v.L) > 0 {
		return wireLoose, "" // some servers send metadata here
	}
	if len(shape) != len(v.L) {
		return wireBad, fmt.Sprintf("structure 0x%02x with %d fields, needs %d", v.Sig, len(v.L), len(shape))
	}
	for i, k := range shape {
		if !fieldOK(k, v.L[i]) {
			return wireBad, fmt.Sprintf("structure 0x%02x field %d is %s, needs %s", v.Sig, i, ps.Show(v.L[i]), k)
		}
	}
	return verdict, ""
}

// sameLoose compares a decoded value with its wire form where temporal
// structures only have to be of the right Go type.
func sameLoose(want ps.V, got interface{}) error {
	switch want.K {
	case ps.List:
		l, ok := got.([]interface{})
		if !ok || len(l) != len(want.L) {
			return fmt.Errorf("want list of %d, got %T", len(want.L), got)
		}
		for i := range l {
			if err := sameLoose(want.L[i], l[i]); err != nil {
				return fmt.Errorf("[%d]%w", i, err)
			}
		}
		return nil
	case ps.Map:
		m, ok := got.(map[string]interface{})
		if !ok || len(m) != len(want.L) {
			return fmt.Errorf("want map of %d, got %T %d", len(want.L), got, len(m))
		}
		for i, k := range want.Keys {
			e, ok := m[string(k)]
			if !ok {
				return fmt.Errorf("key %q missing", k)
			}
			if err := sameLoose(want.L[i], e); err != nil {
				return fmt.Errorf(".%q%w", k, err)
			}
		}
		return nil
	case ps.Struct:
		switch g := got.(type) {
		case messages.SuccessMessage:
			return looseStruct(want, 0x70, g.Metadata)
		case messages.FailureMessage:
			return looseStruct(want, 0x7F, g.Metadata)
		case messages.RecordMessage:
			return looseStruct(want, 0x71, g.Fields)
		case messages.IgnoredMessage:
			return looseSig(want, 0x7E)
		case gotime.Date:
			return looseSig(want, 'D')
		case gotime.Clock:
			return looseSig(want, 'T')
		case gotime.LocalClock:
			return looseSig(want, 't')
		case gotime.LocalTime:
			return looseSig(want, 'd')
		case time.Time:
			if want.Sig == 'F' || want.Sig == 'f' {
				return nil
			}
		case time.Duration:
			return looseSig(want, 'E')
		case graph.Node:
			l := make([]interface{}, len(g.Labels))
			for i := range l {
				l[i] = g.Labels[i]
			}
			return looseStruct(want, 'N', g.NodeIdentity, l, g.Properties)
		case graph.Relationship:
			return looseStruct(want, 'R', g.RelIdentity, g.StartNodeIdentity, g.EndNodeIdentity, g.Type, g.Properties)
		case graph.UnboundRelationship:
			return looseStruct(want, 'r', g.RelIdentity, g.Type, g.Properties)
		case graph.Path:
			var n, r, s []interface{}
			for _, x := range g.Nodes {
				n = append(n, x)
			}
			for _, x := range g.Relationships {
				r = append(r, x)
			}
			for _, x := range g.Sequence {
				s = append(s, int64(x))
			}
			return looseStruct(want, 'P', n, r, s)
		case messages.ResetMessage, messages.DiscardAllMessage, messages.PullAllMessage:
			return nil
		}
	}
	return same(want, got)
}

func looseSig(want ps.V, sig byte) error {
	if want.Sig != sig {
		return fmt.Errorf("structure 0x%02x decoded as 0x%02x", want.Sig, sig)
	}
	return nil
}

func looseStruct(want ps.V, sig byte, fields ...interface{}) error {
	if want.Sig != sig || len(want.L) != len(fields) {
		return fmt.Errorf("structure 0x%02x/%d decoded as 0x%02x/%d", want.Sig, len(want.L), sig, len(fields))
	}
	for i := range fields {
		if err := sameLoose(want.L[i], fields[i]); err != nil {
			return fmt.Errorf("<%d>%w", i, err)
		}
	}
	return nil
}
