package checks

import (
	"fmt"
	"math"
	"reflect"
	"time"

	"github.com/mindstand/go-bolt/encoding"
	"github.com/mindstand/go-bolt/encoding/encoding_v1"
	"github.com/mindstand/go-bolt/encoding/encoding_v2"
	"github.com/mindstand/go-bolt/structures/graph"
	"github.com/mindstand/go-bolt/structures/messages"
	"github.com/mindstand/go-bolt/structures/types"
	"github.com/mindstand/gotime"

	"io"

	"vharness/ps"
)

// codec is one encoding version of the driver.
type codec struct {
	name      string
	marshal   func(interface{}) ([]byte, error)
	unmarshal func([]byte) (interface{}, error)
	enc       func(io.Writer, uint16) encoding.IEncoder
	dec       func(io.Reader) encoding.IDecoder
}

func codecFor(v int) codec {
	if v == 1 {
		return codec{"v1", encoding_v1.Marshal, encoding_v1.Unmarshal,
			func(w io.Writer, c uint16) encoding.IEncoder { return encoding_v1.NewEncoder(w, c) },
			func(r io.Reader) encoding.IDecoder { return encoding_v1.NewDecoder(r) }}
	}
	return codec{"v2", encoding_v2.Marshal, encoding_v2.Unmarshal,
		func(w io.Writer, c uint16) encoding.IEncoder { return encoding_v2.NewEncoder(w, c) },
		func(r io.Reader) encoding.IDecoder { return encoding_v2.NewDecoder(r) }}
}

// genericStruct is a structure with arbitrary signature and fields.
type genericStruct struct {
	sig    int
	fields []interface{}
}

func (g genericStruct) Signature() int           { return g.sig }
func (g genericStruct) AllFields() []interface{} { return g.fields }

// toGo builds the Go value handed to the driver (v is expanded).
func toGo(v ps.V) interface{} {
	switch v.K {
	case ps.Nil:
		return nil
	case ps.Bool:
		return v.B
	case ps.Int:
		switch v.G {
		case "int8":
			return int8(v.I)
		case "int16":
			return int16(v.I)
		case "int32":
			return int32(v.I)
		case "int64":
			return v.I
		case "uint":
			return uint(v.I)
		case "uint8":
			return uint8(v.I)
		case "uint16":
			return uint16(v.I)
		case "uint32":
			return uint32(v.I)
		case "uint64":
			return uint64(v.I)
		}
		return int(v.I)
	case ps.Float:
		if v.G == "float32" {
			return float32(math.Float64frombits(v.F))
		}
		return math.Float64frombits(v.F)
	case ps.Str:
		return string(v.S)
	case ps.List:
		switch v.G {
		case "[]string":
			out := make([]string, len(v.L))
			for i := range v.L {
				out[i] = string(v.L[i].S)
			}
			return out
		case "[]int":
			out := make([]int, len(v.L))
			for i := range v.L {
				out[i] = int(v.L[i].I)
			}
			return out
		case "[]int64":
			out := make([]int64, len(v.L))
			for i := range v.L {
				out[i] = v.L[i].I
			}
			return out
		case "[]uint8":
			out := make([]uint8, len(v.L))
			for i := range v.L {
				out[i] = uint8(v.L[i].I)
			}
			return out
		case "[]float64":
			out := make([]float64, len(v.L))
			for i := range v.L {
				out[i] = math.Float64frombits(v.L[i].F)
			}
			return out
		case "[]bool":
			out := make([]bool, len(v.L))
			for i := range v.L {
				out[i] = v.L[i].B
			}
			return out
		case "[][]string":
			out := make([][]string, len(v.L))
			for i := range v.L {
				out[i] = toGo(v.L[i]).([]string)
			}
			return out
		case "[]int8":
			out := make([]int8, len(v.L))
			for i := range v.L {
				out[i] = int8(v.L[i].I)
			}
			return out
		case "[]int32":
			out := make([]int32, len(v.L))
			for i := range v.L {
				out[i] = int32(v.L[i].I)
			}
			return out
		case "[]uint16":
			out := make([]uint16, len(v.L))
			for i := range v.L {
				out[i] = uint16(v.L[i].I)
			}
			return out
		case "[]float32":
			out := make([]float32, len(v.L))
			for i := range v.L {
				out[i] = float32(math.Float64frombits(v.L[i].F))
			}
			return out
		case "[][]any":
			out := make([][]interface{}, len(v.L))
			for i := range v.L {
				out[i] = toGo(v.L[i]).([]interface{})
			}
			return out
		case "words":
			out := make(wordList, len(v.L))
			for i := range v.L {
				out[i] = string(v.L[i].S)
			}
			return out
		case "anys":
			out := make(anyList, len(v.L))
			for i := range v.L {
				out[i] = toGo(v.L[i])
			}
			return out
		case "nil", "nilnil":
			return []interface{}(nil)
		case "nil[]string":
			return []string(nil)
		case "nil[]int":
			return []int(nil)
		case "nil[]int8":
			return []int8(nil)
		case "nil[]int32":
			return []int32(nil)
		case "nil[]int64":
			return []int64(nil)
		case "nil[]uint8":
			return []uint8(nil)
		case "nil[]uint16":
			return []uint16(nil)
		case "nil[]float32":
			return []float32(nil)
		case "nil[]float64":
			return []float64(nil)
		case "nil[]bool":
			return []bool(nil)
		case "nil[][]string":
			return [][]string(nil)
		case "nil[][]any":
			return [][]interface{}(nil)
		case "nil[]map":
			return []map[string]interface{}(nil)
		case "nilwords":
			return wordList(nil)
		case "nilanys":
			return anyList(nil)
		case "[]map":
			out := make([]map[string]interface{}, len(v.L))
			for i := range v.L {
				out[i] = toGo(v.L[i]).(map[string]interface{})
			}
			return out
		}
		out := make([]interface{}, len(v.L))
		for i := range v.L {
			out[i] = toGo(v.L[i])
		}
		return out
	case ps.Map:
		return toGoMap(v)
	case ps.Struct:
		out := make([]interface{}, len(v.L))
		for i := range v.L {
			out[i] = toGo(v.L[i])
		}
		return genericStruct{int(v.Sig), out}
	case ps.Bad:
		return badValue(v.G)
	}
	panic("toGo: " + v.K)
}

// typed slices with a name of their own
type (
	wordList []string
	anyList  []interface{}
)

func toGoMap(v ps.V) map[string]interface{} {
	if v.G == "nil" && len(v.L) == 0 {
		return nil
	}
	out := make(map[string]interface{}, len(v.L))
	for i := range v.L {
		out[string(v.Keys[i])] = toGo(v.L[i])
	}
	return out
}

type plainStruct struct{ A int }

var badKinds = []string{"chan", "func", "struct", "ptr", "complex", "intmap", "uint64", "maxuint64", "array",
	"nilptr", "nilnode", "nilpath", "nilmessage", "nilchan", "nilfunc", "anymap", "chans", "uint64s", "ptrs", "structs", "intmaps", "nilnodes",
	"nodeprop", "pathprop", "relprop", "error", "uintptr", "duration-ptr", "time-ptr"}

// badHeavy take milliseconds to be refused.
var badHeavy = []string{"wide", "loop", "loopmap", "looptyped", "loopbad", "widebad"}

// badV1 cannot be carried by version 1 of the encoding.
var badV1 = []string{"time", "duration", "date", "clock", "localclock", "localtime", "times"}

type selfSlice []selfSlice

func badValue(g string) interface{} {
	switch g {
	case "chan":
		return make(chan int)
	case "func":
		return func() {}
	case "struct":
		return plainStruct{1}
	case "ptr":
		x := 5
		return &x
	case "complex":
		return complex(1, 2)
	case "intmap":
		return map[int]string{1: "x"}
	case "uint64":
		return uint64(math.MaxInt64) + 1
	case "maxuint64":
		return uint64(math.MaxUint64)
	case "array":
		return [2]int{1, 2}
	case "nilptr":
		return (*int)(nil)
	case "nilnode":
		return (*graph.Node)(nil)
	case "nilpath":
		return (*graph.Path)(nil)
	case "nilmessage":
		return (*messages.SuccessMessage)(nil)
	case "nilnodes":
		return []*graph.Node{{NodeIdentity: 1}, nil}
	case "nilchan":
		return (chan int)(nil)
	case "nilfunc":
		return (func())(nil)
	case "anymap":
		return map[interface{}]interface{}{"a": 1, 2: 3}
	case "chans":
		return []chan int{nil}
	case "uint64s":
		return []uint64{1, math.MaxInt64 + 1}
	case "ptrs":
		return []*int{nil}
	case "structs":
		return []plainStruct{{1}}
	case "intmaps":
		return []map[int]int{{1: 1}}
	case "nodeprop":
		return graph.Node{NodeIdentity: 1, Labels: []string{"a"}, Properties: map[string]interface{}{"x": []interface{}{1, make(chan int)}}}
	case "relprop":
		return &graph.Relationship{Type: "a", Properties: map[string]interface{}{"x": complex(1, 1)}}
	case "pathprop":
		return graph.Path{Nodes: []graph.Node{{}, {Properties: map[string]interface{}{"x": func() {}}}}}
	case "wide":
		return genericStruct{1, make([]interface{}, 65536)}
	case "loop":
		x := []interface{}{1, nil}
		x[1] = x
		return x
	case "loopmap":
		x := map[string]interface{}{}
		x["x"] = []map[string]interface{}{x}
		return x
	case "looptyped":
		x := selfSlice{nil}
		x[0] = x
		return x
	case "loopbad": // not encodable, and endless to print
		x := map[int]interface{}{}
		x[1] = x
		return x
	case "widebad":
		x := map[int]interface{}{}
		x[1] = x
		return genericStruct{1, append(make([]interface{}, 65536), x)}
	case "error":
		return fmt.Errorf("x")
	case "uintptr":
		return uintptr(1)
	case "time-ptr":
		return &time.Time{}
	case "duration-ptr":
		return (*time.Duration)(nil)
	case "time":
		return time.Unix(1, 1)
	case "times":
		return []time.Time{time.Unix(1, 1)}
	case "duration":
		return time.Second
	case "date":
		return gotime.NewDate(2020, 1, 2)
	case "clock":
		return gotime.NewClock(1, 2, 3, 4, time.UTC)
	case "localclock":
		return gotime.NewLocalClock(1, 2, 3, 4)
	case "localtime":
		return gotime.NewLocalTimeFromUnix(1, 1)
	}
	panic("badValue " + g)
}

// fromGo turns a decoded Go value into the reference form. Only the types the
// decoder documents are accepted: anything else is an error.
func fromGo(x interface{}) (ps.V, error) {
	switch v := x.(type) {
	case nil:
		return ps.NilV(), nil
	case bool:
		return ps.BoolV(v), nil
	case int64:
		return ps.IntV(v), nil
	case float64:
		return ps.V{K: ps.Float, F: math.Float64bits(v)}, nil
	case string:
		return ps.V{K: ps.Str, S: []byte(v)}, nil
	case []interface{}:
		out := ps.V{K: ps.List, L: make([]ps.V, len(v))}
		for i := range v {
			e, err := fromGo(v[i])
			if err != nil {
				return ps.V{}, fmt.Errorf("[%d]: %w", i, err)
			}
			out.L[i] = e
		}
		return out, nil
	case map[string]interface{}:
		out := ps.V{K: ps.Map}
		for k, e := range v {
			ev, err := fromGo(e)
			if err != nil {
				return ps.V{}, fmt.Errorf(".%q: %w", k, err)
			}
			out.Keys = append(out.Keys, []byte(k))
			out.L = append(out.L, ev)
		}
		return out, nil
	case graph.Node:
		labels := ps.V{K: ps.List}
		for _, l := range v.Labels {
			labels.L = append(labels.L, ps.StrV(l))
		}
		props, err := mapOrErr(v.Properties)
		if err != nil {
			return ps.V{}, err
		}
		return ps.StructV('N', ps.IntV(v.NodeIdentity), labels, props), nil
	case graph.Relationship:
		props, err := mapOrErr(v.Properties)
		if err != nil {
			return ps.V{}, err
		}
		return ps.StructV('R', ps.IntV(v.RelIdentity), ps.IntV(v.StartNodeIdentity), ps.IntV(v.EndNodeIdentity), ps.StrV(v.Type), props), nil
	case graph.UnboundRelationship:
		props, err := mapOrErr(v.Properties)
		if err != nil {
			return ps.V{}, err
		}
		return ps.StructV('r', ps.IntV(v.RelIdentity), ps.StrV(v.Type), props), nil
	case graph.Path:
		nodes, rels, seq := ps.V{K: ps.List}, ps.V{K: ps.List}, ps.V{K: ps.List}
		for _, n := range v.Nodes {
			e, err := fromGo(n)
			if err != nil {
				return ps.V{}, err
			}
			nodes.L = append(nodes.L, e)
		}
		for _, n := range v.Relationships {
			e, err := fromGo(n)
			if err != nil {
				return ps.V{}, err
			}
			rels.L = append(rels.L, e)
		}
		for _, n := range v.Sequence {
			seq.L = append(seq.L, ps.IntV(int64(n)))
		}
		return ps.StructV('P', nodes, rels, seq), nil
	case types.Point2D:
		return ps.StructV('X', ps.IntV(int64(v.SRID)), ps.V{K: ps.Float, F: math.Float64bits(v.X)}, ps.V{K: ps.Float, F: math.Float64bits(v.Y)}), nil
	case types.Point3D:
		return ps.StructV('Y', ps.IntV(int64(v.SRID)), ps.V{K: ps.Float, F: math.Float64bits(v.X)}, ps.V{K: ps.Float, F: math.Float64bits(v.Y)}, ps.V{K: ps.Float, F: math.Float64bits(v.Z)}), nil
	}
	return ps.V{}, fmt.Errorf("unexpected Go type %v", reflect.TypeOf(x))
}

func mapOrErr(m map[string]interface{}) (ps.V, error) {
	if m == nil {
		return ps.V{}, fmt.Errorf("nil property map")
	}
	return fromGo(m)
}

// same compares a reference value with a decoded Go value.
func same(want ps.V, got interface{}) error {
	g, err := fromGo(got)
	if err != nil {
		return err
	}
	if d := ps.Diff(want, g); d != "" {
		return fmt.Errorf("%s", d)
	}
	return nil
}
