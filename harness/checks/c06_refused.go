package checks

import (
	"bytes"
	"fmt"
	"math"

	"pgregory.net/rapid"

	"vharness/prop"
	"vharness/ps"
)

// genBad draws a value with something unencodable somewhere inside.
func genBad(t *rapid.T) ps.V { return genBadOf(t, badKinds) }

func genBadOf(t *rapid.T, kinds []string) ps.V {
	if rapid.IntRange(0, 99).Draw(t, "heavy") == 99 {
		kinds = badHeavy
	}
	v := ps.V{K: ps.Bad, G: rapid.SampledFrom(kinds).Draw(t, "bad")}
	depth := rapid.IntRange(0, 4).Draw(t, "depth")
	for i := 0; i < depth; i++ {
		n := rapid.IntRange(0, 3).Draw(t, "sib")
		at := rapid.IntRange(0, n).Draw(t, "at")
		var l []ps.V
		for j := 0; j <= n; j++ {
			if j == at {
				l = append(l, v)
				continue
			}
			o := ps.GenV(t, ps.GenOpts{Depth: 1, GoTypes: true})
			if rapid.IntRange(0, 3).Draw(t, "long") == 0 {
				o = ps.V{K: ps.Str, N: rapid.SampledFrom([]int{100, 5000, 65535, 70000, 140000}).Draw(t, "n"), S: []byte("ab")}
			}
			l = append(l, o)
		}
		switch rapid.IntRange(0, 2).Draw(t, "in") {
		case 0:
			v = ps.V{K: ps.List, L: l}
		case 1:
			v = ps.V{K: ps.Struct, Sig: rapid.Byte().Draw(t, "sig"), L: l}
		default:
			v = ps.V{K: ps.Map, L: l}
			for j := range l {
				v.Keys = append(v.Keys, []byte(fmt.Sprintf("k%d", j)))
			}
		}
	}
	return v
}

type badCase struct {
	Ver   int  `json:"ver"`
	Chunk int  `json:"chunk"`
	Bad   ps.V `json:"bad"`
	Good  ps.V `json:"good"`
	Times int  `json:"times"`
}

func init() {
	prop.Add(prop.Part{Prop: "C06", Name: "encoder",
		Rule:  "an unencodable value at depth 0-4 among siblings of up to 140000 bytes, any chunk size: an error and not one byte written, after which the same encoder writes a good value correctly; non-trivial: nested or preceded by more data than a chunk",
		Quick: 30000, Thorough: 600000},
		func(t *rapid.T) badCase {
			ver, kinds := rapid.IntRange(1, 2).Draw(t, "ver"), badKinds
			if ver == 1 {
				kinds = append(append([]string{}, badKinds...), badV1...)
			}
			return badCase{Ver: ver, Chunk: rapid.SampledFrom(chunkSizes).Draw(t, "chunk"), Bad: genBadOf(t, kinds),
				Good: ps.GenV(t, ps.GenOpts{Depth: 2, GoTypes: true}), Times: rapid.IntRange(1, 3).Draw(t, "times")}
		},
		func(ctx *prop.Ctx, c badCase) error {
			cd := codecFor(c.Ver)
			bad, good := c.Bad.Expand(), c.Good.Expand()
			bad.Walk(func(v ps.V) {
				if v.K == ps.Bad {
					ctx.Label(v.G)
				}
			})
			if len(bad.L) > 0 {
				ctx.NonTrivial()
			}
			var w bytes.Buffer
			e := cd.enc(&w, uint16(c.Chunk))
			for i := 0; i < c.Times; i++ {
				err := e.Encode(toGo(bad))
				if err == nil {
					return fmt.Errorf("a value that cannot be carried was encoded: %s", ps.Show(bad))
				}
				if w.Len() > 0 {
					return fmt.Errorf("encoding failed, but %d bytes were written", w.Len())
				}
			}
			if b, err := cd.marshal(toGo(bad)); err == nil || len(b) > 0 {
				return fmt.Errorf("Marshal of a value that cannot be carried gave %d bytes and error %v", len(b), err)
			}
			if err := e.Encode(toGo(good)); err != nil {
				return fmt.Errorf("the encoder refuses good values after a bad one: %v", err)
			}
			return encoded(good, w.Bytes())
		})

	prop.Add(prop.Part{Prop: "C06", Name: "uint",
		Rule:  "a Go uint above the signed maximum at depth 0-3: refused with nothing written, alone or nested; non-trivial: nested",
		Quick: 2000, Thorough: 20000},
		func(t *rapid.T) uintCase {
			return uintCase{Ver: rapid.IntRange(1, 2).Draw(t, "ver"), U: rapid.Uint64Range(1<<63, math.MaxUint64).Draw(t, "u"),
				Path: rapid.SliceOfN(rapid.IntRange(0, 2), 0, 3).Draw(t, "path"), Chunk: rapid.SampledFrom(chunkSizes).Draw(t, "chunk")}
		},
		func(ctx *prop.Ctx, c uintCase) error {
			var x interface{} = uint(c.U)
			altered := ps.IntV(int64(c.U))
			for _, p := range c.Path {
				ctx.NonTrivial()
				switch p {
				case 0:
					x, altered = []interface{}{int64(1), x}, ps.ListV(ps.IntV(1), altered)
				case 1:
					x, altered = map[string]interface{}{"k": x}, ps.V{K: ps.Map, Keys: [][]byte{[]byte("k")}, L: []ps.V{altered}}
				default:
					x, altered = []interface{}{x, "s"}, ps.ListV(altered, ps.StrV("s"))
				}
			}
			cd := codecFor(c.Ver)
			var w bytes.Buffer
			err := cd.enc(&w, uint16(c.Chunk)).Encode(x)
			if err != nil && w.Len() > 0 {
				return fmt.Errorf("encoding failed, but %d bytes were written", w.Len())
			}
			if err != nil {
				return nil
			}
			if e := encoded(altered, w.Bytes()); e != nil {
				return fmt.Errorf("uint %d was encoded as something else: %v", c.U, e)
			}
			return prop.Known("uint-wrap", "uint %d was encoded as the integer %d", c.U, int64(c.U))
		})
}

type uintCase struct {
	Ver   int    `json:"ver"`
	U     uint64 `json:"u"`
	Path  []int  `json:"path"`
	Chunk int    `json:"chunk"`
}
