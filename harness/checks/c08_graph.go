package checks

import (
	"fmt"
	"os"

	"github.com/mindstand/go-bolt/structures/graph"
	"github.com/mindstand/go-bolt/structures/messages"
	"github.com/mindstand/go-bolt/structures/types"
	"pgregory.net/rapid"

	"vharness/prop"
	"vharness/ps"
)

func envOrNone(k string) string { return " " + os.Getenv(k) }

func recordFields(x interface{}) ([]interface{}, bool) {
	m, ok := x.(messages.RecordMessage)
	return m.Fields, ok
}

type graphCase struct {
	Ver  int   `json:"ver"`
	V    ps.V  `json:"v"`
	Wrap int   `json:"wrap"`
	Ch   []int `json:"ch,omitempty"`
}

func wrapV(v ps.V, n int) ps.V {
	switch n {
	case 1:
		return ps.StructV(0x71, ps.ListV(ps.IntV(1), v, ps.StrV("end")))
	case 2:
		return ps.MapV("a", ps.ListV(v, v), "z", ps.IntV(2))
	case 3:
		return ps.StructV('N', ps.IntV(-5), ps.ListV(ps.StrV("L")), ps.MapV("p", v, "q", ps.ListV(ps.StrV("x"), v)))
	}
	return v
}

func init() {
	prop.Add(prop.Part{Prop: "C08", Name: "structures",
		Rule:  "nodes, relationships, unbound relationships, paths (both encoding versions) and points (version 2) with random fields in random legal encodings, nested in records, maps and properties: decoded field by field, then encoded again and read by the reference parser; non-trivial: non-empty properties, labels or path, or nested",
		Quick: 60000, Thorough: 500000},
		func(t *rapid.T) graphCase {
			c := graphCase{Ver: rapid.IntRange(1, 2).Draw(t, "ver"), Wrap: rapid.IntRange(0, 3).Draw(t, "wrap")}
			o := ps.GenOpts{Depth: 3, Wide: true}
			if c.Ver == 2 && rapid.IntRange(0, 2).Draw(t, "pt") == 0 {
				c.V = genPoint(t, o)
			} else {
				c.V = genGraph(t, o)
			}
			return c
		},
		func(ctx *prop.Ctx, c graphCase) error {
			v := wrapV(c.V.Expand(), c.Wrap)
			ctx.Label(fmt.Sprintf("v%d-%c", c.Ver, c.V.Sig))
			if c.Wrap > 0 || v.Size() > 6 {
				ctx.NonTrivial()
			}
			cd := codecFor(c.Ver)
			got, err := cd.unmarshal(ps.Chunk(ps.Append(nil, v), c.Ch))
			if err != nil {
				return fmt.Errorf("decoding a well-formed structure failed: %v", err)
			}
			if c.Wrap == 1 {
				f, ok := recordFields(got)
				if !ok {
					return fmt.Errorf("record decoded as %T", got)
				}
				got, v = f, v.L[0]
			}
			if err := same(v, got); err != nil {
				return fmt.Errorf("decoded differently: %v", err)
			}
			if err := undisturbed(cd, v, func() error { return same(v, got) }); err != nil {
				return err
			}
			b, err := cd.marshal(got)
			if err != nil {
				return fmt.Errorf("a value as received cannot be encoded again: %v", err)
			}
			if err := encoded(v, b); err != nil {
				return fmt.Errorf("encoded again: %v", err)
			}
			if c.Wrap == 0 { // also as pointers, where the type is a structure
				var p interface{}
				switch g := got.(type) {
				case graph.Node:
					p = &g
				case types.Point2D:
					p = &g
				case types.Point3D:
					p = &g
				}
				if p != nil {
					b, err := cd.marshal([]interface{}{p, "end"})
					if err != nil {
						return fmt.Errorf("a pointer to a value as received cannot be encoded: %v", err)
					}
					if err := encoded(ps.ListV(v, ps.StrV("end")), b); err != nil {
						return fmt.Errorf("encoded through a pointer: %v", err)
					}
				}
			}
			return nil
		})
}
