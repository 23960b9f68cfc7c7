package checks

import (
	"fmt"

	"pgregory.net/rapid"

	"vharness/prop"
	"vharness/ps"
)

type valueCase struct {
	Ver int  `json:"ver"`
	V   ps.V `json:"v"`
}

func genValueCase(o ps.GenOpts) func(t *rapid.T) valueCase {
	return func(t *rapid.T) valueCase {
		return valueCase{Ver: rapid.IntRange(1, 2).Draw(t, "ver"), V: ps.GenV(t, o)}
	}
}

// classify labels the sizes and kinds met in a value.
func classify(ctx *prop.Ctx, v ps.V) {
	size := func(k string, n int) {
		switch {
		case n > 65535:
			ctx.Label(k + ">65535")
		case n > 32767:
			ctx.Label(k + ">32767")
		case n > 255:
			ctx.Label(k + ">255")
		case n > 127:
			ctx.Label(k + ">127")
		case n > 15:
			ctx.Label(k + ">15")
		default:
			ctx.Label(k)
		}
	}
	n := 0
	v.Walk(func(x ps.V) {
		if n++; n > 200 {
			return
		}
		switch x.K {
		case ps.Str:
			size("str", len(x.S))
		case ps.List:
			size("list", len(x.L))
		case ps.Map:
			size("map", len(x.L))
		case ps.Struct:
			size("struct", len(x.L))
		default:
			ctx.Label(x.K)
		}
	})
}

func interesting(v ps.V) bool {
	if v.Size() > 1 {
		return true
	}
	switch v.K {
	case ps.Int:
		return v.I < -16 || v.I > 127
	case ps.Str:
		return len(v.S) > 15
	case ps.Float:
		return true
	}
	return false
}

func init() {
	prop.Add(prop.Part{Prop: "C01", Name: "roundtrip",
		Rule:  "random values (nesting <=4, sizes from the boundary set up to 140000) of every supported Go type, both encoding versions; non-trivial: a container, a float, a string longer than 15 bytes or an integer outside the one-byte range",
		Quick: 24000, Thorough: 800000},
		genValueCase(ps.GenOpts{Depth: 4, GoTypes: true, Big: true}),
		func(ctx *prop.Ctx, c valueCase) error {
			cd := codecFor(c.Ver)
			v := c.V.Expand()
			classify(ctx, v)
			if interesting(v) {
				ctx.NonTrivial()
			}
			b, err := cd.marshal(toGo(v))
			if err != nil {
				return fmt.Errorf("encoding a supported value failed: %v", err)
			}
			got, err := cd.unmarshal(b)
			if err != nil {
				return fmt.Errorf("decoding the driver's own encoding failed: %v", err)
			}
			if err := same(v, got); err != nil {
				return fmt.Errorf("value changed in the round trip: %v", err)
			}
			if err := unwritten(cd, v, b); err != nil {
				return err
			}
			return undisturbed(cd, v, func() error { return same(v, got) })
		})

	// Big values under every alternative of container size: a directed part so
	// that each size class appears in every run.
	type sizeCase struct {
		Ver  int    `json:"ver"`
		Kind string `json:"kind"`
		N    int    `json:"n"`
		Wrap int    `json:"wrap"`
	}
	prop.Add(prop.Part{Prop: "C01", Name: "sizes",
		Rule:  "strings, lists and maps of sizes around each power-of-two boundary, wrapped in 0-3 outer containers with a trailing sentinel; non-trivial: size above 15",
		Quick: 1600, Thorough: 30000},
		func(t *rapid.T) sizeCase {
			base := rapid.SampledFrom([]int{16, 128, 256, 32768, 65536, 131072}).Draw(t, "base")
			return sizeCase{
				Ver:  rapid.IntRange(1, 2).Draw(t, "ver"),
				Kind: rapid.SampledFrom([]string{ps.Str, ps.List, ps.Map}).Draw(t, "kind"),
				N:    base + rapid.IntRange(-3, 3).Draw(t, "d"),
				Wrap: rapid.IntRange(0, 3).Draw(t, "wrap"),
			}
		},
		func(ctx *prop.Ctx, c sizeCase) error {
			cd := codecFor(c.Ver)
			v := ps.V{K: c.Kind, N: c.N, S: []byte("s\x00t")}
			for i := 0; i < c.Wrap; i++ {
				v = ps.ListV(ps.IntV(int64(i)), v, ps.StrV("end"))
			}
			v = v.Expand()
			if c.N > 15 {
				ctx.NonTrivial()
			}
			classify(ctx, v)
			b, err := cd.marshal(toGo(v))
			if err != nil {
				return fmt.Errorf("encoding a supported value failed: %v", err)
			}
			got, err := cd.unmarshal(b)
			if err != nil {
				return fmt.Errorf("decoding the driver's own encoding failed: %v", err)
			}
			if err := same(v, got); err != nil {
				return fmt.Errorf("value changed in the round trip: %v", err)
			}
			if err := unwritten(cd, v, b); err != nil {
				return err
			}
			return undisturbed(cd, v, func() error { return same(v, got) })
		})
}
