package checks

import (
	"bytes"
	"fmt"

	"github.com/mindstand/go-bolt/structures/messages"
	"pgregory.net/rapid"

	"vharness/prop"
	"vharness/ps"
)

// genAnyStruct draws a structure with arbitrary signature and fields (for the encoder).
func genAnyStruct(t *rapid.T, o ps.GenOpts) ps.V {
	v := ps.V{K: ps.Struct, Sig: rapid.Byte().Draw(t, "sig"), L: []ps.V{}}
	if rapid.IntRange(0, 4).Draw(t, "many") == 0 {
		v.N = rapid.SampledFrom([]int{15, 16, 17, 127, 128, 129, 255, 256, 257, 1000, 32767, 32768, 65535}).Draw(t, "n")
		v.L = []ps.V{ps.IntV(7), ps.StrV("f")}
		return v
	}
	n := rapid.IntRange(0, 5).Draw(t, "n")
	for i := 0; i < n; i++ {
		v.L = append(v.L, ps.GenV(t, o))
	}
	return v
}

// encoded checks that b is one chunked message denoting v.
func encoded(v ps.V, b []byte) error {
	msgs, err := ps.Dechunk(b)
	if err != nil {
		return fmt.Errorf("emitted bytes are not legally chunked: %v", err)
	}
	if len(msgs) != 1 {
		return fmt.Errorf("emitted %d messages instead of one", len(msgs))
	}
	got, err := ps.Parse(msgs[0].Body)
	if err != nil {
		return fmt.Errorf("emitted message is not legal PackStream: %v", err)
	}
	if d := ps.Diff(v, got); d != "" {
		return fmt.Errorf("emitted message denotes another value: %s", d)
	}
	return nil
}

type msgCase struct {
	Ver  int  `json:"ver"`
	Kind int  `json:"kind"`
	V    ps.V `json:"v"`
}

type repeatCase struct {
	Ver  int  `json:"ver"`
	Kind int  `json:"kind"`
	Sent ps.V `json:"sent"`
}

// responseStruct is the wire form of a response message of the given kind.
func responseStruct(kind int, v ps.V) ps.V {
	switch kind {
	case 0:
		return ps.StructV(0x70, v)
	case 1:
		return ps.StructV(0x7F, v)
	case 2:
		return ps.StructV(0x71, v)
	default:
		return ps.StructV(0x7E)
	}
}

func genMsgCase(o ps.GenOpts) func(t *rapid.T) msgCase {
	return func(t *rapid.T) msgCase {
		c := msgCase{Ver: rapid.IntRange(1, 2).Draw(t, "ver"), Kind: rapid.IntRange(0, 3).Draw(t, "kind")}
		switch c.Kind {
		case 0, 1:
			c.V = ps.GenMap(t, o)
		case 2:
			c.V = ps.GenList(t, o)
		default:
			c.V = ps.NilV()
		}
		return c
	}
}

// sameMessage compares a decoded response message with its wire form.
func sameMessage(kind int, v ps.V, got interface{}) error {
	switch kind {
	case 0:
		m, ok := got.(messages.SuccessMessage)
		if !ok {
			return fmt.Errorf("success message decoded as %T", got)
		}
		return same(v, m.Metadata)
	case 1:
		m, ok := got.(messages.FailureMessage)
		if !ok {
			return fmt.Errorf("failure message decoded as %T", got)
		}
		return same(v, m.Metadata)
	case 2:
		m, ok := got.(messages.RecordMessage)
		if !ok {
			return fmt.Errorf("record message decoded as %T", got)
		}
		return same(v, m.Fields)
	default:
		if _, ok := got.(messages.IgnoredMessage); !ok {
			return fmt.Errorf("ignored message decoded as %T", got)
		}
		return nil
	}
}

func init() {
	prop.Add(prop.Part{Prop: "C02", Name: "values",
		Rule:  "random values of all supported Go types incl. structures with up to 65535 fields, encoded and read back by the reference parser; non-trivial: as in C01 or a structure",
		Quick: 24000, Thorough: 800000},
		genValueCase(ps.GenOpts{Depth: 4, GoTypes: true, Big: true, Structs: genAnyStruct}),
		func(ctx *prop.Ctx, c valueCase) error {
			cd := codecFor(c.Ver)
			v := c.V.Expand()
			classify(ctx, v)
			if interesting(v) {
				ctx.NonTrivial()
			}
			b, err := cd.marshal(toGo(v))
			if err != nil {
				return fmt.Errorf("encoding a supported value failed: %v", err)
			}
			if err := encoded(v, b); err != nil {
				return err
			}
			var w bytes.Buffer
			if err := cd.enc(&w, 65535).Encode(toGo(v)); err != nil {
				return fmt.Errorf("encoding to a stream failed: %v", err)
			}
			if err := encoded(v, w.Bytes()); err != nil {
				return err
			}
			return unwritten(cd, v, b)
		})

	prop.Add(prop.Part{Prop: "C02", Name: "structures",
		Rule:  "top-level structures with random signature, 0-65535 fields; non-trivial: all",
		Quick: 4000, Thorough: 100000},
		func(t *rapid.T) valueCase {
			return valueCase{Ver: rapid.IntRange(1, 2).Draw(t, "ver"), V: genAnyStruct(t, ps.GenOpts{Depth: 2, GoTypes: true})}
		},
		func(ctx *prop.Ctx, c valueCase) error {
			v := c.V.Expand()
			classify(ctx, v)
			ctx.NonTrivial()
			b, err := codecFor(c.Ver).marshal(toGo(v))
			if err != nil {
				return fmt.Errorf("encoding a structure failed: %v", err)
			}
			return encoded(v, b)
		})

	prop.Add(prop.Part{Prop: "C02", Name: "messages",
		Rule:  "response message values with random metadata/fields are encoded and read by the reference parser; non-trivial: non-empty content",
		Quick: 4000, Thorough: 100000},
		genMsgCase(ps.GenOpts{Depth: 3, GoTypes: true}),
		func(ctx *prop.Ctx, c msgCase) error {
			v := c.V.Expand()
			if len(v.L) > 0 {
				ctx.NonTrivial()
			}
			var m interface{}
			switch c.Kind {
			case 0:
				m = messages.NewSuccessMessage(toGoMap(v))
			case 1:
				m = messages.NewFailureMessage(toGoMap(v))
			case 2:
				fs := make([]interface{}, len(v.L))
				for i := range v.L {
					fs[i] = toGo(v.L[i])
				}
				m = messages.NewRecordMessage(fs)
			default:
				m = messages.NewIgnoredMessage()
			}
			b, err := codecFor(c.Ver).marshal(m)
			if err != nil {
				return fmt.Errorf("encoding a message failed: %v", err)
			}
			return encoded(responseStruct(c.Kind, v), b)
		})

	prop.Add(prop.Part{Prop: "C03", Name: "values",
		Rule:  "random values in random legal encodings (non-minimal integers, sizes and structure headers), chunked at random; non-trivial: as in C01, or a non-minimal form",
		Quick: 24000, Thorough: 800000},
		genValueCase(ps.GenOpts{Depth: 4, Wide: true, Big: true, Structs: genGraph}),
		func(ctx *prop.Ctx, c valueCase) error {
			v := c.V.Expand()
			classify(ctx, v)
			w := false
			v.Walk(func(x ps.V) {
				if x.W != 0 {
					w = true
					ctx.Label(fmt.Sprintf("wide-%s-%d", x.K, x.W))
				}
			})
			if interesting(v) || w {
				ctx.NonTrivial()
			}
			got, err := codecFor(c.Ver).unmarshal(ps.Chunk(ps.Append(nil, v), nil))
			if err != nil {
				return fmt.Errorf("legal encoding refused: %v", err)
			}
			if err := same(v, got); err != nil {
				return err
			}
			return undisturbed(codecFor(c.Ver), v, func() error { return same(v, got) })
		})

	prop.Add(prop.Part{Prop: "C03", Name: "repeats",
		Rule:  "maps some of whose keys are sent more than once, with other values, alone, nested, in records and as metadata, in random legal encodings; non-trivial: a key sent twice",
		Quick: 6000, Thorough: 150000},
		func(t *rapid.T) repeatCase {
			o := ps.GenOpts{Depth: 2, Wide: true}
			c := repeatCase{Ver: rapid.IntRange(1, 2).Draw(t, "ver"), Kind: rapid.IntRange(0, 4).Draw(t, "kind")}
			c.Sent = ps.V{K: ps.Map, W: rapid.SampledFrom([]int{0, 8, 16, 32}).Draw(t, "w")}
			keys := []string{"", "a", "b", "code", "é"}
			for i := rapid.IntRange(1, 20).Draw(t, "n"); i > 0; i-- {
				c.Sent.Keys = append(c.Sent.Keys, []byte(rapid.SampledFrom(keys).Draw(t, "key")))
				c.Sent.L = append(c.Sent.L, ps.GenV(t, o))
			}
			return c
		},
		func(ctx *prop.Ctx, c repeatCase) error {
			sent := c.Sent.Expand()
			want := ps.V{K: ps.Map}
			at := map[string]int{}
			for i, k := range sent.Keys {
				if j, ok := at[string(k)]; ok {
					want.L[j] = sent.L[i]
					ctx.NonTrivial()
					continue
				}
				at[string(k)] = len(want.L)
				want.Keys, want.L = append(want.Keys, k), append(want.L, sent.L[i])
			}
			wrap := func(v ps.V) ps.V {
				switch c.Kind {
				case 1:
					return ps.ListV(v, v)
				case 2:
					return ps.MapV("in", v)
				}
				return v
			}
			b := ps.Append(nil, wrap(sent))
			if c.Kind >= 3 {
				b = ps.Append(nil, responseStruct(c.Kind-3, sent))
			}
			got, err := codecFor(c.Ver).unmarshal(ps.Chunk(b, nil))
			if err != nil {
				return fmt.Errorf("a map with repeated keys was refused: %v", err)
			}
			if c.Kind >= 3 {
				return sameMessage(c.Kind-3, want, got)
			}
			return same(wrap(want), got)
		})

	prop.Add(prop.Part{Prop: "C03", Name: "messages",
		Rule:  "success, failure, record and ignored messages in random legal encodings; non-trivial: non-empty content",
		Quick: 8000, Thorough: 200000},
		genMsgCase(ps.GenOpts{Depth: 3, Wide: true, Big: true}),
		func(ctx *prop.Ctx, c msgCase) error {
			v := c.V.Expand()
			ctx.Label(fmt.Sprintf("kind%d", c.Kind))
			if len(v.L) > 0 {
				ctx.NonTrivial()
			}
			st := responseStruct(c.Kind, v)
			if c.Kind != 3 {
				st.W = []int{0, 8, 16}[len(v.L)%3]
			}
			got, err := codecFor(c.Ver).unmarshal(ps.Chunk(ps.Append(nil, st), nil))
			if err != nil {
				return fmt.Errorf("legal message refused: %v", err)
			}
			if err := sameMessage(c.Kind, v, got); err != nil {
				return err
			}
			return undisturbed(codecFor(c.Ver), st, func() error { return sameMessage(c.Kind, v, got) })
		})
}
