package checks

import (
	"bytes"
	"fmt"
	"runtime"

	"pgregory.net/rapid"

	"vharness/prop"
	"vharness/ps"
)

// allocated runs f and reports the bytes it allocated.
func allocated(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

// judge decodes body (one message) and compares with the model.
func judge(ver int, body []byte, chunks []int) error {
	stream := ps.Chunk(body, chunks)
	var got interface{}
	var err error
	used := allocated(func() { got, err = codecFor(ver).unmarshal(stream) })
	if limit := uint64(1<<20 + 600*len(stream)); used > limit {
		return fmt.Errorf("decoding %d bytes allocated %d bytes", len(stream), used)
	}
	ref, _, perr := ps.ParsePrefix(body)
	if perr != nil {
		if err == nil {
			return fmt.Errorf("malformed message (%v) decoded as %T %.200v", perr, got, got)
		}
		return nil
	}
	verdict, why := typed(ver, ref)
	switch verdict {
	case wireBad:
		if err == nil {
			return fmt.Errorf("malformed message (%s) decoded as %T %.200v", why, got, got)
		}
	case wireOK:
		if err != nil {
			return fmt.Errorf("legal message %s refused: %v", ps.Show(ref), err)
		}
		if e := sameLoose(ref, got); e != nil {
			return fmt.Errorf("message decoded as another value: %v", e)
		}
	case wireOpaque:
		if err == nil {
			if e := sameLoose(ref, got); e != nil {
				return fmt.Errorf("message decoded as another value: %v", e)
			}
		}
	}
	return nil
}

type bytesCase struct {
	Ver    int    `json:"ver"`
	B      []byte `json:"b"`
	Chunks []int  `json:"chunks,omitempty"`
}

var markers = []byte{0xC0, 0xC1, 0xC2, 0xC3, 0xC8, 0xC9, 0xCA, 0xCB, 0xD0, 0xD1, 0xD2, 0xD4, 0xD5, 0xD6, 0xD8, 0xD9, 0xDA, 0xDC, 0xDD, 0xB0, 0xB1, 0xB2, 0xB3, 0xB4, 0xB5, 0x4E, 0x52, 0x50, 0x72, 0x58, 0x59, 0x44, 0x54, 0x74, 0x46, 0x66, 0x64, 0x45, 0x70, 0x71, 0x7E, 0x7F, 0x80, 0x81, 0x8F, 0x90, 0x91, 0x93, 0xA0, 0xA1, 0xA2, 0x00, 0x01, 0x7F, 0x80, 0xFF, 0xF0, 0xEF, 0xC4, 0xDE, 0xCC}

func genByte(t *rapid.T) byte {
	if rapid.Bool().Draw(t, "m") {
		return rapid.SampledFrom(markers).Draw(t, "marker")
	}
	return rapid.Byte().Draw(t, "byte")
}

// genMessageValue draws something a server could send, before it is damaged.
func genMessageValue(t *rapid.T, ver int, wide bool) ps.V {
	o := ps.GenOpts{Depth: 3, Wide: wide, Structs: genAnyWire(ver)}
	switch rapid.IntRange(0, 4).Draw(t, "what") {
	case 0:
		return ps.StructV(0x70, ps.GenMap(t, o))
	case 1:
		return ps.StructV(0x71, ps.GenList(t, o))
	case 2:
		return ps.StructV(0x7F, ps.GenMap(t, o))
	case 3:
		return genAnyWire(ver)(t, o)
	default:
		return ps.GenV(t, o)
	}
}

func genDamaged(t *rapid.T) bytesCase {
	c := bytesCase{Ver: rapid.IntRange(1, 2).Draw(t, "ver")}
	if rapid.IntRange(0, 3).Draw(t, "pure") == 0 {
		n := rapid.IntRange(0, 40).Draw(t, "n")
		for i := 0; i < n; i++ {
			c.B = append(c.B, genByte(t))
		}
	} else {
		c.B = ps.Encode(genMessageValue(t, c.Ver, rapid.Bool().Draw(t, "wide")))
		n := rapid.IntRange(1, 4).Draw(t, "muts")
		for i := 0; i < n && len(c.B) > 0; i++ {
			at := rapid.IntRange(0, len(c.B)-1).Draw(t, "at")
			switch rapid.IntRange(0, 5).Draw(t, "mut") {
			case 0:
				c.B[at] = genByte(t)
			case 1:
				c.B[at] += byte(rapid.SampledFrom([]int{1, 255, 16, 128}).Draw(t, "add"))
			case 2:
				c.B = append(c.B[:at], c.B[at+1:]...)
			case 3:
				c.B = append(c.B[:at], append([]byte{genByte(t)}, c.B[at:]...)...)
			case 4:
				c.B = c.B[:at]
			case 5: // repeat a stretch
				end := at + rapid.IntRange(1, 10).Draw(t, "len")
				if end > len(c.B) {
					end = len(c.B)
				}
				c.B = append(append(append([]byte{}, c.B[:end]...), c.B[at:end]...), c.B[end:]...)
			}
		}
	}
	if len(c.B) > 3000 {
		c.B = c.B[:3000]
	}
	if rapid.IntRange(0, 2).Draw(t, "chunked") == 0 {
		c.Chunks = []int{rapid.IntRange(1, 50).Draw(t, "chunk")}
	}
	return c
}

func init() {
	prop.Add(prop.Part{Prop: "C05", Name: "bytes",
		Rule:  "arbitrary bytes and server messages damaged by 1-4 mutations, decoded as one message and compared with the reference model: malformed must be an error, well-formed exactly the denoted value, allocation bounded; non-trivial: at least 3 bytes",
		Quick: 30000, Thorough: 1500000, MemLimit: 12 << 30},
		genDamaged,
		func(ctx *prop.Ctx, c bytesCase) error {
			if len(c.B) >= 3 {
				ctx.NonTrivial()
			}
			if v, _, err := ps.ParsePrefix(c.B); err != nil {
				ctx.Label("malformed")
			} else if k, _ := typed(c.Ver, v); k == wireBad {
				ctx.Label("badly typed")
			} else {
				ctx.Label("well-formed")
			}
			return judge(c.Ver, c.B, c.Chunks)
		})

	// The same bytes straight to the transport: framing itself is damaged.
	prop.Add(prop.Part{Prop: "C05", Name: "stream",
		Rule:  "arbitrary bytes as raw transport input, decoded repeatedly until an error: every message returned must be one the reference framing and model also see, and the end of input is an error; non-trivial: at least 3 bytes",
		Quick: 12000, Thorough: 400000, MemLimit: 12 << 30},
		func(t *rapid.T) bytesCase {
			c := genDamaged(t)
			if rapid.Bool().Draw(t, "frame") {
				var out []byte
				pat := c.Chunks
				if pat == nil {
					pat = []int{rapid.IntRange(1, 300).Draw(t, "ch")}
				}
				for i, n := 0, rapid.IntRange(1, 3).Draw(t, "msgs"); i < n; i++ {
					out = append(out, ps.Chunk(c.B, pat)...)
				}
				if len(out) > 0 {
					for i, n := 0, rapid.IntRange(0, 2).Draw(t, "hits"); i < n; i++ {
						out[rapid.IntRange(0, len(out)-1).Draw(t, "at")] = genByte(t)
					}
					out = out[:rapid.IntRange(0, len(out)).Draw(t, "cut")]
				}
				c.B = out
			}
			return c
		},
		func(ctx *prop.Ctx, c bytesCase) error {
			if len(c.B) >= 3 {
				ctx.NonTrivial()
			}
			msgs, _ := ps.Dechunk(c.B)
			d := codecFor(c.Ver).dec(bytes.NewReader(c.B))
			for i := 0; ; i++ {
				var got interface{}
				var err error
				used := allocated(func() { got, err = d.Decode() })
				if used > uint64(1<<20+600*len(c.B)) {
					return fmt.Errorf("decoding from %d bytes allocated %d bytes", len(c.B), used)
				}
				if i >= len(msgs) {
					if err == nil {
						return fmt.Errorf("message %d decoded as %T %.200v although the stream has only %d complete messages", i, got, got, len(msgs))
					}
					ctx.Label(fmt.Sprintf("messages-%d", min(i, 3)))
					return nil
				}
				ref, _, perr := ps.ParsePrefix(msgs[i].Body)
				if perr != nil {
					if err == nil {
						return fmt.Errorf("message %d is malformed (%v) but decoded as %T %.200v", i, perr, got, got)
					}
					continue
				}
				if k, why := typed(c.Ver, ref); k == wireBad && err == nil {
					return fmt.Errorf("message %d is malformed (%v) but decoded as %T %.200v", i, why, got, got)
				} else if k == wireOK && err != nil {
					return fmt.Errorf("message %d is legal but refused: %v", i, err)
				}
				if k, _ := typed(c.Ver, ref); err == nil && k != wireLoose {
					if e := sameLoose(ref, got); e != nil {
						return fmt.Errorf("message %d decoded as another value: %v", i, e)
					}
				}
			}
		})

	type truncCase struct {
		Ver    int   `json:"ver"`
		V      ps.V  `json:"v"`
		Chunks []int `json:"chunks,omitempty"`
	}
	prop.Add(prop.Part{Prop: "C05", Name: "truncated",
		Rule:  "a well-formed message cut after every byte (at most 200 positions each), both inside a complete frame and as a broken-off stream: always an error; non-trivial: at least 3 bytes",
		Quick: 3000, Thorough: 150000, MemLimit: 12 << 30},
		func(t *rapid.T) truncCase {
			c := truncCase{Ver: rapid.IntRange(1, 2).Draw(t, "ver")}
			c.V = genMessageValue(t, c.Ver, rapid.Bool().Draw(t, "wide"))
			if rapid.Bool().Draw(t, "ch") {
				c.Chunks = rapid.SliceOfN(rapid.IntRange(1, 60), 1, 3).Draw(t, "chunks")
			}
			return c
		},
		func(ctx *prop.Ctx, c truncCase) error {
			body := ps.Encode(c.V)
			if len(body) >= 3 {
				ctx.NonTrivial()
			}
			cd := codecFor(c.Ver)
			step := 1 + len(body)/200
			for k := 0; k < len(body); k += step {
				if got, err := cd.unmarshal(ps.Chunk(body[:k], c.Chunks)); err == nil {
					return fmt.Errorf("message of %d bytes cut to %d decoded as %T %.200v", len(body), k, got, got)
				}
			}
			stream := ps.Chunk(body, c.Chunks)
			step = 1 + len(stream)/200
			for k := 0; k < len(stream); k += step {
				if got, err := cd.unmarshal(stream[:k]); err == nil {
					return fmt.Errorf("stream of %d bytes broken off after %d decoded as %T %.200v", len(stream), k, got, got)
				}
			}
			return nil
		})

	type sizeCase struct {
		Ver  int    `json:"ver"`
		Kind string `json:"kind"`
		W    int    `json:"w"`    // bits of the size
		N    uint32 `json:"n"`    // declared size
		Have int    `json:"have"` // bytes that follow
		Wrap int    `json:"wrap"`
		Fill byte   `json:"fill"`
	}
	prop.Add(prop.Part{Prop: "C05", Name: "sizes",
		Rule:  "a string, list, map or structure declaring far more content than follows, possibly nested: an error, with memory bounded by the input; non-trivial: declared size above 1000",
		Quick: 6000, Thorough: 150000, MemLimit: 12 << 30},
		func(t *rapid.T) sizeCase {
			c := sizeCase{Ver: rapid.IntRange(1, 2).Draw(t, "ver"), Kind: rapid.SampledFrom([]string{ps.Str, ps.List, ps.Map, ps.Struct}).Draw(t, "kind"),
				W: rapid.SampledFrom([]int{8, 16, 32, 32}).Draw(t, "w"), Have: rapid.SampledFrom([]int{0, 1, 2, 5, 50, 1000, 65534, 70000}).Draw(t, "have"),
				Wrap: rapid.IntRange(0, 3).Draw(t, "wrap"), Fill: genByte(t)}
			if c.Kind == ps.Struct && c.W == 32 {
				c.W = 16
			}
			if rapid.Bool().Draw(t, "edge") {
				c.N = rapid.SampledFrom([]uint32{127, 128, 255, 32767, 32768, 65535, 1 << 24, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 1, 1<<32 - 2}).Draw(t, "n")
			} else {
				c.N = rapid.Uint32().Draw(t, "n")
			}
			return c
		},
		func(ctx *prop.Ctx, c sizeCase) error {
			var b []byte
			for i := 0; i < c.Wrap; i++ {
				switch i % 3 {
				case 0:
					b = append(b, 0x91)
				case 1:
					b = append(b, 0xA1, 0x81, 'k')
				default:
					b = append(b, 0xB1, 0x70)
				}
			}
			base := map[string]byte{ps.Str: 0xD0, ps.List: 0xD4, ps.Map: 0xD8, ps.Struct: 0xDC}[c.Kind]
			n := c.N
			switch c.W {
			case 8:
				b = append(b, base, byte(n))
			case 16:
				b = append(b, base+1, byte(n>>8), byte(n))
			default:
				b = append(b, base+2, byte(n>>24), byte(n>>16), byte(n>>8), byte(n))
			}
			if c.Kind == ps.Struct {
				b = append(b, []byte{0x4E, 0x71, 0x50}[n%3])
			}
			if n > 1000 {
				ctx.NonTrivial()
			}
			b = append(b, bytes.Repeat([]byte{c.Fill}, c.Have)...)
			return judge(c.Ver, b, nil)
		})

	type deepCase struct {
		Ver  int    `json:"ver"`
		Unit string `json:"unit"`
		N    int    `json:"n"`
		End  bool   `json:"end"`
	}
	units := map[string][]byte{"list": {0x91}, "list8": {0xD4, 1}, "map": {0xA1, 0x80}, "success": {0xB1, 0x70}, "record": {0xB1, 0x71, 0x91}, "node": {0xB3, 0x4E, 1, 0x90, 0xA1, 0x80}, "mixed": {0x91, 0xA1, 0x81, 'k', 0x92, 1}, "mapkey": {0xA1}, "path": {0xB3, 0x50, 0x91}}
	prop.Add(prop.Part{Prop: "C05", Name: "deep",
		Rule:  "lists, maps, structures and mixtures nested 1 to 10 million deep: terminates without exhausting the stack, and up to 1000 deep the value is decoded exactly; non-trivial: deeper than 100",
		Quick: 160, Thorough: 2500, Shards: 4, HangSec: 200, MemLimit: 14 << 30},
		func(t *rapid.T) deepCase {
			c := deepCase{Ver: rapid.IntRange(1, 2).Draw(t, "ver"), End: rapid.Bool().Draw(t, "end"),
				Unit: rapid.SampledFrom([]string{"list", "list", "list8", "map", "success", "record", "node", "mixed", "mapkey", "path"}).Draw(t, "unit")}
			switch rapid.IntRange(0, 3).Draw(t, "scale") {
			case 0:
				c.N = rapid.IntRange(1, 1000).Draw(t, "n")
			case 1:
				c.N = rapid.SampledFrom([]int{900, 1000, 2000, 5000, 9999, 10000, 10001, 100000}).Draw(t, "n")
			default:
				c.N = rapid.SampledFrom([]int{1000000, 3000000, 10000000}).Draw(t, "n")
			}
			return c
		},
		func(ctx *prop.Ctx, c deepCase) error {
			if c.N > 100 {
				ctx.NonTrivial()
			}
			ctx.Label(fmt.Sprintf("depth<=%d", pow10(c.N)))
			u := units[c.Unit]
			b := make([]byte, 0, c.N*len(u)+16)
			for i := 0; i < c.N; i++ {
				b = append(b, u...)
			}
			levels := c.N
			switch c.Unit {
			case "mixed":
				levels = 3 * c.N
			case "record", "node":
				levels = 2 * c.N
			}
			if c.End {
				switch c.Unit {
				case "mapkey", "path":
				case "success", "node", "map", "list", "list8", "mixed":
					end := byte(0xC0)
					if c.Unit == "success" {
						end = 0xA0
					}
					b = append(b, end)
				case "record":
					b = append(b, 1)
				}
			}
			if levels <= 1000 {
				return judge(c.Ver, b, nil)
			}
			stream := ps.Chunk(b, nil)
			var err error
			var got interface{}
			used := allocated(func() { got, err = codecFor(c.Ver).unmarshal(stream) })
			if used > uint64(8<<20+600*len(stream)) {
				return fmt.Errorf("decoding %d bytes allocated %d bytes", len(stream), used)
			}
			if err == nil && !c.End {
				return fmt.Errorf("unterminated nesting decoded as %T", got)
			}
			return nil
		})

	type typeCase struct {
		Ver  int    `json:"ver"`
		V    ps.V   `json:"v"`
		At   int    `json:"at"`   // field replaced
		By   ps.V   `json:"by"`   // replacement
		Mode string `json:"mode"` // replace, drop, add, inner
		Wrap int    `json:"wrap"`
	}
	prop.Add(prop.Part{Prop: "C05", Name: "types",
		Rule:  "every structure and response message with one field replaced by a value of another type, dropped or added, or an element of a typed list replaced, at some nesting: an error unless the result is still well-formed; non-trivial: result malformed",
		Quick: 12000, Thorough: 300000},
		func(t *rapid.T) typeCase {
			c := typeCase{Ver: rapid.IntRange(1, 2).Draw(t, "ver"), Mode: rapid.SampledFrom([]string{"replace", "replace", "drop", "add", "inner"}).Draw(t, "mode"), Wrap: rapid.IntRange(0, 2).Draw(t, "wrap")}
			o := ps.GenOpts{Depth: 1}
			switch rapid.IntRange(0, 4).Draw(t, "what") {
			case 0:
				c.V = responseStruct(rapid.IntRange(0, 2).Draw(t, "kind"), ps.MapV())
				if c.V.Sig == 0x71 {
					c.V.L[0] = ps.ListV(ps.IntV(1))
				}
			default:
				c.V = genAnyWire(c.Ver)(t, o)
			}
			if len(c.V.L) > 0 {
				c.At = rapid.IntRange(0, len(c.V.L)-1).Draw(t, "at")
			}
			switch rapid.IntRange(0, 2).Draw(t, "by") {
			case 0:
				c.By = rapid.SampledFrom([]ps.V{ps.NilV(), ps.BoolV(true), ps.IntV(3), ps.FloatV(1.5), ps.StrV("x"), ps.ListV(), ps.MapV(), ps.ListV(ps.NilV()), ps.StructV('N', ps.IntV(1), ps.ListV(), ps.MapV()), ps.StructV(0x70, ps.MapV())}).Draw(t, "simple")
			case 1:
				c.By = ps.GenScalar(t, o)
			default:
				c.By = genAnyWire(c.Ver)(t, o)
			}
			return c
		},
		func(ctx *prop.Ctx, c typeCase) error {
			v := c.V.Expand()
			by := c.By.Expand()
			switch c.Mode {
			case "replace":
				if len(v.L) > 0 {
					v.L[c.At] = by
				}
			case "drop":
				if len(v.L) > 0 {
					v.L = append(v.L[:c.At], v.L[c.At+1:]...)
				}
			case "add":
				v.L = append(v.L, by)
			case "inner":
				if len(v.L) > 0 && len(v.L[c.At].L) > 0 && v.L[c.At].K == ps.List {
					in := v.L[c.At].L
					in[len(in)/2] = by
				}
			}
			for i := 0; i < c.Wrap; i++ {
				if i == 0 {
					v = ps.StructV(0x71, ps.ListV(ps.IntV(9), v))
				} else {
					v = ps.MapV("k", v, "l", ps.IntV(1))
				}
			}
			if k, _ := typed(c.Ver, v); k == wireBad {
				ctx.NonTrivial()
				ctx.Label("bad-" + c.Mode)
			}
			return judge(c.Ver, ps.Encode(v), nil)
		})
}

func pow10(n int) int {
	p := 1
	for p < n {
		p *= 10
	}
	return p
}
