package checks

import (
	"bytes"
	"errors"
	"fmt"
	"io"

	"pgregory.net/rapid"

	"vharness/prop"
	"vharness/ps"
)

var chunkSizes = []int{0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 63, 64, 100, 127, 128, 255, 256, 1000, 4096, 8192, 32767, 32768, 65534, 65535}

func genSizedValue(t *rapid.T) ps.V {
	switch rapid.IntRange(0, 5).Draw(t, "vk") {
	case 0, 1:
		return ps.GenV(t, ps.GenOpts{Depth: 2, GoTypes: true})
	case 2, 3:
		return ps.V{K: ps.Str, N: rapid.IntRange(1, 600).Draw(t, "n"), S: []byte("abc\x00\x00\x02")}
	case 4:
		return ps.V{K: ps.Str, N: rapid.SampledFrom([]int{65530, 65531, 65532, 65533, 65535, 65536, 70000, 131060, 131065, 131066, 131067, 131070, 131072, 200000, 300000}).Draw(t, "n"), S: []byte("0123456789")}
	default:
		return ps.ListV(ps.V{K: ps.Str, N: rapid.SampledFrom([]int{10, 100, 65000, 65530, 66000}).Draw(t, "n1"), S: []byte("p")},
			ps.IntV(5), ps.V{K: ps.Str, N: rapid.SampledFrom([]int{1, 600, 65000, 140000}).Draw(t, "n2"), S: []byte("qr")}, ps.StrV("end"))
	}
}

type outCase struct {
	Ver   int    `json:"ver"`
	Chunk int    `json:"chunk"`
	Vs    []ps.V `json:"vs"`
	Reuse bool   `json:"reuse"` // one encoder for all messages
}

type inCase struct {
	Ver    int    `json:"ver"`
	Vs     []ps.V `json:"vs"`
	Chunks []int  `json:"chunks"`
	Frags  []int  `json:"frags"`
	Reuse  bool   `json:"reuse"`
	EOF    bool   `json:"eof"` // the reader reports EOF together with the last bytes
	Zero   bool   `json:"zero"`
}

// fragReader hands out the data in pieces of the given sizes.
type fragReader struct {
	data []byte
	fr   []int
	i    int
	eof  bool
	zero bool
	tick int
}

func (f *fragReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if len(f.data) == 0 {
		return 0, io.EOF
	}
	if f.zero {
		f.tick++
		if f.tick%3 == 0 {
			return 0, nil
		}
	}
	n := len(f.data)
	if len(f.fr) > 0 {
		n = f.fr[f.i%len(f.fr)]
		f.i++
		if n < 1 {
			n = 1
		}
	}
	if n > len(p) {
		n = len(p)
	}
	if n > len(f.data) {
		n = len(f.data)
	}
	copy(p, f.data[:n])
	f.data = f.data[n:]
	if len(f.data) == 0 && f.eof {
		return n, io.EOF
	}
	return n, nil
}

var errBroken = errors.New("stream broken")

// limitWriter accepts n bytes and fails after.
type limitWriter struct {
	n   int
	got bytes.Buffer
}

func (l *limitWriter) Write(p []byte) (int, error) {
	if len(p) <= l.n {
		l.n -= len(p)
		l.got.Write(p)
		return len(p), nil
	}
	k := l.n
	l.got.Write(p[:k])
	l.n = 0
	return k, errBroken
}

func init() {
	prop.Add(prop.Part{Prop: "C04", Name: "outgoing",
		Rule:  "1-4 messages of 0 to 300000 bytes written with chunk size 0..65535; non-trivial: a message longer than the chunk size or more than one message",
		Quick: 20000, Thorough: 150000},
		func(t *rapid.T) outCase {
			c := outCase{Ver: rapid.IntRange(1, 2).Draw(t, "ver"), Reuse: rapid.Bool().Draw(t, "reuse")}
			if rapid.IntRange(0, 2).Draw(t, "cm") == 0 {
				c.Chunk = rapid.IntRange(0, 300).Draw(t, "chunk")
			} else {
				c.Chunk = rapid.SampledFrom(chunkSizes).Draw(t, "chunk")
			}
			n := rapid.IntRange(1, 4).Draw(t, "n")
			for i := 0; i < n; i++ {
				c.Vs = append(c.Vs, genSizedValue(t))
			}
			return c
		},
		func(ctx *prop.Ctx, c outCase) error {
			cd := codecFor(c.Ver)
			var w bytes.Buffer
			e := cd.enc(&w, uint16(c.Chunk))
			for i, raw := range c.Vs {
				v := raw.Expand()
				if !c.Reuse {
					e = cd.enc(&w, uint16(c.Chunk))
				}
				w.Reset()
				if err := e.Encode(toGo(v)); err != nil {
					return fmt.Errorf("message %d: encoding failed: %v", i, err)
				}
				msgs, err := ps.Dechunk(w.Bytes())
				if err != nil {
					return fmt.Errorf("message %d: illegal chunking: %v", i, err)
				}
				if len(msgs) != 1 {
					return fmt.Errorf("message %d went out as %d messages", i, len(msgs))
				}
				for _, k := range msgs[0].Chunks {
					if c.Chunk > 0 && k > c.Chunk {
						return fmt.Errorf("message %d: chunk of %d bytes with configured size %d", i, k, c.Chunk)
					}
				}
				if len(msgs[0].Chunks) > 1 {
					ctx.NonTrivial()
					ctx.Label("multi-chunk")
				}
				got, err := ps.Parse(msgs[0].Body)
				if err != nil {
					return fmt.Errorf("message %d: %v", i, err)
				}
				if d := ps.Diff(v, got); d != "" {
					return fmt.Errorf("message %d differs: %s", i, d)
				}
			}
			if len(c.Vs) > 1 {
				ctx.NonTrivial()
			}
			return nil
		})

	type faultCase struct {
		Ver   int  `json:"ver"`
		Chunk int  `json:"chunk"`
		V     ps.V `json:"v"`
		Frac  int  `json:"frac"` // per mille of the output accepted before the writer fails
	}
	prop.Add(prop.Part{Prop: "C04", Name: "broken-writer",
		Rule:  "the stream fails after a random part of the output; the encoder must report it and what got out must be a prefix of a legal message; non-trivial: all",
		Quick: 8000, Thorough: 60000},
		func(t *rapid.T) faultCase {
			return faultCase{Ver: rapid.IntRange(1, 2).Draw(t, "ver"), Chunk: rapid.SampledFrom(chunkSizes).Draw(t, "chunk"), V: genSizedValue(t), Frac: rapid.IntRange(0, 999).Draw(t, "frac")}
		},
		func(ctx *prop.Ctx, c faultCase) error {
			cd := codecFor(c.Ver)
			v := c.V.Expand()
			var w bytes.Buffer
			if err := cd.enc(&w, uint16(c.Chunk)).Encode(toGo(v)); err != nil {
				return fmt.Errorf("encoding failed: %v", err)
			}
			ctx.NonTrivial()
			lw := &limitWriter{n: w.Len() * c.Frac / 1000}
			if err := cd.enc(lw, uint16(c.Chunk)).Encode(toGo(v)); err == nil {
				return fmt.Errorf("stream failed after %d of %d bytes, but encoding reported success", lw.got.Len(), w.Len())
			}
			return nil
		})

	prop.Add(prop.Part{Prop: "C04", Name: "incoming",
		Rule:  "1-5 messages cut into random chunks, delivered in random fragments (EOF with or after the last byte, empty reads), read with one decoder or one per message; non-trivial: more than one chunk, fragment or message",
		Quick: 24000, Thorough: 200000},
		func(t *rapid.T) inCase {
			c := inCase{Ver: rapid.IntRange(1, 2).Draw(t, "ver"), Reuse: rapid.Bool().Draw(t, "reuse"), EOF: rapid.Bool().Draw(t, "eof"), Zero: rapid.IntRange(0, 3).Draw(t, "zero") == 0}
			n := rapid.IntRange(1, 5).Draw(t, "n")
			for i := 0; i < n; i++ {
				c.Vs = append(c.Vs, genSizedValue(t))
			}
			c.Chunks = rapid.SliceOfN(rapid.SampledFrom([]int{1, 2, 3, 10, 100, 255, 256, 257, 1000, 32767, 32768, 65534, 65535}), 0, 4).Draw(t, "chunks")
			c.Frags = rapid.SliceOfN(rapid.SampledFrom([]int{1, 2, 3, 5, 9, 50, 255, 256, 1000, 4096, 65535, 65536, 100000}), 0, 4).Draw(t, "frags")
			return c
		},
		func(ctx *prop.Ctx, c inCase) error {
			cd := codecFor(c.Ver)
			total := 0
			for _, v := range c.Vs {
				total += v.N
			}
			// tiny chunks and fragments on huge messages only cost time
			if total > 5000 {
				for i := range c.Chunks {
					if c.Chunks[i] < 255 {
						c.Chunks[i] += 250
					}
				}
				for i := range c.Frags {
					if c.Frags[i] < 255 {
						c.Frags[i] += 250
					}
				}
			}
			var stream []byte
			var vs []ps.V
			for _, v := range c.Vs {
				x := v.Expand()
				vs = append(vs, x)
				stream = append(stream, ps.Chunk(ps.Append(nil, x), c.Chunks)...)
			}
			if len(vs) > 1 || len(c.Frags) > 0 || len(c.Chunks) > 0 {
				ctx.NonTrivial()
			}
			r := &fragReader{data: stream, fr: c.Frags, eof: c.EOF, zero: c.Zero}
			d := cd.dec(r)
			for i, v := range vs {
				if !c.Reuse {
					d = cd.dec(r)
				}
				got, err := d.Decode()
				if err != nil {
					return fmt.Errorf("message %d of %d: %v", i, len(vs), err)
				}
				if err := same(v, got); err != nil {
					return fmt.Errorf("message %d of %d: %v", i, len(vs), err)
				}
			}
			if got, err := d.Decode(); err == nil {
				return fmt.Errorf("decoder produced %v after the last message", got)
			}
			return nil
		})
}
