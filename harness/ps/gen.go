package ps

import (
	"fmt"
	"math"

	"pgregory.net/rapid"
)

// GenOpts steers value generation.
type GenOpts struct {
	Depth   int  // maximum nesting
	GoTypes bool // choose Go types for integers, floats and slices
	Wide    bool // choose non-minimal encodings
	Big     bool // allow sizes up to beyond 65535
	Structs func(t *rapid.T, o GenOpts) V
}

var boundarySizes = []int{0, 1, 14, 15, 16, 17, 31, 32, 126, 127, 128, 129, 200, 254, 255, 256, 257, 300}
var bigSizes = []int{1000, 16383, 16384, 32766, 32767, 32768, 32769, 40000, 65534, 65535, 65536, 65537, 70000, 131070, 131071, 140000}
var bigCounts = []int{1000, 32767, 32768, 33000, 65535, 65536, 65600}

var boundaryInts = func() []int64 {
	var out []int64
	for _, b := range []int64{0, 1, -1, -15, -16, -17, 127, 128, -127, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536,
		math.MaxInt32, math.MaxInt32 + 1, math.MinInt32, math.MinInt32 - 1, math.MaxUint32, math.MaxUint32 + 1, math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, math.MinInt64 + 1, 1 << 53, 1 << 62} {
		out = append(out, b)
	}
	return out
}()

// GenInt draws an interesting int64.
func GenInt(t *rapid.T, l string) int64 {
	switch rapid.IntRange(0, 3).Draw(t, l+"k") {
	case 0:
		return int64(rapid.IntRange(-20, 140).Draw(t, l))
	case 1:
		return rapid.SampledFrom(boundaryInts).Draw(t, l)
	case 2:
		sh := rapid.IntRange(0, 63).Draw(t, l+"sh")
		return int64(rapid.Uint64().Draw(t, l) >> uint(sh))
	default:
		return rapid.Int64().Draw(t, l)
	}
}

var specialFloats = []float64{0, math.Copysign(0, -1), 1, -1, 0.1, math.Inf(1), math.Inf(-1), math.NaN(), math.MaxFloat64, math.SmallestNonzeroFloat64, 1e308, -1e-308, math.MaxFloat32, math.SmallestNonzeroFloat32, 1 << 53, 3.5}

// GenFloat draws float bits.
func GenFloat(t *rapid.T, l string) uint64 {
	switch rapid.IntRange(0, 2).Draw(t, l+"k") {
	case 0:
		return math.Float64bits(rapid.SampledFrom(specialFloats).Draw(t, l))
	case 1:
		return rapid.Uint64().Draw(t, l)
	default:
		return math.Float64bits(rapid.Float64().Draw(t, l))
	}
}

var words = []string{"", "a", "name", "über", "日本語", "\x00", "\xff\xfe", "RETURN 1", "%d%s", "a\nb", "👍", "true", "null", "0", "k0"}

// GenStrN draws string content of small or boundary or big size.
func GenStr(t *rapid.T, l string, big bool) V {
	k := rapid.IntRange(0, 9).Draw(t, l+"k")
	switch {
	case k <= 3:
		return V{K: Str, S: []byte(rapid.SampledFrom(words).Draw(t, l))}
	case k <= 5:
		return V{K: Str, S: rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(t, l)}
	case k <= 8 || !big:
		return fixStr(V{K: Str, N: rapid.SampledFrom(boundarySizes).Draw(t, l), S: []byte(rapid.SampledFrom([]string{"x", "ab", "é", "\x00\x01\x02", "\x00\x00\x00\x02zz"}).Draw(t, l+"p"))})
	default:
		return fixStr(V{K: Str, N: rapid.SampledFrom(bigSizes).Draw(t, l), S: []byte(rapid.SampledFrom([]string{"x", "abc", "é-", "\x00\x01\x02"}).Draw(t, l+"p"))})
	}
}

func fixStr(v V) V {
	if v.N == 0 {
		v.S = nil
	}
	return v
}

var intTypes = []string{"int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64"}

// FitsGo reports whether i fits the Go integer type.
func FitsGo(i int64, g string) bool {
	switch g {
	case "int8":
		return i >= -128 && i <= 127
	case "int16":
		return i >= -32768 && i <= 32767
	case "int32":
		return i >= math.MinInt32 && i <= math.MaxInt32
	case "uint", "uint64":
		return i >= 0
	case "uint8":
		return i >= 0 && i <= 255
	case "uint16":
		return i >= 0 && i <= 65535
	case "uint32":
		return i >= 0 && i <= math.MaxUint32
	}
	return true
}

// GenScalar draws a non-container.
func GenScalar(t *rapid.T, o GenOpts) V {
	switch rapid.IntRange(0, 9).Draw(t, "scalar") {
	case 0:
		return NilV()
	case 1:
		return BoolV(rapid.Bool().Draw(t, "b"))
	case 2, 3, 4:
		v := IntV(GenInt(t, "i"))
		if o.GoTypes {
			g := rapid.SampledFrom(intTypes).Draw(t, "g")
			if FitsGo(v.I, g) {
				v.G = g
			}
		}
		if o.Wide {
			v.W = rapid.SampledFrom([]int{0, 0, 8, 16, 32, 64}).Draw(t, "w")
		}
		return v
	case 5, 6:
		v := V{K: Float, F: GenFloat(t, "f")}
		if o.GoTypes && rapid.IntRange(0, 3).Draw(t, "f32") == 0 {
			f32 := float32(math.Float64frombits(v.F))
			v.F = math.Float64bits(float64(f32))
			v.G = "float32"
		}
		return v
	default:
		v := GenStr(t, "s", o.Big)
		if o.Wide {
			v.W = rapid.SampledFrom([]int{0, 0, 8, 16, 32}).Draw(t, "w")
		}
		return v
	}
}

// GenKeys draws n distinct map keys.
func GenKeys(t *rapid.T, n int) [][]byte {
	seen := map[string]bool{}
	var out [][]byte
	for i := 0; i < n; i++ {
		var k []byte
		switch rapid.IntRange(0, 5).Draw(t, "kk") {
		case 0, 1, 2:
			k = []byte(rapid.SampledFrom(words).Draw(t, "key"))
		case 3:
			k = rapid.SliceOfN(rapid.Byte(), 0, 8).Draw(t, "keyb")
		case 4:
			v := V{K: Str, N: rapid.SampledFrom(boundarySizes).Draw(t, "keyn"), S: []byte("k")}
			k = fixStr(v).Expand().S
		default:
			k = []byte(fmt.Sprintf("key-%d", i))
		}
		if seen[string(k)] {
			k = []byte(fmt.Sprintf("%s#%d", k, i))
		}
		if seen[string(k)] {
			k = []byte(fmt.Sprintf("unique-%d-%d", i, n))
		}
		seen[string(k)] = true
		if k == nil {
			k = []byte{}
		}
		out = append(out, k)
	}
	return out
}

// GenV draws a value.
func GenV(t *rapid.T, o GenOpts) V {
	if o.Depth <= 0 {
		return GenScalar(t, o)
	}
	k := rapid.IntRange(0, 11).Draw(t, "kind")
	sub := o
	sub.Depth--
	sub.Big = false
	switch {
	case k <= 4:
		return GenScalar(t, o)
	case k <= 7:
		return genList(t, o, sub)
	case k <= 10 || o.Structs == nil:
		return genMap(t, o, sub)
	default:
		return o.Structs(t, sub)
	}
}

func wide(t *rapid.T, o GenOpts, v V) V {
	if o.Wide {
		v.W = rapid.SampledFrom([]int{0, 0, 8, 16, 32}).Draw(t, "w")
	}
	return v
}

func genList(t *rapid.T, o, sub GenOpts) V {
	v := V{K: List, L: []V{}}
	mode := rapid.IntRange(0, 9).Draw(t, "lm")
	switch {
	case mode <= 5:
		n := rapid.IntRange(0, 6).Draw(t, "n")
		for i := 0; i < n; i++ {
			v.L = append(v.L, GenV(t, sub))
		}
	case mode == 6 && o.GoTypes:
		// a typed Go slice: all elements of one kind
		g := rapid.SampledFrom([]string{"[]string", "[]int", "[]int64", "[]float64", "[]bool", "[]uint8", "[][]string", "[]map",
			"[]int8", "[]int32", "[]uint16", "[]float32", "[][]any", "words", "anys", "nil"}).Draw(t, "sl")
		n := rapid.SampledFrom([]int{0, 1, 2, 3, 15, 16, 20, 130}).Draw(t, "n")
		v.G = g
		if n == 0 || g == "nil" {
			// a list of no elements, made as a nil slice
			v.G = "nil" + g
			return v
		}
		for i := 0; i < n; i++ {
			switch g {
			case "[]string", "words":
				v.L = append(v.L, V{K: Str, S: []byte(rapid.SampledFrom(words).Draw(t, "w"))})
			case "[]int", "[]int64":
				v.L = append(v.L, IntV(GenInt(t, "i")))
			case "[]uint8":
				v.L = append(v.L, IntV(int64(rapid.Byte().Draw(t, "i"))))
			case "[]int8":
				v.L = append(v.L, IntV(int64(int8(rapid.Byte().Draw(t, "i")))))
			case "[]int32":
				v.L = append(v.L, IntV(int64(int32(GenInt(t, "i")))))
			case "[]uint16":
				v.L = append(v.L, IntV(int64(uint16(GenInt(t, "i")))))
			case "[]float32":
				v.L = append(v.L, V{K: Float, G: "float32", F: math.Float64bits(float64(float32(rapid.IntRange(-999, 999).Draw(t, "f")) / 8))})
			case "[][]any":
				v.L = append(v.L, ListV(BoolV(true), IntV(GenInt(t, "i"))))
			case "anys":
				v.L = append(v.L, GenScalar(t, sub))
			case "[]float64":
				v.L = append(v.L, V{K: Float, F: GenFloat(t, "f")})
			case "[]bool":
				v.L = append(v.L, BoolV(rapid.Bool().Draw(t, "b")))
			case "[][]string":
				m := rapid.IntRange(0, 2).Draw(t, "m")
				in := V{K: List, L: []V{}, G: "[]string"}
				for j := 0; j < m; j++ {
					in.L = append(in.L, V{K: Str, S: []byte(rapid.SampledFrom(words).Draw(t, "w"))})
				}
				v.L = append(v.L, in)
			case "[]map":
				v.L = append(v.L, MapV("k", IntV(GenInt(t, "i"))))
			}
		}
	case mode <= 8 || !o.Big:
		v.N = rapid.SampledFrom(boundarySizes).Draw(t, "n")
		if v.N > 0 {
			v.L = []V{GenScalar(t, sub)}
			if v.L[0].K == Str && v.L[0].N > 20 {
				v.L[0].N = 20
			}
		}
	default:
		v.N = rapid.SampledFrom(bigCounts).Draw(t, "n")
		v.L = []V{IntV(int64(rapid.IntRange(-16, 300).Draw(t, "i"))), NilV()}
	}
	return wide(t, o, v)
}

func genMap(t *rapid.T, o, sub GenOpts) V {
	v := V{K: Map, L: []V{}, Keys: [][]byte{}}
	mode := rapid.IntRange(0, 9).Draw(t, "mm")
	switch {
	case mode <= 6:
		n := rapid.IntRange(0, 5).Draw(t, "n")
		v.Keys = append(v.Keys, GenKeys(t, n)...)
		for i := 0; i < n; i++ {
			v.L = append(v.L, GenV(t, sub))
		}
		if n == 0 && o.GoTypes && rapid.Bool().Draw(t, "nil") {
			v.G = "nil"
		}
	case mode <= 8 || !o.Big:
		v.N = rapid.SampledFrom(boundarySizes).Draw(t, "n")
		if v.N > 0 {
			v.L = []V{GenScalar(t, sub)}
			if v.L[0].K == Str && v.L[0].N > 20 {
				v.L[0].N = 20
			}
		}
	default:
		v.N = rapid.SampledFrom(bigCounts).Draw(t, "n")
		v.L = []V{IntV(int64(rapid.IntRange(-16, 300).Draw(t, "i")))}
	}
	return wide(t, o, v)
}

// GenMap draws a map value (for parameters and metadata).
func GenMap(t *rapid.T, o GenOpts) V {
	sub := o
	sub.Depth--
	return genMap(t, o, sub)
}

// GenList draws a list value.
func GenList(t *rapid.T, o GenOpts) V {
	sub := o
	sub.Depth--
	return genList(t, o, sub)
}
