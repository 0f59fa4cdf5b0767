package props

import (
	"bytes"
	"cmp"
	"fmt"
	"slices"

	"pgregory.net/rapid"
	"verif/harness/hx"
	"verif/harness/ref"
)

// ---- small drawing helpers ----

func pick[T any](c *hx.C, label string, xs ...T) T { return hx.Draw(c, rapid.SampledFrom(xs), label) }
func num(c *hx.C, label string, lo, hi int) int    { return hx.Draw(c, rapid.IntRange(lo, hi), label) }
func flip(c *hx.C, label string) bool              { return hx.Draw(c, rapid.Bool(), label) }

// oneIn is true about once in n draws.
func oneIn(c *hx.C, label string, n int) bool {
	return hx.Draw(c, rapid.IntRange(0, n-1), label) == n-1
}

// count draws how many there are of something: lo to hi, and in one case of twelve, for one of its
// lists, many more.
func count(c *hx.C, label string, lo, hi, many int) int {
	if c.Local == nil {
		c.Local = map[string]any{}
	}
	at, ok := c.Local["many"].(int)
	if !ok {
		at = -1
		if oneIn(c, "oneOfMany", 12) {
			at = num(c, "manyAt", 0, 3)
			if oneIn(c, "manyLate", 3) {
				at += num(c, "manyLater", 0, 30)
			}
		}
	}
	c.Local["many"] = at - 1
	if at == 0 {
		c.Class("many of something")
		return num(c, label+"Many", hi, many)
	}
	return num(c, label, lo, hi)
}

// blob draws n bytes cheaply (a handful of draws whatever the length).
func blob(c *hx.C, label string, n int) []byte {
	seed := hx.Draw(c, rapid.SliceOfN(rapid.Byte(), 1, 24), label)
	out := make([]byte, n)
	var x uint32 = 2166136261
	for i := range out {
		if i < len(seed) {
			out[i] = seed[i]
			x = (x ^ uint32(seed[i])) * 16777619
			continue
		}
		x ^= x << 13
		x ^= x >> 17
		x ^= x << 5
		if x == 0 {
			x = 1
		}
		out[i] = byte(x >> 11)
	}
	return out
}

// nasty byte strings that resemble file structure
var nasty = []string{"stream", "endstream", "endobj", "5 0 obj", "1 0 obj", "12 0 obj", "xref", "trailer", "startxref", "obj", ">>", "<<", "/Length 3", "/Type /Catalog", "%", "\n", "\r\n", "/Prev 12", "/Root 9 0 R", "R", " ", "%%EOF", "startxref\n12\n%%EOF\n"}

func nastyBytes(c *hx.C, label string, n int) []byte {
	var b []byte
	for _, p := range hx.Draw(c, rapid.SliceOfN(rapid.SampledFrom(nasty), 1, n), label) {
		b = append(b, p...)
		if len(b)%3 == 0 {
			b = append(b, '\n')
		}
	}
	return b
}

var keyNames = []string{"A", "B", "Key", "Length1", "Type", "Subtype", "Name", "Kids", "Parent", "Count", "Foo#Bar", "Streamer", "R", "obj", "Sp ace", "endobjX", "Prev", "Size", "Root", "N", "First", "W", "Index"}

// genObj draws a non-stream object.
func genObj(c *hx.C, depth int, maxRef int) ref.Obj {
	k := num(c, "kind", 0, 11)
	if depth <= 0 && k >= 9 {
		k -= 5
	}
	switch k {
	case 0:
		return ref.Null{}
	case 1:
		return flip(c, "bool")
	case 2, 3:
		return num(c, "int", -100000, 2147483647)
	case 4:
		return ref.Real(pick(c, "real", "0.5", "-.002", "4.", "+17.25", "123.456", "-0.0", "00012.50"))
	case 5:
		return ref.Name(pick(c, "name", append([]string{"Page", "DeviceRGB", "", "a/b", "p(q", "stream", "Font#1", "é"}, keyNames...)...))
	case 6:
		return ref.Str{B: hx.Draw(c, rapid.SliceOfN(rapid.Byte(), 0, 20), "str"), Hex: flip(c, "hex")}
	case 7:
		return ref.Str{B: nastyBytes(c, "nasty", 4)}
	case 8:
		return ref.Ref{N: num(c, "ref", 1, maxRef), G: 0}
	case 9:
		a := ref.Arr{}
		for i, n := 0, count(c, "alen", 0, 5, 200); i < n; i++ {
			a = append(a, genObj(c, depth-1, maxRef))
		}
		return a
	default:
		return genDict(c, depth, maxRef)
	}
}

func genDict(c *hx.C, depth int, maxRef int) ref.Dict {
	d := ref.Dict{}
	for i, n := 0, count(c, "dlen", 0, 5, 150); i < n; i++ {
		k := pick(c, "key", keyNames...)
		if i > 9 {
			k += fmt.Sprint(i)
		}
		if !d.Has(k) {
			d = append(d, ref.KV{K: k, V: genObj(c, depth-1, maxRef)})
		}
	}
	return d
}

func genFmt(c *hx.C) ref.Fmt {
	return ref.Fmt{Sp: pick(c, "sp", " ", "\n", "\r\n", "  ", "\t"), Tight: flip(c, "tight")}
}

func sortedKeys[K cmp.Ordered, V any](m map[K]V) []K {
	var ks []K
	for k := range m {
		ks = append(ks, k)
	}
	slices.Sort(ks)
	return ks
}

// stripIndirect removes "N G obj" and "endobj" around an object's text and trims white space.
// Text without a header (an object stored in an object stream) is returned trimmed.
func stripIndirect(b []byte, n, g int) []byte {
	t := bytes.TrimSpace(b)
	h := []byte(fmt.Sprintf("%d %d obj", n, g))
	if bytes.HasPrefix(t, h) {
		t = bytes.TrimPrefix(t, h)
		t = bytes.TrimSuffix(bytes.TrimSpace(t), []byte("endobj"))
	}
	return bytes.TrimSpace(t)
}

// mutated-input guard: returns a function that reports whether b changed.
func guard(b []byte) func() bool {
	cp := append([]byte(nil), b...)
	return func() bool { return bytes.Equal(cp, b) }
}

// spread draws an index below n with little bias towards small ones (0 stays the simplest).
func spread(c *hx.C, label string, n int) int {
	x := uint32(num(c, label, 0, 1<<24))
	return int(uint64(x*2654435761) * uint64(n) >> 32)
}
