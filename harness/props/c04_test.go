package props

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"image/jpeg"
	"image/png"
	"sort"
	"strconv"
	"strings"

	"github.com/benedoc-inc/pdfer/core/parse"
	"github.com/benedoc-inc/pdfer/core/write"
	"github.com/benedoc-inc/pdfer/types"
	"pgregory.net/rapid"
	"verif/harness/hx"
	"verif/harness/ref"
)

// strictDoc reads a written document strictly and checks what every valid file
// satisfies: exact offsets, /Size, all in-use entries resolve, no dangling references.
func strictDoc(c *hx.C, b []byte, pw []byte, danglingOK map[int]bool) *ref.Doc {
	c.Helper()
	d, err := strictErr(b, pw, danglingOK)
	if err != nil {
		c.Fail("strict reader: %v", err)
	}
	return d
}

func strictErr(b []byte, pw []byte, danglingOK map[int]bool) (*ref.Doc, error) {
	d, err := ref.ReadDoc(b)
	if err != nil {
		return nil, err
	}
	if pw != nil {
		if _, err := d.Unlock(pw); err != nil {
			return nil, fmt.Errorf("unlock: %v", err)
		}
	}
	max := 0
	for n := range d.Xref {
		if n > max {
			max = n
		}
	}
	if s, ok := d.Trailer.Get("Size").(int); !ok || s <= max {
		return nil, fmt.Errorf("/Size %v but the highest object number is %d", d.Trailer.Get("Size"), max)
	}
	use := d.InUse()
	var nums []int
	for n := range use {
		nums = append(nums, n)
	}
	sort.Ints(nums)
	var walk func(o ref.Obj) error
	walk = func(o ref.Obj) error {
		switch v := o.(type) {
		case ref.Ref:
			if !use[v.N] && !danglingOK[v.N] {
				return fmt.Errorf("reference to object %d, which does not exist", v.N)
			}
		case ref.Arr:
			for _, e := range v {
				if err := walk(e); err != nil {
					return err
				}
			}
		case ref.Dict:
			seen := map[string]bool{}
			for _, e := range v {
				if seen[e.K] {
					return fmt.Errorf("duplicate key /%s", e.K)
				}
				seen[e.K] = true
				if err := walk(e.V); err != nil {
					return err
				}
			}
		case *ref.Stream:
			return walk(v.D)
		}
		return nil
	}
	for _, n := range nums {
		o, err := d.Get(n)
		if err != nil {
			return nil, err
		}
		if err := walk(o); err != nil {
			return nil, fmt.Errorf("object %d: %v", n, err)
		}
	}
	if err := walk(d.Trailer); err != nil {
		return nil, fmt.Errorf("trailer: %v", err)
	}
	return d, nil
}

// goVal draws a Go value for a writer dictionary and the object it denotes.
func goVal(c *hx.C, depth int, maxRef int) (interface{}, ref.Obj) {
	k := num(c, "vkind", 0, 12)
	if depth <= 0 && k >= 9 && k < 12 {
		k -= 4
	}
	switch k {
	case 12:
		switch num(c, "vkind2", 0, 3) {
		case 0:
			return nil, ref.Null{}
		case 1:
			f := pick(c, "float32", 0.5, -0.1, 1.0/3, 12345.678, 3, 1e-5)
			return float32(f), ref.Real(strconv.FormatFloat(float64(float32(f)), 'f', -1, 32))
		case 2:
			n := pick(c, "int32", 7, -7, 2147483647, -2147483648)
			return int32(n), n
		}
		n := pick(c, "uint", 0, 200, 4294967295)
		return uint32(n), n
	case 0:
		n := pick(c, "int", 0, 1, -1, 42, 2147483647, -2147483648, 612)
		return n, n
	case 1:
		n := int64(num(c, "int64", -1000000, 1000000))
		return n, int(n)
	case 2:
		f := pick(c, "float", 0.5, -0.25, 1.0/3, 1e-7, 123456.789, 595.276, -0.0001, 1e15, 3)
		return f, ref.Real(strconv.FormatFloat(f, 'f', -1, 64))
	case 3:
		n := pick(c, "name", "Page", "DeviceRGB", "F1", "A.B-c", "X_y", "Catalog")
		return "/" + n, ref.Name(n)
	case 4:
		n := num(c, "ref", 1, maxRef)
		return fmt.Sprintf("%d 0 R", n), ref.Ref{N: n}
	case 5, 6:
		// text: anything a caller can hand over that is not a name or a reference
		s := pick(c, "text", "hello", "a(b", "a)b", "(balanced)", "back\\slash", "tail\\", "line\nfeed", "cr\rhere", "crlf\r\n", "tab\t", "", "R", "5 R", "for R", "10 0 R x", "%comment", "<<", ">>", "[", "endobj", "stream", "\\(", "\\n", "\\053", "caf\xe9", "é", "\x00\x01", "1 0 obj")
		return s, ref.Str{B: []byte(s)}
	case 7:
		s := hx.Draw(c, rapid.SliceOfN(rapid.Byte(), 0, 12), "bytes")
		if s == nil {
			s = []byte{}
		}
		return s, ref.Str{B: s}
	case 8:
		b := flip(c, "bool")
		return b, b
	case 9:
		var l []interface{}
		a := ref.Arr{}
		for i, n := 0, count(c, "alen", 0, 4, 200); i < n; i++ {
			g, o := goVal(c, depth-1, maxRef)
			l = append(l, g)
			a = append(a, o)
		}
		return l, a
	default:
		return goDict(c, depth-1, maxRef)
	}
}

func goDict(c *hx.C, depth, maxRef int) (write.Dictionary, ref.Dict) {
	g, d := write.Dictionary{}, ref.Dict{}
	for i, n := 0, count(c, "dlen", 0, 4, 150); i < n; i++ {
		k := pick(c, "dkey", "A", "B", "Kind", "Sub.Key", "X-1", "Name", "Parent", "W", "Size", "N", "First", "Root")
		if i > 9 {
			k += fmt.Sprint(i)
		}
		if d.Has(k) {
			continue
		}
		v, o := goVal(c, depth, maxRef)
		if flip(c, "slash") {
			g["/"+k] = v
		} else {
			g[k] = v
		}
		d = append(d, ref.KV{K: k, V: o})
	}
	return g, d
}

type wobj struct {
	o      ref.Obj // expected object (dictionary for streams, without Length)
	data   []byte
	stream bool
}

func sameObj(want wobj, got ref.Obj) error {
	if !want.stream {
		if ref.Canon(want.o) != ref.Canon(got) {
			return fmt.Errorf("got %.300s want %.300s", ref.Canon(got), ref.Canon(want.o))
		}
		return nil
	}
	s, ok := got.(*ref.Stream)
	if !ok {
		return fmt.Errorf("got %T, want a stream", got)
	}
	dec, err := ref.Decode(s)
	if err != nil {
		return fmt.Errorf("decoding: %v", err)
	}
	if !bytes.Equal(dec, want.data) {
		return fmt.Errorf("stream data: got %.100x (%d bytes) want %.100x (%d bytes)", dec, len(dec), want.data, len(want.data))
	}
	a := ref.Canon(s.D.Without("Length").Without("Filter").Without("DecodeParms"))
	b := ref.Canon(want.o)
	if a != b {
		return fmt.Errorf("stream dictionary: got %.300s want %.300s", a, b)
	}
	return nil
}

// libObj parses what the library's reader returns for an object.
func libObj(pdf *parse.PDF, n int) (ref.Obj, error) {
	raw, err := pdf.GetObject(n)
	if err != nil {
		return nil, err
	}
	gen := 0
	if r := pdf.ObjectRef(n); r != nil {
		gen = r.Generation
	}
	body := stripIndirect(raw, n, gen)
	p := &ref.Parser{B: body}
	o, err := p.Object()
	if err != nil {
		return nil, fmt.Errorf("%v in %.200q", err, body)
	}
	p.SkipWS()
	if d, ok := o.(ref.Dict); ok && bytes.HasPrefix(body[p.Pos:], []byte("stream")) {
		rest := bytes.TrimPrefix(body[p.Pos:], []byte("stream"))
		rest = bytes.TrimPrefix(rest, []byte("\r"))
		rest = bytes.TrimPrefix(rest, []byte("\n"))
		l, ok := d.Get("Length").(int)
		if !ok || l > len(rest) {
			return nil, fmt.Errorf("bad length %v", d.Get("Length"))
		}
		return &ref.Stream{D: d, Data: rest[:l]}, nil
	}
	return o, nil
}

func init() {
	hx.Reg("C04", "object-histories", 5000,
		"2-14 writer calls (plain, stream, set, overwrite, reserved gaps, nil content) with generated Go values, in table / xref-stream / object-stream mode, written up to three times with edits in between; strict reader, library reader and repeat-write compared with a map model; non-trivial: 3+ objects, keyed by mode and model",
		func(c *hx.C) {
			w := write.NewPDFWriter()
			ver := pick(c, "ver", "1.4", "1.5", "1.7", "2.0")
			w.SetVersion(ver)
			mode := num(c, "mode", 0, 2)
			if mode == 1 {
				w.UseXRefStream(true)
			}
			if mode == 2 {
				w.UseObjectStream(true)
			}
			m := map[int]wobj{}
			next := 1
			maxRef := num(c, "maxRef", 1, 12)
			plain := func() ([]byte, ref.Obj) {
				if oneIn(c, "blank", 15) {
					return pick(c, "bl", nil, []byte{}, []byte(" ")), ref.Null{}
				}
				o := genObj(c, 3, maxRef)
				b := genFmt(c).Bytes(o)
				if oneIn(c, "cmt", 6) {
					b = append(b, " % trailing comment"...)
					c.Class("comment-tail")
				}
				return b, o
			}
			streamObj := func() (write.Dictionary, []byte, bool, wobj) {
				g, d := goDict(c, 2, maxRef)
				var data []byte
				switch num(c, "sd", 0, 3) {
				case 0:
					data = pick(c, "emp", nil, []byte{})
				case 1:
					data = nastyBytes(c, "nst", 5)
				case 2:
					data = append(blob(c, "bl", num(c, "bln", 1, 200)), pick(c, "tl", "", "\n", "\r\n", "\r")...)
				case 3:
					data = bytes.Repeat([]byte("abc "), num(c, "rep", 1, 300))
				}
				enc := data
				// a caller may hand over data that is already encoded
				if oneIn(c, "preChain", 5) && len(data) > 0 {
					// one or two filters with parameters
					columns := num(c, "columns", 1, 9)
					parms := write.Dictionary{"Predictor": 12, "Columns": columns}
					data = data[:len(data)/columns*columns]
					enc = ref.Deflate(ref.Predict(data, columns, 1, 8, []byte{2, 1, 0, 4, 3}))
					var filter, dp interface{} = "/FlateDecode", parms
					switch num(c, "preForm", 0, 3) {
					case 0:
						filter, dp = []interface{}{filter}, []interface{}{dp}
					case 1:
						filter = []interface{}{filter}
						dp = []interface{}{dp}
						enc = []byte(fmt.Sprintf("%x>", enc))
						filter = append([]interface{}{"/ASCIIHexDecode"}, filter.([]interface{})...)
						dp = append([]interface{}{nil}, dp.([]interface{})...)
					case 2:
						enc = []byte(fmt.Sprintf("%X >", enc))
						filter = []interface{}{"/ASCIIHexDecode", filter}
						dp = []interface{}{write.Dictionary{}, dp}
					}
					g[pick(c, "fk", "Filter", "/Filter")] = filter
					g[pick(c, "dpk", "DecodeParms", "/DecodeParms")] = dp
					c.Class("pre-encoded with parameters")
				} else if oneIn(c, "pre", 4) {
					enc = []byte(fmt.Sprintf("%x>", data))
					key := pick(c, "fk", "Filter", "/Filter")
					if flip(c, "farr") {
						g[key] = []interface{}{"/ASCIIHexDecode"}
					} else {
						g[key] = "/ASCIIHexDecode"
					}
					c.Class("pre-encoded")
				} else if oneIn(c, "loneparms", 10) {
					// parameters that no filter has
					g[pick(c, "dpk", "DecodeParms", "/DecodeParms")] = pick[interface{}](c, "lonedp", write.Dictionary{"Predictor": 12, "Columns": 3}, []interface{}{write.Dictionary{"Predictor": 2}}, write.Dictionary{})
				}
				if oneIn(c, "ownlen", 5) {
					g[pick(c, "lk", "Length", "/Length")] = num(c, "lv", 0, 50)
				}
				return g, enc, flip(c, "compress"), wobj{o: d, data: data, stream: true}
			}
			var outs [][]byte
			desc := fmt.Sprintf("mode %d ver %s:", mode, ver)
			check := func() {
				var b bytes.Buffer
				if err := w.Write(&b); err != nil {
					c.Fail("Write: %v", err)
				}
				out := b.Bytes()
				c.Emits(fmt.Sprintf("out%d.pdf", len(outs)), out, w.Bytes)
				if again, err := w.Bytes(); err != nil || !bytes.Equal(again, out) {
					c.Fail("writing twice gives different bytes (%d and %d)", len(out), len(again))
				}
				outs = append(outs, out)
				if !bytes.HasPrefix(out, []byte("%PDF-"+ver+"\n")) {
					c.Fail("header %q", out[:12])
				}
				dang := map[int]bool{}
				for i := 0; i <= maxRef; i++ {
					dang[i] = true
				}
				d := strictDoc(c, out, nil, dang)
				use := d.InUse()
				extra := 0
				for n := range use {
					if _, ok := m[n]; !ok {
						o, _ := d.Get(n)
						s, ok := o.(*ref.Stream)
						t := ref.Obj(nil)
						if ok {
							t = s.D.Get("Type")
						}
						if t == ref.Obj(ref.Name("XRef")) || t == ref.Obj(ref.Name("ObjStm")) {
							extra++
							continue
						}
						c.Fail("object %d was never written by the caller: %.100s", n, ref.Canon(o))
					}
				}
				if mode == 0 && extra > 0 {
					c.Fail("table mode wrote stream structures")
				}
				pdf, err := parse.Open(out)
				if err != nil {
					c.Fail("library reader: %v", err)
				}
				if pdf.Version() != ver {
					c.Fail("version %q, wrote %q", pdf.Version(), ver)
				}
				for n, want := range m {
					got, err := d.Get(n)
					if err != nil {
						c.Fail("object %d: %v", n, err)
					}
					if err := sameObj(want, got); err != nil {
						c.Fail("object %d (strict reader): %v", n, err)
					}
					lg, err := libObj(pdf, n)
					if err != nil {
						c.Fail("object %d (library reader): %v", n, err)
					}
					if err := sameObj(want, lg); err != nil {
						c.Fail("object %d (library reader): %v", n, err)
					}
					if !pdf.HasObject(n) {
						c.Fail("library reader: HasObject(%d) is false", n)
					}
				}
			}
			// a catalog first, so that every emission has a root
			cat := w.AddObject([]byte("<</Type/Catalog/Extra(x)>>"))
			m[cat] = wobj{o: ref.Dict{{K: "Type", V: ref.Name("Catalog")}, {K: "Extra", V: ref.Str{B: []byte("x")}}}}
			next = cat + 1
			w.SetRoot(cat)
			for i, n := 0, count(c, "ops", 2, 14, 250); i < n; i++ {
				switch k := num(c, "op", 0, 7); k {
				case 0, 1, 2:
					b, o := plain()
					same := guard(b)
					c.Keep("object", b)
					got := w.AddObject(b)
					if got != next {
						c.Fail("AddObject returned %d, want %d", got, next)
					}
					m[got] = wobj{o: o}
					next++
					if !same() {
						c.Fail("AddObject changed its input")
					}
					desc += fmt.Sprintf(" add %.60q", b)
				case 3, 4:
					g, data, comp, wo := streamObj()
					before := fmt.Sprintf("%v", g)
					same := guard(data)
					c.Keep("dictionary", g)
					c.Keep("stream data", data)
					got := w.AddStreamObject(g, data, comp)
					if got != next {
						c.Fail("AddStreamObject returned %d, want %d", got, next)
					}
					m[got] = wo
					next++
					if fmt.Sprintf("%v", g) != before || !same() {
						c.Fail("AddStreamObject changed its arguments: %v -> %v", before, g)
					}
					desc += fmt.Sprintf(" stream %v %d bytes %v", before, len(data), comp)
				case 5:
					at := num(c, "at", 2, next+6)
					b, o := plain()
					c.Keep("object", b)
					w.SetObject(at, b)
					m[at] = wobj{o: o}
					if at >= next {
						next = at + 1
					}
					desc += fmt.Sprintf(" set %d %.60q", at, b)
				case 6:
					at := num(c, "at", 2, next+6)
					g, data, comp, wo := streamObj()
					before := fmt.Sprintf("%v", g)
					w.SetStreamObject(at, g, held(c, data), comp)
					if fmt.Sprintf("%v", g) != before {
						c.Fail("SetStreamObject changed its dictionary")
					}
					m[at] = wo
					if at >= next {
						next = at + 1
					}
					desc += fmt.Sprintf(" setstream %d %v", at, before)
				case 7:
					check()
					desc += " write"
				}
				if w.NextObjectNumber() != next {
					c.Fail("NextObjectNumber %d, want %d", w.NextObjectNumber(), next)
				}
			}
			if oneIn(c, "info", 3) {
				inf := w.AddObject([]byte("<</Title(t)>>"))
				m[inf] = wobj{o: ref.Dict{{K: "Title", V: ref.Str{B: []byte("t")}}}}
				next++
				w.SetInfo(inf)
				check()
				d, _ := ref.ReadDoc(outs[len(outs)-1])
				if r, ok := d.Trailer.Get("Info").(ref.Ref); !ok || r.N != inf {
					c.Fail("trailer /Info is %v, want %d", d.Trailer.Get("Info"), inf)
				}
			} else {
				check()
			}
			d, _ := ref.ReadDoc(outs[len(outs)-1])
			if r, ok := d.Trailer.Get("Root").(ref.Ref); !ok || r.N != cat {
				c.Fail("trailer /Root is %v, want %d", d.Trailer.Get("Root"), cat)
			}
			c.Class(fmt.Sprintf("mode-%d", mode))
			c.ClassIf(len(outs) > 1, "rewritten")
			if len(m) >= 3 {
				c.NT(desc)
			}
		})

	hx.Reg("C04", "big-offsets", 120,
		"documents of 60 kB to 400 kB and of 200 to 900 objects so that cross-reference fields cross byte widths, in all three modes; every object read back by both readers; non-trivial: all, keyed by shape",
		func(c *hx.C) {
			w := write.NewPDFWriter()
			mode := num(c, "mode", 0, 2)
			w.UseXRefStream(mode >= 1)
			if mode == 2 {
				w.UseObjectStream(true)
			}
			cat := w.AddObject([]byte("<</Type/Catalog>>"))
			w.SetRoot(cat)
			m := map[int]wobj{cat: {o: ref.Dict{{K: "Type", V: ref.Name("Catalog")}}}}
			pad := pick(c, "pad", 0, 60000, 65000, 65400, 65535, 66000, 200000, 400000)
			if pad > 0 {
				data := blob(c, "pad", pad)
				n := w.AddStreamObject(write.Dictionary{}, data, false)
				m[n] = wobj{o: ref.Dict{}, data: data, stream: true}
			}
			cnt := pick(c, "cnt", 3, 200, 254, 255, 256, 257, 300, 900)
			for i := 0; i < cnt; i++ {
				n := w.AddObject([]byte(fmt.Sprintf("<</I %d>>", i)))
				m[n] = wobj{o: ref.Dict{{K: "I", V: i}}}
			}
			out, err := w.Bytes()
			if err != nil {
				c.Fail("Bytes: %v", err)
			}
			c.Emits("out.pdf", out, w.Bytes)
			d := strictDoc(c, out, nil, nil)
			pdf, err := parse.Open(out)
			if err != nil {
				c.Fail("library reader: %v", err)
			}
			for n, want := range m {
				got, err := d.Get(n)
				if err != nil {
					c.Fail("object %d: %v", n, err)
				}
				if err := sameObj(want, got); err != nil {
					c.Fail("object %d: %v", n, err)
				}
				lg, err := libObj(pdf, n)
				if err != nil {
					c.Fail("object %d (library reader): %v", n, err)
				}
				if err := sameObj(want, lg); err != nil {
					c.Fail("object %d (library reader): %v", n, err)
				}
			}
			c.Class(fmt.Sprintf("mode-%d", mode))
			c.NT(fmt.Sprintf("mode %d pad %d count %d", mode, pad, cnt))
		})

	hx.Reg("C04", "documents", 3000,
		"documents of 0-6 pages built with the page builder (fonts, PNG/JPEG images, content calls), metadata and bookmarks set in any order, in all three modes; page tree, boxes, resources, content bytes, image pixels, outline links checked by the strict reader; non-trivial: 1+ page, keyed by the plan",
		func(c *hx.C) { buildDocument(c) })
}

// pngPixels makes a small image of a drawn kind.
func genImage(c *hx.C) image.Image {
	w, h := num(c, "iw", 1, 9), num(c, "ih", 1, 7)
	pix := blob(c, "pix", w*h*8)
	at := func(i int) byte { return pix[i%len(pix)] }
	r := image.Rect(0, 0, w, h)
	if oneIn(c, "moved", 4) { // an image need not begin at the origin
		r = r.Add(image.Pt(num(c, "ix", -5, 300), num(c, "iy", -5, 300)))
	}
	switch num(c, "ikind", 0, 5) {
	case 0:
		m := image.NewGray(r)
		for i := range m.Pix {
			m.Pix[i] = at(i)
		}
		return m
	case 1:
		m := image.NewNRGBA(r)
		for i := range m.Pix {
			m.Pix[i] = at(i)
		}
		return m
	case 2:
		m := image.NewNRGBA(r)
		for i := range m.Pix {
			m.Pix[i] = at(i)
			if i%4 == 3 {
				m.Pix[i] = 255
			}
		}
		return m
	case 3:
		m := image.NewPaletted(r, color.Palette{color.NRGBA{10, 20, 30, 255}, color.NRGBA{200, 100, 50, 128}, color.NRGBA{255, 255, 255, 0}, color.NRGBA{0, 0, 0, 255}})
		for i := range m.Pix {
			m.Pix[i] = at(i) % 4
		}
		return m
	case 4:
		m := image.NewNRGBA64(r)
		for i := range m.Pix {
			m.Pix[i] = at(i)
		}
		return m
	default:
		m := image.NewGray16(r)
		for i := range m.Pix {
			m.Pix[i] = at(i)
		}
		return m
	}
}

func checkImage(d *ref.Doc, n int, img image.Image) error {
	o, err := d.Get(n)
	if err != nil {
		return err
	}
	s, ok := o.(*ref.Stream)
	if !ok {
		return fmt.Errorf("image object %d is %T", n, o)
	}
	b := img.Bounds()
	if s.D.Get("Subtype") != ref.Obj(ref.Name("Image")) || s.D.Get("Width") != ref.Obj(b.Dx()) || s.D.Get("Height") != ref.Obj(b.Dy()) || s.D.Get("BitsPerComponent") != ref.Obj(8) {
		return fmt.Errorf("image dictionary %s", ref.Canon(s.D))
	}
	data, err := ref.Decode(s)
	if err != nil {
		return err
	}
	opaque := true
	for y := b.Min.Y; y < b.Max.Y; y++ {
		for x := b.Min.X; x < b.Max.X; x++ {
			if _, _, _, a := img.At(x, y).RGBA(); a != 0xffff {
				opaque = false
			}
		}
	}
	var alpha []byte
	if sm, ok := s.D.Get("SMask").(ref.Ref); ok {
		mo, err := d.Get(sm.N)
		if err != nil {
			return err
		}
		ms, ok := mo.(*ref.Stream)
		if !ok || ms.D.Get("Width") != ref.Obj(b.Dx()) || ms.D.Get("Height") != ref.Obj(b.Dy()) || ms.D.Get("ColorSpace") != ref.Obj(ref.Name("DeviceGray")) {
			return fmt.Errorf("bad soft mask %v", mo)
		}
		if alpha, err = ref.Decode(ms); err != nil {
			return err
		}
		if len(alpha) != b.Dx()*b.Dy() {
			return fmt.Errorf("soft mask has %d bytes", len(alpha))
		}
	} else if !opaque {
		return fmt.Errorf("translucent image without a soft mask")
	}
	comps := 3
	if s.D.Get("ColorSpace") == ref.Obj(ref.Name("DeviceGray")) {
		comps = 1
	}
	if len(data) != comps*b.Dx()*b.Dy() {
		return fmt.Errorf("image has %d bytes for %dx%d with %d components", len(data), b.Dx(), b.Dy(), comps)
	}
	for y := 0; y < b.Dy(); y++ {
		for x := 0; x < b.Dx(); x++ {
			px := color.NRGBAModel.Convert(img.At(b.Min.X+x, b.Min.Y+y)).(color.NRGBA)
			i := y*b.Dx() + x
			if alpha != nil && alpha[i] != px.A {
				return fmt.Errorf("alpha at %d,%d is %d, want %d", x, y, alpha[i], px.A)
			}
			if px.A == 0 {
				continue
			}
			want := []byte{px.R, px.G, px.B}
			if comps == 1 {
				want = []byte{color.GrayModel.Convert(img.At(b.Min.X+x, b.Min.Y+y)).(color.Gray).Y}
			}
			if !bytes.Equal(data[i*comps:(i+1)*comps], want) {
				return fmt.Errorf("pixel %d,%d is %v, want %v (alpha %d)", x, y, data[i*comps:(i+1)*comps], want, px.A)
			}
		}
	}
	return nil
}

type placedImage struct {
	res string
	num int
	img image.Image
	jpg []byte
}

type docPage struct {
	size    write.PageSize
	content []byte
	fonts   map[string]string // resource name -> base font
	images  []placedImage
}

var stdFonts = []string{"Helvetica", "Helvetica-Bold", "Times-Roman", "Courier", "Symbol", "ZapfDingbats"}

// buildDocument drives SimplePDFBuilder and checks the outcome.
func buildDocument(c *hx.C) {
	b := write.NewSimplePDFBuilder()
	w := b.Writer()
	mode := num(c, "mode", 0, 2)
	w.UseXRefStream(mode >= 1)
	if mode == 2 {
		w.UseObjectStream(true)
	}
	plan := fmt.Sprintf("mode %d", mode)
	var md *types.DocumentMetadata
	infoNum := 0
	setMeta := func() {
		md = genMetadata(c)
		c.Keep("metadata", md)
		infoNum = w.SetMetadata(md)
	}
	early := flip(c, "metaEarly")
	if early {
		setMeta()
	}
	// images shared between pages
	var shared []placedImage
	for i, n := 0, count(c, "shared", 0, 2, 20); i < n; i++ {
		img := genImage(c)
		var buf bytes.Buffer
		p := placedImage{img: img}
		name := fmt.Sprintf("Shared%d", i)
		var info *write.ImageInfo
		var err error
		if flip(c, "jpeg") {
			jpeg.Encode(&buf, img, nil)
			p.jpg = buf.Bytes()
			if flip(c, "generic") {
				info, err = w.AddImage(held(c, buf.Bytes()), name)
			} else {
				info, err = w.AddJPEGImage(held(c, buf.Bytes()), name)
			}
		} else {
			png.Encode(&buf, img)
			p.img, _ = png.Decode(bytes.NewReader(buf.Bytes()))
			info, err = w.AddImage(held(c, buf.Bytes()), name)
		}
		if err != nil {
			c.Fail("adding image: %v", err)
		}
		if info.Width != img.Bounds().Dx() || info.Height != img.Bounds().Dy() {
			c.Fail("ImageInfo %+v for a %v image", info, img.Bounds())
		}
		p.num, p.res = info.ObjectNum, name
		shared = append(shared, p)
	}
	var pages []docPage
	nPages := count(c, "pages", 0, 6, 50)
	for i := 0; i < nPages; i++ {
		size := pick(c, "size", write.PageSizeA4, write.PageSizeLetter, write.PageSize{Width: 595.276, Height: 841.89}, write.PageSize{Width: 0.5, Height: 14400}, write.PageSize{Width: 100, Height: 50})
		pb := b.AddPage(size)
		pg := docPage{size: size, fonts: map[string]string{}}
		for j, n := 0, num(c, "fonts", 0, 4); j < n; j++ {
			base := pick(c, "font", stdFonts...)
			res := strings.TrimPrefix(pb.AddStandardFont(base), "/")
			if old, ok := pg.fonts[res]; ok && old != base {
				c.Fail("font resource %s stands for %s and %s", res, old, base)
			}
			for r, f := range pg.fonts {
				if f == base && r != res {
					c.Fail("font %s added twice as %s and %s", base, r, res)
				}
			}
			pg.fonts[res] = base
		}
		for _, s := range shared {
			if flip(c, "use") {
				info := &write.ImageInfo{ObjectNum: s.num, Name: pick(c, "iname", s.res, "/"+s.res, "")}
				res := strings.TrimPrefix(pb.AddImage(info), "/")
				for _, o := range pg.images {
					if o.res == res {
						c.Fail("two images share the resource name %s", res)
					}
				}
				s.res = res
				pg.images = append(pg.images, s)
			}
		}
		var want bytes.Buffer
		cs := pb.Content()
		for j, n := 0, count(c, "ops", 0, 6, 150); j < n; j++ {
			genContentCall(c, cs, &want, pg)
		}
		pg.content = want.Bytes()
		b.FinalizePage(pb)
		pages = append(pages, pg)
		plan += fmt.Sprintf(" page %v fonts %d images %d content %d", size, len(pg.fonts), len(pg.images), len(pg.content))
	}
	if !early && flip(c, "metaLate") {
		setMeta()
	}
	var bms []types.Bookmark
	if nPages > 0 && flip(c, "bookmarks") {
		bms = genBookmarks(c, 3, b.Pages())
		c.Keep("bookmarks", bms)
		if err := b.SetBookmarks(bms); err != nil {
			c.Fail("SetBookmarks: %v", err)
		}
		plan += fmt.Sprintf(" %d bookmarks", len(bms))
	}
	out, err := b.Bytes()
	if err != nil {
		c.Fail("Bytes: %v", err)
	}
	c.Emits("out.pdf", out, b.Bytes)
	if again, err := b.Bytes(); err != nil || !bytes.Equal(out, again) {
		c.Fail("building twice gives different bytes: %d and %d", len(out), len(again))
	}
	d := strictDoc(c, out, nil, nil)
	pgs, err := d.Pages()
	if err != nil {
		c.Fail("page tree: %v", err)
	}
	if len(pgs) != nPages {
		c.Fail("%d pages, want %d", len(pgs), nPages)
	}
	nums := b.Pages()
	for i, p := range pgs {
		if p.N != nums[i] {
			c.Fail("page %d is object %d, builder says %d", i+1, p.N, nums[i])
		}
		if err := checkBuiltPage(d, p, pages[i]); err != nil {
			c.Fail("page %d: %v", i+1, err)
		}
	}
	if len(bms) > 0 {
		if err := checkOutline(d, bms, nums); err != nil {
			c.Fail("outline: %v", err)
		}
	} else if cat, _ := d.Catalog(); cat.Has("Outlines") {
		c.Fail("outline without bookmarks")
	}
	if md != nil {
		if r, ok := d.Trailer.Get("Info").(ref.Ref); !ok || r.N != infoNum {
			c.Fail("trailer /Info %v, want %d", d.Trailer.Get("Info"), infoNum)
		}
		if err := checkInfo(d, md); err != nil {
			c.Fail("info: %v", err)
		}
	}
	// the library's own reader sees the same objects
	pdf, err := parse.Open(out)
	if err != nil {
		c.Fail("library reader: %v", err)
	}
	for n := range d.InUse() {
		o, _ := d.Get(n)
		lo, err := libObj(pdf, n)
		if err != nil {
			c.Fail("object %d (library reader): %v", n, err)
		}
		if ref.Canon(o) != ref.Canon(lo) {
			c.Fail("object %d: library reader sees %.200s, strict reader %.200s", n, ref.Canon(lo), ref.Canon(o))
		}
	}
	c.Class(fmt.Sprintf("mode-%d", mode))
	c.ClassIf(len(shared) > 0, "images")
	c.ClassIf(len(bms) > 0, "bookmarks")
	if nPages > 0 {
		c.NT(plan)
	}
}

func checkBuiltPage(d *ref.Doc, p ref.Page, want docPage) error {
	mb, ok := p.D.Get("MediaBox").(ref.Arr)
	f := func(x float64) ref.Obj { return ref.Real(strconv.FormatFloat(x, 'f', -1, 64)) }
	if !ok || ref.Canon(mb) != ref.Canon(ref.Arr{0, 0, f(want.size.Width), f(want.size.Height)}) {
		return fmt.Errorf("MediaBox %v, want %v", p.D.Get("MediaBox"), want.size)
	}
	got, err := d.PageContent(p)
	if err != nil {
		return err
	}
	if !bytes.Equal(got, want.content) {
		return fmt.Errorf("content\n got  %.300q\n want %.300q", got, want.content)
	}
	res, err := d.Dict(p.D.Get("Resources"))
	if err != nil {
		return err
	}
	fonts, _ := d.Dict(res.Get("Font"))
	if len(fonts) != len(want.fonts) {
		return fmt.Errorf("%d fonts, want %d", len(fonts), len(want.fonts))
	}
	for _, kv := range fonts {
		fd, err := d.Dict(kv.V)
		if err != nil {
			return err
		}
		if fd.Get("Type") != ref.Obj(ref.Name("Font")) || fd.Get("BaseFont") != ref.Obj(ref.Name(want.fonts[kv.K])) {
			return fmt.Errorf("font %s is %s, want %s", kv.K, ref.Canon(fd), want.fonts[kv.K])
		}
	}
	xo, _ := d.Dict(res.Get("XObject"))
	if len(xo) != len(want.images) {
		return fmt.Errorf("%d XObjects, want %d", len(xo), len(want.images))
	}
	for _, im := range want.images {
		r, ok := xo.Get(im.res).(ref.Ref)
		if !ok || r.N != im.num {
			return fmt.Errorf("image %s is %v, want object %d", im.res, xo.Get(im.res), im.num)
		}
		if im.jpg == nil {
			if err := checkImage(d, im.num, im.img); err != nil {
				return fmt.Errorf("image %s: %v", im.res, err)
			}
			continue
		}
		o, err := d.Get(im.num)
		if err != nil {
			return err
		}
		s, ok := o.(*ref.Stream)
		if !ok || !bytes.Equal(s.Data, im.jpg) || s.D.Get("Filter") != ref.Obj(ref.Name("DCTDecode")) {
			return fmt.Errorf("JPEG data or filter differ")
		}
		cs := ref.Name("DeviceRGB")
		if cfg, _, err := image.DecodeConfig(bytes.NewReader(im.jpg)); err == nil && cfg.ColorModel == color.GrayModel {
			cs = "DeviceGray"
		}
		b := im.img.Bounds()
		if s.D.Get("Width") != ref.Obj(b.Dx()) || s.D.Get("Height") != ref.Obj(b.Dy()) || s.D.Get("ColorSpace") != ref.Obj(cs) {
			return fmt.Errorf("JPEG dictionary %s for %v %s", ref.Canon(s.D), b, cs)
		}
	}
	return nil
}

// genContentCall makes one content stream call and appends what it must emit.
func genContentCall(c *hx.C, cs *write.ContentStream, want *bytes.Buffer, pg docPage) {
	fl := func() float64 {
		return pick(c, "f", 0, 1, -1.5, 72.25, 1000, 0.3333, -0.0625, 12, 5000.125)
	}
	n4 := func(fs ...float64) string {
		var s []string
		for _, f := range fs {
			s = append(s, fmt.Sprintf("%.4f", f))
		}
		return strings.Join(s, " ")
	}
	lit := func(s string) string {
		var b strings.Builder
		b.WriteByte('(')
		for i := 0; i < len(s); i++ {
			switch s[i] {
			case '(', ')', '\\':
				b.WriteString("\\" + s[i:i+1])
			case '\n':
				b.WriteString("\\n")
			case '\r':
				b.WriteString("\\r")
			case '\t':
				b.WriteString("\\t")
			default:
				b.WriteByte(s[i])
			}
		}
		b.WriteByte(')')
		return b.String()
	}
	text := func() string {
		return pick(c, "txt", "Hello", "a(b)c", "back\\", "(", "))", "", "line\nbreak", "caf\xe9", "é", "tab\t", "ET", "Tj")
	}
	a, b, e, f := fl(), fl(), fl(), fl()
	switch num(c, "call", 0, 21) {
	case 0:
		cs.SaveState()
		want.WriteString("q\n")
	case 1:
		cs.RestoreState()
		want.WriteString("Q\n")
	case 2:
		cs.SetMatrix(a, b, e, f, 1, 2)
		want.WriteString(n4(a, b, e, f, 1, 2) + " cm\n")
	case 3:
		cs.Translate(a, b)
		want.WriteString(n4(1, 0, 0, 1, a, b) + " cm\n")
	case 4:
		cs.Scale(a, b)
		want.WriteString(n4(a, 0, 0, b, 0, 0) + " cm\n")
	case 5:
		cs.SetFillColorRGB(a, b, e)
		want.WriteString(n4(a, b, e) + " rg\n")
	case 6:
		cs.SetStrokeColorRGB(a, b, e)
		want.WriteString(n4(a, b, e) + " RG\n")
	case 7:
		cs.SetFillColorGray(a).SetStrokeColorGray(b)
		want.WriteString(n4(a) + " g\n" + n4(b) + " G\n")
	case 8:
		cs.MoveTo(a, b).LineTo(e, f).Stroke()
		want.WriteString(n4(a, b) + " m\n" + n4(e, f) + " l\nS\n")
	case 9:
		cs.Rectangle(a, b, e, f).Fill()
		want.WriteString(n4(a, b, e, f) + " re\nf\n")
	case 10:
		cs.CurveTo(a, b, e, f, 1, 2).CurveToV(a, b, e, f).CurveToY(a, b, e, f).ClosePath().FillStroke()
		want.WriteString(n4(a, b, e, f, 1, 2) + " c\n" + n4(a, b, e, f) + " v\n" + n4(a, b, e, f) + " y\nh\nB\n")
	case 11:
		cs.ClosePathStroke().SetLineWidth(a)
		want.WriteString("s\n" + n4(a) + " w\n")
	case 12:
		t := text()
		cs.BeginText().SetFont("/F1", a).SetTextPosition(b, e).ShowText(t).EndText()
		want.WriteString("BT\n/F1 " + n4(a) + " Tf\n" + n4(b, e) + " Td\n" + lit(t) + " Tj\nET\n")
	case 13:
		t := text()
		cs.SetTextMatrix(a, b, e, f, 1, 2).ShowTextNextLine(t)
		want.WriteString(n4(a, b, e, f, 1, 2) + " Tm\n" + lit(t) + " '\n")
	case 14:
		t, u := text(), text()
		cs.ShowTextArray(held(c, []interface{}{t, -50, u, 12.5}))
		want.WriteString("[" + lit(t) + " -50 " + lit(u) + " 12.5000] TJ\n")
	case 15:
		cs.ShowTextHex("00410042")
		want.WriteString("<00410042> Tj\n")
	case 16:
		cs.MoveTextPosition(a, b).SetTextRenderMode(3).SetTextLeading(e).NextLine()
		want.WriteString(n4(a, b) + " TD\n3 Tr\n" + n4(e) + " TL\nT*\n")
	case 17:
		cs.SetCharSpacing(a).SetWordSpacing(b).SetTextRise(e)
		want.WriteString(n4(a) + " Tc\n" + n4(b) + " Tw\n" + n4(e) + " Ts\n")
	case 18:
		cs.DrawImageAt("/Im1", a, b, e, f)
		want.WriteString("q\n" + n4(e, 0, 0, f, a, b) + " cm\n/Im1 Do\nQ\n")
	case 19:
		cs.SetLineDash(held(c, []float64{a, b}), e)
		want.WriteString("[" + n4(a, b) + "] " + n4(e) + " d\n")
	case 20:
		r := pick(c, "raw", "q", "1 0 0 rg\n", "% note", "", "/X Do")
		cs.Raw(r)
		want.WriteString(r)
		if r != "" && !strings.HasSuffix(r, "\n") {
			want.WriteByte('\n')
		}
	case 21:
		cs.DrawImage("/Im2")
		want.WriteString("/Im2 Do\n")
	}
}
