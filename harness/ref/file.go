package ref

import (
	"bytes"
	"compress/zlib"
	"fmt"
	"sort"
)

// File assembles a PDF file section by section (original document, then incremental updates).
type File struct {
	buf    bytes.Buffer
	EOL    string
	sec    map[int]Entry // entries of the current section
	Off    map[int]int   // offset of the newest "N G obj" header per directly stored object
	hybrid int           // offset of the stream of a hybrid section
	Decoys bool          // give the stream of a hybrid section entries for objects of the table
	prev   int           // offset of previous xref, -1 if none
	Ends   []int         // offset just past each section's final %%EOF (and EOL)
	Xrefs  []int
	Comp   func(b []byte) []byte // FlateDecode compressor
	Crypt  *Crypt
	IV     func() []byte
}

func Deflate(b []byte) []byte {
	var o bytes.Buffer
	w := zlib.NewWriter(&o)
	w.Write(b)
	w.Close()
	return o.Bytes()
}

func NewFile(version, eol string, bin bool) *File {
	f := &File{EOL: eol, sec: map[int]Entry{}, Off: map[int]int{}, prev: -1, Comp: Deflate}
	f.buf.WriteString("%PDF-" + version + eol)
	if bin {
		f.buf.WriteString("%\xe2\xe3\xcf\xd3" + eol)
	}
	return f
}

func (f *File) Len() int                { return f.buf.Len() }
func (f *File) Raw(s string)            { f.buf.WriteString(s) }
func (f *File) Bytes() []byte           { return append([]byte(nil), f.buf.Bytes()...) }
func (f *File) Free(n, gen int)         { f.sec[n] = Entry{0, 0, gen} }
func (f *File) SetEntry(n int, e Entry) { f.sec[n] = e }

// Freed lists the numbers the current section frees, in ascending order.
func (f *File) Freed() (l []int) {
	for n, e := range f.sec {
		if e.Type == 0 && n != 0 {
			l = append(l, n)
		}
	}
	sort.Ints(l)
	return l
}

// Obj writes an indirect object whose body text is given; it returns the full text from header to endobj.
func (f *File) Obj(n, g int, body []byte) []byte {
	start := f.buf.Len()
	f.sec[n] = Entry{1, start, g}
	f.Off[n] = start
	fmt.Fprintf(&f.buf, "%d %d obj%s", n, g, f.EOL)
	f.buf.Write(body)
	f.buf.WriteString(f.EOL + "endobj")
	end := f.buf.Len()
	f.buf.WriteString(f.EOL)
	return append([]byte(nil), f.buf.Bytes()[start:end]...)
}

// StreamBody renders a stream object's body.
func (f *File) StreamBody(fm Fmt, d Dict, data []byte) []byte {
	eol := f.EOL
	if eol == "\r" {
		eol = "\r\n" // a lone CR may not follow the stream keyword
	}
	if !d.Has("Length") {
		d = append(append(Dict{}, d...), KV{"Length", len(data)})
	}
	var b bytes.Buffer
	fm.Write(&b, d)
	b.WriteString(eol + "stream" + eol)
	b.Write(data)
	b.WriteString(eol + "endstream")
	return b.Bytes()
}

func (f *File) Stream(n, g int, fm Fmt, d Dict, data []byte) []byte {
	if f.Crypt != nil {
		data = f.Crypt.EncStream(d, data, n, g, f.IV())
	}
	return f.Obj(n, g, f.StreamBody(fm, d, data))
}

type Member struct {
	N    int
	Body []byte
}

// ObjStm writes an object stream holding the members.
func (f *File) ObjStm(n int, fm Fmt, ms []Member, compress bool, sep string, extra Dict) {
	var hdr, data bytes.Buffer
	for i, m := range ms {
		if i > 0 {
			hdr.WriteString(sep)
			data.WriteString(sep)
		}
		fmt.Fprintf(&hdr, "%d %d", m.N, data.Len())
		data.Write(m.Body)
		f.sec[m.N] = Entry{2, n, i}
		delete(f.Off, m.N)
	}
	hdr.WriteString(sep)
	first := hdr.Len()
	all := append(hdr.Bytes(), data.Bytes()...)
	d := Dict{{"Type", Name("ObjStm")}, {"N", len(ms)}, {"First", first}}
	d = append(d, extra...)
	if compress {
		all = f.Comp(all)
		d = append(d, KV{"Filter", Name("FlateDecode")})
	}
	f.Stream(n, 0, fm, d, all)
}

func (f *File) tail(x int) {
	f.buf.WriteString("startxref" + f.EOL + fmt.Sprint(x) + f.EOL + "%%EOF" + f.EOL)
	f.Ends = append(f.Ends, f.buf.Len())
	f.Xrefs = append(f.Xrefs, x)
	f.prev = x
	f.sec = map[int]Entry{}
}

func (f *File) runs() [][2]int {
	var ns []int
	for n := range f.sec {
		ns = append(ns, n)
	}
	sort.Ints(ns)
	var rs [][2]int
	for _, n := range ns {
		if len(rs) > 0 && rs[len(rs)-1][0]+rs[len(rs)-1][1] == n {
			rs[len(rs)-1][1]++
		} else {
			rs = append(rs, [2]int{n, 1})
		}
	}
	return rs
}

// EndTable finishes the section with a classic cross-reference table.
func (f *File) EndTable(fm Fmt, trailer Dict) {
	x := f.buf.Len()
	if f.prev < 0 {
		f.sec[0] = Entry{0, 0, 65535}
	}
	f.buf.WriteString("xref" + f.EOL)
	eeol := " " + f.EOL
	if len(f.EOL) == 2 {
		eeol = f.EOL
	}
	for _, r := range f.runs() {
		fmt.Fprintf(&f.buf, "%d %d%s", r[0], r[1], f.EOL)
		for i := 0; i < r[1]; i++ {
			e := f.sec[r[0]+i]
			t := "n"
			if e.Type == 0 {
				t = "f"
			}
			fmt.Fprintf(&f.buf, "%010d %05d %s%s", e.Offset, e.Gen, t, eeol)
		}
	}
	if f.hybrid > 0 {
		trailer = append(append(Dict{}, trailer...), KV{"XRefStm", f.hybrid})
		f.hybrid = 0
	}
	if f.prev >= 0 {
		trailer = append(append(Dict{}, trailer...), KV{"Prev", f.prev})
	}
	f.buf.WriteString("trailer" + f.EOL)
	fm.Write(&f.buf, trailer)
	f.buf.WriteString(f.EOL)
	f.tail(x)
}

// EndHybrid finishes the section with a cross-reference table whose trailer names a
// cross-reference stream holding the entries of the objects in object streams, which the
// table has as free or not at all.
func (f *File) EndHybrid(fm Fmt, trailer Dict, xs XS, listFree bool) {
	all, prev := f.sec, f.prev
	f.sec = map[int]Entry{}
	for n, e := range all {
		if e.Type == 2 {
			f.sec[n] = e
		}
	}
	var hidden []int
	for n := range f.sec {
		hidden = append(hidden, n)
	}
	sort.Ints(hidden)
	if f.Decoys { // entries for objects of the table too, which do not count
		for n, e := range all {
			if e.Type == 1 && n%2 == 0 {
				f.sec[n] = Entry{1, 15, 0}
				if len(hidden) > 0 && n%3 > 0 {
					f.sec[n] = f.sec[hidden[n%len(hidden)]]
				}
			} else if e.Type == 1 {
				f.sec[n] = e
			}
		}
	}
	f.prev = -1
	x := f.buf.Len()
	f.stream(fm, Dict{{"Size", trailer.Get("Size")}}, xs, false)
	f.prev = prev
	for _, n := range hidden {
		delete(all, n)
		if listFree {
			all[n] = Entry{0, 0, 0}
		}
	}
	all[xs.Num] = Entry{1, x, 0}
	f.sec, f.hybrid = all, x
	f.EndTable(fm, trailer)
}

// EndLinear finishes the first section in the layout of linearised files: a table at the
// beginning of the file has the entries of the chosen objects and points forward to the
// main section at the end, a table or, with xs, a stream; startxref names the first one.
func (f *File) EndLinear(fm Fmt, trailer Dict, xs *XS, choose func(n int) bool) {
	first, rest := map[int]Entry{}, map[int]Entry{}
	for n, e := range f.sec {
		if e.Type == 1 && choose(n) {
			first[n] = e
		} else {
			rest[n] = e
		}
	}
	b := f.Bytes()
	head := bytes.Index(b, []byte(f.EOL)) + len(f.EOL)
	if b[head] == '%' {
		head += bytes.Index(b[head:], []byte(f.EOL)) + len(f.EOL)
	}
	table := func(shift, prev int) []byte {
		g := File{EOL: f.EOL, sec: map[int]Entry{}, prev: 0}
		for n, e := range first {
			e.Offset += shift
			g.sec[n] = e
		}
		g.EndTable(fm, append(append(Dict{}, trailer...), KV{"Pad", Str{B: []byte("0000000000")}}))
		t := g.Bytes()
		i := bytes.LastIndex(t, []byte("startxref"))
		t = append(t[:i:i], []byte("startxref"+f.EOL+"0"+f.EOL+"%%EOF"+f.EOL)...)
		// the two entries at the end of the trailer become /Prev of fixed width
		i = bytes.LastIndex(t, []byte("/Pad"))
		j := i + bytes.Index(t[i:], []byte(">>"))
		return append(t[:i:i], append([]byte(fmt.Sprintf("/Prev %-10d", prev)), t[j:]...)...)
	}
	l := len(table(0, 0))
	f.sec = rest
	for n, e := range f.sec {
		if e.Type == 1 {
			e.Offset += l
			f.sec[n] = e
		}
	}
	for n := range f.Off {
		f.Off[n] += l
	}
	f.buf.Reset()
	f.buf.Write(b[:head])
	f.buf.Write(make([]byte, l))
	f.buf.Write(b[head:])
	at := f.buf.Len()
	if xs != nil {
		f.EndStream(fm, trailer, *xs)
	} else {
		f.EndTable(fm, trailer)
	}
	b = f.Bytes()
	copy(b[head:], table(l, at))
	b = b[:bytes.LastIndex(b, []byte("startxref"))]
	f.buf.Reset()
	f.buf.Write(b)
	f.Ends, f.Xrefs = f.Ends[:len(f.Ends)-1], f.Xrefs[:len(f.Xrefs)-1]
	f.tail(head)
}

// XS configures a cross-reference stream.
type XS struct {
	Num      int
	Compress bool
	PredTags []byte // PNG predictor tags, nil for no predictor
	WidePad  int    // extra width of the offset field
	MinLast  int    // least width of the last field, which is 0 when all its values are
	Index    bool   // write /Index even when contiguous from 0
	Untyped  bool   // leave the type field out when every entry is of type 1, its default
}

// EndStream finishes the section with a cross-reference stream.
func (f *File) EndStream(fm Fmt, trailer Dict, xs XS) {
	f.tail(f.stream(fm, trailer, xs, f.prev < 0))
}

func (f *File) stream(fm Fmt, trailer Dict, xs XS, head bool) int {
	x := f.buf.Len()
	if head {
		f.sec[0] = Entry{0, 0, 65535}
	}
	f.sec[xs.Num] = Entry{1, x, 0}
	f.Off[xs.Num] = x
	w1 := 1
	for v := x; v > 255; v >>= 8 {
		w1++
	}
	for _, e := range f.sec {
		n := 1
		for v := e.Offset; v > 255; v >>= 8 {
			n++
		}
		if n > w1 {
			w1 = n
		}
	}
	w1 += xs.WidePad
	w2 := 0
	for _, e := range f.sec {
		n := 0
		if e.Type == 2 {
			n = 1
		}
		for v := e.Gen >> (8 * n); v > 0; v >>= 8 {
			n++
		}
		w2 = max(w2, n)
	}
	w2 = max(w2, xs.MinLast)
	w0 := 1
	if xs.Untyped {
		w0 = 0
		for _, e := range f.sec {
			if e.Type != 1 {
				w0 = 1
			}
		}
	}
	var data []byte
	be := func(v, n int) {
		for i := n - 1; i >= 0; i-- {
			data = append(data, byte(v>>(8*i)))
		}
	}
	rs := f.runs()
	idx := Arr{}
	for _, r := range rs {
		idx = append(idx, r[0], r[1])
		for i := 0; i < r[1]; i++ {
			e := f.sec[r[0]+i]
			be(e.Type, w0)
			be(e.Offset, w1)
			be(e.Gen, w2)
		}
	}
	d := Dict{{"Type", Name("XRef")}, {"W", Arr{w0, w1, w2}}}
	if xs.Index || len(rs) > 1 || rs[0][0] != 0 || dint(trailer, "Size", 0) != rs[0][1] {
		d = append(d, KV{"Index", idx})
	}
	d = append(d, trailer...)
	if f.prev >= 0 {
		d = append(d, KV{"Prev", f.prev})
	}
	if xs.PredTags != nil {
		data = Predict(data, w0+w1+w2, 1, 8, xs.PredTags)
		d = append(d, KV{"DecodeParms", Dict{{"Columns", w0 + w1 + w2}, {"Predictor", 12}}})
	}
	if xs.Compress || xs.PredTags != nil {
		data = f.Comp(data)
		d = append(d, KV{"Filter", Name("FlateDecode")})
	}
	fmt.Fprintf(&f.buf, "%d 0 obj%s", xs.Num, f.EOL)
	f.buf.Write(f.StreamBody(fm, d, data))
	f.buf.WriteString(f.EOL + "endobj" + f.EOL)
	return x
}
