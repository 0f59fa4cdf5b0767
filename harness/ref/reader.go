package ref

import (
	"bytes"
	"compress/zlib"
	"encoding/ascii85"
	"errors"
	"fmt"
	"io"
	"strconv"
)

// Entry is one cross-reference entry.
type Entry struct {
	Type   int // 0 free, 1 offset, 2 in object stream
	Offset int // offset or object stream number
	Gen    int // generation or index
}

type Doc struct {
	B       []byte
	Xref    map[int]Entry
	Trailer Dict
	Version string
	XrefAt  []int // offsets of xref sections, newest first
	cache   map[int]Obj
	ostm    map[int]*objStm
	Crypt   *Crypt // set when the document is encrypted and a key was established
	CryptNo int    // object number of the encryption dictionary (0 if direct)
}

type objStm struct {
	nums []int
	objs []Obj
}

// ReadDoc reads a document strictly: every offset must be exact.
func ReadDoc(b []byte) (*Doc, error) {
	d := &Doc{B: b, Xref: map[int]Entry{}, cache: map[int]Obj{}, ostm: map[int]*objStm{}}
	if !bytes.HasPrefix(b, []byte("%PDF-")) {
		return nil, errors.New("missing %PDF- header")
	}
	i := 5
	for i < len(b) && b[i] != '\n' && b[i] != '\r' {
		i++
	}
	d.Version = string(b[5:i])
	sx := bytes.LastIndex(b, []byte("startxref"))
	if sx < 0 {
		return nil, errors.New("no startxref")
	}
	p := &Parser{B: b, Pos: sx + 9}
	off, err := p.Int()
	if err != nil {
		return nil, fmt.Errorf("startxref: %v", err)
	}
	if err := p.Keyword2("%%EOF"); err != nil {
		return nil, fmt.Errorf("startxref: %v", err)
	}
	seen := map[int]bool{}
	for {
		if seen[off] {
			return nil, errors.New("cross-reference loop")
		}
		seen[off] = true
		d.XrefAt = append(d.XrefAt, off)
		tr, err := d.section(off)
		if err != nil {
			return nil, fmt.Errorf("cross-reference section at %d: %v", off, err)
		}
		if d.Trailer == nil {
			d.Trailer = tr
		}
		prev := tr.Get("Prev")
		if prev == nil {
			break
		}
		n, ok := prev.(int)
		if !ok {
			return nil, fmt.Errorf("bad /Prev %v", prev)
		}
		off = n
	}
	return d, nil
}

// Keyword2 is Keyword without comment skipping (for %%EOF).
func (p *Parser) Keyword2(k string) error {
	for p.Pos < len(p.B) && IsWhite(p.B[p.Pos]) {
		p.Pos++
	}
	if !bytes.HasPrefix(p.B[p.Pos:], []byte(k)) {
		return fmt.Errorf("offset %d: expected %q", p.Pos, k)
	}
	p.Pos += len(k)
	return nil
}

func (d *Doc) put(n int, e Entry) {
	if _, ok := d.Xref[n]; !ok {
		d.Xref[n] = e
	}
}

func (d *Doc) section(off int) (Dict, error) {
	if off < 0 || off >= len(d.B) {
		return nil, errors.New("offset out of range")
	}
	if bytes.HasPrefix(d.B[off:], []byte("xref")) {
		p := &Parser{B: d.B, Pos: off + 4}
		for {
			p.SkipWS()
			if bytes.HasPrefix(p.B[p.Pos:], []byte("trailer")) {
				p.Pos += 7
				break
			}
			start, err := p.Int()
			if err != nil {
				return nil, err
			}
			cnt, err := p.Int()
			if err != nil {
				return nil, err
			}
			// exactly one EOL (optionally preceded by a space)
			for p.Pos < len(p.B) && p.B[p.Pos] == ' ' {
				p.Pos++
			}
			if p.Pos+1 < len(p.B) && p.B[p.Pos] == '\r' && p.B[p.Pos+1] == '\n' {
				p.Pos += 2
			} else if p.Pos < len(p.B) && (p.B[p.Pos] == '\n' || p.B[p.Pos] == '\r') {
				p.Pos++
			} else {
				return nil, fmt.Errorf("offset %d: no EOL after subsection header", p.Pos)
			}
			for i := 0; i < cnt; i++ {
				if p.Pos+20 > len(p.B) {
					return nil, errEOF
				}
				l := p.B[p.Pos : p.Pos+20]
				o, e1 := strconv.Atoi(string(l[0:10]))
				g, e2 := strconv.Atoi(string(l[11:16]))
				if e1 != nil || e2 != nil || l[10] != ' ' || l[16] != ' ' {
					return nil, fmt.Errorf("bad xref entry %q for object %d", l, start+i)
				}
				eol := string(l[18:20])
				if eol != " \n" && eol != " \r" && eol != "\r\n" {
					return nil, fmt.Errorf("bad xref entry EOL %q for object %d", l, start+i)
				}
				switch l[17] {
				case 'n':
					d.put(start+i, Entry{1, o, g})
				case 'f':
					d.put(start+i, Entry{0, o, g})
				default:
					return nil, fmt.Errorf("bad xref entry type %q", l)
				}
				p.Pos += 20
			}
		}
		o, err := p.Object()
		if err != nil {
			return nil, fmt.Errorf("trailer: %v", err)
		}
		tr, ok := o.(Dict)
		if !ok {
			return nil, errors.New("trailer is not a dictionary")
		}
		if x := tr.Get("XRefStm"); x != nil {
			if n, ok := x.(int); ok {
				if _, err := d.section(n); err != nil {
					return nil, fmt.Errorf("XRefStm: %v", err)
				}
			}
		}
		return tr, nil
	}
	_, _, o, _, err := d.indirectAt(off, false)
	if err != nil {
		return nil, err
	}
	s, ok := o.(*Stream)
	if !ok || s.D.Get("Type") != Obj(Name("XRef")) {
		return nil, errors.New("not a cross-reference stream")
	}
	data, err := Decode(s)
	if err != nil {
		return nil, err
	}
	wa, ok := s.D.Get("W").(Arr)
	if !ok || len(wa) != 3 {
		return nil, errors.New("bad /W")
	}
	var w [3]int
	for i := range w {
		n, ok := wa[i].(int)
		if !ok || n < 0 || n > 16 {
			return nil, errors.New("bad /W")
		}
		w[i] = n
	}
	size, ok := s.D.Get("Size").(int)
	if !ok {
		return nil, errors.New("bad /Size")
	}
	idx := []int{0, size}
	if ia, ok := s.D.Get("Index").(Arr); ok {
		idx = nil
		for _, e := range ia {
			n, ok := e.(int)
			if !ok {
				return nil, errors.New("bad /Index")
			}
			idx = append(idx, n)
		}
	}
	pos := 0
	rd := func(n, def int) (int, error) {
		if n == 0 {
			return def, nil
		}
		if pos+n > len(data) {
			return 0, errors.New("cross-reference stream too short")
		}
		v := 0
		for i := 0; i < n; i++ {
			v = v<<8 | int(data[pos+i])
		}
		pos += n
		return v, nil
	}
	for i := 0; i+1 < len(idx); i += 2 {
		for j := 0; j < idx[i+1]; j++ {
			t, err := rd(w[0], 1)
			if err != nil {
				return nil, err
			}
			a, err := rd(w[1], 0)
			if err != nil {
				return nil, err
			}
			g, err := rd(w[2], 0)
			if err != nil {
				return nil, err
			}
			d.put(idx[i]+j, Entry{t, a, g})
		}
	}
	if pos != len(data) {
		return nil, fmt.Errorf("cross-reference stream has %d bytes left over", len(data)-pos)
	}
	return s.D, nil
}

// indirectAt parses "N G obj ... endobj" at off and returns the number, generation, object and end offset.
func (d *Doc) indirectAt(off int, resolveLen bool) (int, int, Obj, int, error) {
	if off < 0 || off >= len(d.B) {
		return 0, 0, nil, 0, fmt.Errorf("offset %d out of range", off)
	}
	if !(d.B[off] >= '0' && d.B[off] <= '9') {
		return 0, 0, nil, 0, fmt.Errorf("no object header at offset %d: %.20q", off, d.B[off:])
	}
	p := &Parser{B: d.B, Pos: off}
	n, err := p.Int()
	if err != nil {
		return 0, 0, nil, 0, err
	}
	g, err := p.Int()
	if err != nil {
		return 0, 0, nil, 0, err
	}
	if err := p.Keyword("obj"); err != nil {
		return 0, 0, nil, 0, err
	}
	o, err := p.Object()
	if err != nil {
		return 0, 0, nil, 0, fmt.Errorf("object %d: %v", n, err)
	}
	p.SkipWS()
	if dict, ok := o.(Dict); ok && bytes.HasPrefix(p.B[p.Pos:], []byte("stream")) {
		p.Pos += 6
		if bytes.HasPrefix(p.B[p.Pos:], []byte("\r\n")) {
			p.Pos += 2
		} else if bytes.HasPrefix(p.B[p.Pos:], []byte("\n")) {
			p.Pos++
		} else {
			return 0, 0, nil, 0, fmt.Errorf("object %d: no EOL after stream keyword", n)
		}
		var ln int
		switch l := dict.Get("Length").(type) {
		case int:
			ln = l
		case Ref:
			lo, err := d.Get(l.N)
			if err != nil {
				return 0, 0, nil, 0, fmt.Errorf("object %d: /Length: %v", n, err)
			}
			v, ok := lo.(int)
			if !ok {
				return 0, 0, nil, 0, fmt.Errorf("object %d: /Length is %v", n, lo)
			}
			ln = v
		default:
			return 0, 0, nil, 0, fmt.Errorf("object %d: stream without /Length", n)
		}
		if ln < 0 || p.Pos+ln > len(p.B) {
			return 0, 0, nil, 0, fmt.Errorf("object %d: /Length %d exceeds file", n, ln)
		}
		data := p.B[p.Pos : p.Pos+ln]
		p.Pos += ln
		if bytes.HasPrefix(p.B[p.Pos:], []byte("\r\n")) {
			p.Pos += 2
		} else if p.Pos < len(p.B) && (p.B[p.Pos] == '\n' || p.B[p.Pos] == '\r') {
			p.Pos++
		}
		if !bytes.HasPrefix(p.B[p.Pos:], []byte("endstream")) {
			return 0, 0, nil, 0, fmt.Errorf("object %d: /Length %d does not lead to endstream", n, ln)
		}
		p.Pos += 9
		o = &Stream{D: dict, Data: data}
	}
	if err := p.Keyword("endobj"); err != nil {
		return 0, 0, nil, 0, fmt.Errorf("object %d: %v", n, err)
	}
	return n, g, o, p.Pos, nil
}

// InUse lists the object numbers in use, including object and xref streams.
func (d *Doc) InUse() map[int]bool {
	m := map[int]bool{}
	for n, e := range d.Xref {
		if e.Type != 0 {
			m[n] = true
		}
	}
	return m
}

// Get returns an object (decrypted when Crypt is set). A missing or free object is an error.
func (d *Doc) Get(n int) (Obj, error) {
	if o, ok := d.cache[n]; ok {
		return o, nil
	}
	e, ok := d.Xref[n]
	if !ok || e.Type == 0 {
		return nil, fmt.Errorf("object %d is not in use", n)
	}
	switch e.Type {
	case 1:
		num, gen, o, _, err := d.indirectAt(e.Offset, true)
		if err != nil {
			return nil, err
		}
		if num != n || gen != e.Gen {
			return nil, fmt.Errorf("entry for object %d %d leads to object %d %d", n, e.Gen, num, gen)
		}
		if d.Crypt != nil && n != d.CryptNo {
			o, err = d.Crypt.Decrypt(o, n, gen)
			if err != nil {
				return nil, fmt.Errorf("object %d: %v", n, err)
			}
		}
		d.cache[n] = o
		return o, nil
	case 2:
		s, ok := d.ostm[e.Offset]
		if !ok {
			o, err := d.Get(e.Offset)
			if err != nil {
				return nil, fmt.Errorf("object stream %d: %v", e.Offset, err)
			}
			st, ok := o.(*Stream)
			if !ok {
				return nil, fmt.Errorf("object stream %d is not a stream", e.Offset)
			}
			s, err = parseObjStm(st)
			if err != nil {
				return nil, fmt.Errorf("object stream %d: %v", e.Offset, err)
			}
			d.ostm[e.Offset] = s
		}
		if e.Gen >= len(s.nums) || s.nums[e.Gen] != n {
			return nil, fmt.Errorf("object %d is not at index %d of object stream %d", n, e.Gen, e.Offset)
		}
		d.cache[n] = s.objs[e.Gen]
		return s.objs[e.Gen], nil
	}
	return nil, fmt.Errorf("unknown entry type %d", e.Type)
}

func parseObjStm(st *Stream) (*objStm, error) {
	if st.D.Get("Type") != Obj(Name("ObjStm")) {
		return nil, errors.New("not /Type /ObjStm")
	}
	data, err := Decode(st)
	if err != nil {
		return nil, err
	}
	n, ok1 := st.D.Get("N").(int)
	first, ok2 := st.D.Get("First").(int)
	if !ok1 || !ok2 || first < 0 || first > len(data) {
		return nil, errors.New("bad /N or /First")
	}
	p := &Parser{B: data[:first]}
	s := &objStm{}
	var offs []int
	for i := 0; i < n; i++ {
		a, err := p.Int()
		if err != nil {
			return nil, err
		}
		b, err := p.Int()
		if err != nil {
			return nil, err
		}
		s.nums = append(s.nums, a)
		offs = append(offs, b)
	}
	for i := range offs {
		if first+offs[i] > len(data) {
			return nil, errors.New("offset beyond object stream")
		}
		q := &Parser{B: data, Pos: first + offs[i]}
		o, err := q.Object()
		if err != nil {
			return nil, fmt.Errorf("object %d: %v", s.nums[i], err)
		}
		s.objs = append(s.objs, o)
	}
	return s, nil
}

// Resolve follows references.
func (d *Doc) Resolve(o Obj) (Obj, error) {
	for i := 0; i < 50; i++ {
		r, ok := o.(Ref)
		if !ok {
			return o, nil
		}
		var err error
		o, err = d.Get(r.N)
		if err != nil {
			return nil, err
		}
	}
	return nil, errors.New("reference chain too long")
}

func (d *Doc) Dict(o Obj) (Dict, error) {
	r, err := d.Resolve(o)
	if err != nil {
		return nil, err
	}
	switch v := r.(type) {
	case Dict:
		return v, nil
	case *Stream:
		return v.D, nil
	}
	return nil, fmt.Errorf("expected a dictionary, found %T", r)
}

// Catalog returns the document catalog.
func (d *Doc) Catalog() (Dict, error) {
	r, ok := d.Trailer.Get("Root").(Ref)
	if !ok {
		return nil, errors.New("no /Root in the newest trailer")
	}
	c, err := d.Dict(r)
	if err != nil {
		return nil, fmt.Errorf("/Root: %v", err)
	}
	if c.Get("Type") != Obj(Name("Catalog")) {
		return nil, fmt.Errorf("/Root is not a catalog: %s", Canon(c))
	}
	return c, nil
}

// Page is a leaf of the page tree with inherited attributes resolved.
type Page struct {
	N    int
	D    Dict
	Attr map[string]Obj
}

// Pages walks the page tree, checking /Type, /Parent and /Count.
func (d *Doc) Pages() ([]Page, error) {
	c, err := d.Catalog()
	if err != nil {
		return nil, err
	}
	root, ok := c.Get("Pages").(Ref)
	if !ok {
		return nil, errors.New("catalog has no /Pages reference")
	}
	seen := map[int]bool{}
	var out []Page
	var walk func(r Ref, parent *Ref, inh map[string]Obj) error
	walk = func(r Ref, parent *Ref, inh map[string]Obj) error {
		if seen[r.N] {
			return fmt.Errorf("page tree node %d reached twice", r.N)
		}
		seen[r.N] = true
		nd, err := d.Dict(r)
		if err != nil {
			return fmt.Errorf("page tree node %d: %v", r.N, err)
		}
		if parent != nil {
			pr, ok := nd.Get("Parent").(Ref)
			if !ok || pr.N != parent.N {
				return fmt.Errorf("page tree node %d has /Parent %v, want %d", r.N, nd.Get("Parent"), parent.N)
			}
		}
		m := map[string]Obj{}
		for k, v := range inh {
			m[k] = v
		}
		for _, k := range []string{"MediaBox", "CropBox", "Rotate", "Resources"} {
			if v := nd.Get(k); v != nil {
				m[k] = v
			}
		}
		switch nd.Get("Type") {
		case Obj(Name("Page")):
			out = append(out, Page{N: r.N, D: nd, Attr: m})
			return nil
		case Obj(Name("Pages")):
			ko, err := d.Resolve(nd.Get("Kids"))
			if err != nil {
				return err
			}
			kids, ok := ko.(Arr)
			if !ok {
				return fmt.Errorf("page tree node %d has no /Kids", r.N)
			}
			before := len(out)
			for _, k := range kids {
				kr, ok := k.(Ref)
				if !ok {
					return fmt.Errorf("page tree node %d: kid %v is not a reference", r.N, k)
				}
				if err := walk(kr, &r, m); err != nil {
					return err
				}
			}
			cnt, ok := nd.Get("Count").(int)
			if !ok || cnt != len(out)-before {
				return fmt.Errorf("page tree node %d has /Count %v but %d leaves", r.N, nd.Get("Count"), len(out)-before)
			}
			return nil
		}
		return fmt.Errorf("page tree node %d has /Type %v", r.N, nd.Get("Type"))
	}
	if err := walk(root, nil, map[string]Obj{}); err != nil {
		return nil, err
	}
	return out, nil
}

// PageContent returns the concatenated decoded content streams of a page.
func (d *Doc) PageContent(p Page) ([]byte, error) {
	o, err := d.Resolve(p.D.Get("Contents"))
	if err != nil {
		return nil, err
	}
	switch v := o.(type) {
	case nil, Null:
		return nil, nil
	case *Stream:
		return Decode(v)
	case Arr:
		var out []byte
		for _, e := range v {
			r, err := d.Resolve(e)
			if err != nil {
				return nil, err
			}
			s, ok := r.(*Stream)
			if !ok {
				return nil, errors.New("content array element is not a stream")
			}
			b, err := Decode(s)
			if err != nil {
				return nil, err
			}
			out = append(out, b...)
			out = append(out, '\n')
		}
		return out, nil
	}
	return nil, fmt.Errorf("bad /Contents %T", o)
}

// Decode applies a stream's filters.
func Decode(s *Stream) ([]byte, error) {
	var fs []Name
	switch f := s.D.Get("Filter").(type) {
	case nil, Null:
	case Name:
		fs = []Name{f}
	case Arr:
		for _, e := range f {
			n, ok := e.(Name)
			if !ok {
				return nil, errors.New("bad /Filter")
			}
			fs = append(fs, n)
		}
	default:
		return nil, errors.New("bad /Filter")
	}
	parms := func(i int) Dict {
		switch p := s.D.Get("DecodeParms").(type) {
		case Dict:
			return p
		case Arr:
			if i < len(p) {
				if d, ok := p[i].(Dict); ok {
					return d
				}
			}
		}
		return nil
	}
	data := s.Data
	for i, f := range fs {
		switch f {
		case "Crypt":
		case "ASCIIHexDecode":
			var err error
			if data, err = unhex(data); err != nil {
				return nil, err
			}
		case "ASCII85Decode":
			var err error
			if data, err = io.ReadAll(ascii85.NewDecoder(bytes.NewReader(bytes.TrimSuffix(bytes.TrimSpace(data), []byte("~>"))))); err != nil {
				return nil, err
			}
		case "RunLengthDecode":
			var out []byte
			for {
				if len(data) == 0 {
					return nil, errors.New("run lengths without an end")
				}
				n := int(data[0])
				data = data[1:]
				if n == 128 {
					break
				}
				if n < 128 {
					if len(data) < n+1 {
						return nil, errors.New("short run")
					}
					out, data = append(out, data[:n+1]...), data[n+1:]
					continue
				}
				if len(data) == 0 {
					return nil, errors.New("short run")
				}
				out, data = append(out, bytes.Repeat(data[:1], 257-n)...), data[1:]
			}
			data = out
		case "FlateDecode":
			zr, err := zlib.NewReader(bytes.NewReader(data))
			if err != nil {
				return nil, err
			}
			data, err = io.ReadAll(zr)
			if err != nil {
				return nil, err
			}
			if pd := parms(i); pd != nil {
				data, err = Unpredict(data, pd)
				if err != nil {
					return nil, err
				}
			}
		default:
			return nil, fmt.Errorf("filter %s not supported by the reference", f)
		}
	}
	return data, nil
}

func dint(d Dict, k string, def int) int {
	if n, ok := d.Get(k).(int); ok {
		return n
	}
	return def
}

// Unpredict undoes a PNG predictor.
func Unpredict(data []byte, pd Dict) ([]byte, error) {
	pr := dint(pd, "Predictor", 1)
	if pr == 1 {
		return data, nil
	}
	if pr < 10 {
		return nil, errors.New("TIFF predictor not supported by the reference")
	}
	cols := dint(pd, "Columns", 1)
	colors := dint(pd, "Colors", 1)
	bpc := dint(pd, "BitsPerComponent", 8)
	bpp := (colors*bpc + 7) / 8
	row := (cols*colors*bpc + 7) / 8
	prev := make([]byte, row)
	var out []byte
	for len(data) > 0 {
		if len(data) < row+1 {
			return nil, errors.New("short predictor row")
		}
		t := data[0]
		cur := append([]byte(nil), data[1:row+1]...)
		data = data[row+1:]
		for i := range cur {
			var a, b, c int
			if i >= bpp {
				a = int(cur[i-bpp])
				c = int(prev[i-bpp])
			}
			b = int(prev[i])
			switch t {
			case 0:
			case 1:
				cur[i] += byte(a)
			case 2:
				cur[i] += byte(b)
			case 3:
				cur[i] += byte((a + b) / 2)
			case 4:
				cur[i] += byte(paeth(a, b, c))
			default:
				return nil, fmt.Errorf("bad predictor tag %d", t)
			}
		}
		out = append(out, cur...)
		prev = cur
	}
	return out, nil
}

func paeth(a, b, c int) int {
	p := a + b - c
	pa, pb, pc := abs(p-a), abs(p-b), abs(p-c)
	if pa <= pb && pa <= pc {
		return a
	}
	if pb <= pc {
		return b
	}
	return c
}
func abs(x int) int {
	if x < 0 {
		return -x
	}
	return x
}

// Predict applies a PNG predictor with the given per-row tags (cycled).
func Predict(data []byte, cols, colors, bpc int, tags []byte) []byte {
	bpp := (colors*bpc + 7) / 8
	row := (cols*colors*bpc + 7) / 8
	prev := make([]byte, row)
	var out []byte
	for r := 0; len(data) > 0; r++ {
		n := row
		cur := make([]byte, row)
		if n > len(data) {
			n = len(data)
		}
		copy(cur, data[:n])
		data = data[n:]
		t := tags[r%len(tags)]
		out = append(out, t)
		for i := range cur {
			var a, b, c int
			if i >= bpp {
				a = int(cur[i-bpp])
				c = int(prev[i-bpp])
			}
			b = int(prev[i])
			v := cur[i]
			switch t {
			case 1:
				v -= byte(a)
			case 2:
				v -= byte(b)
			case 3:
				v -= byte((a + b) / 2)
			case 4:
				v -= byte(paeth(a, b, c))
			}
			out = append(out, v)
		}
		prev = cur
	}
	return out
}

func unhex(b []byte) ([]byte, error) {
	var out []byte
	half := -1
	for _, c := range b {
		v := -1
		switch {
		case c >= '0' && c <= '9':
			v = int(c - '0')
		case c >= 'a' && c <= 'f':
			v = int(c-'a') + 10
		case c >= 'A' && c <= 'F':
			v = int(c-'A') + 10
		case c == '>':
			if half >= 0 {
				out = append(out, byte(half<<4))
			}
			return out, nil
		case c == ' ' || c == '\n' || c == '\r' || c == '\t' || c == 0 || c == 12:
			continue
		default:
			return nil, errors.New("bad hex digit")
		}
		if half < 0 {
			half = v
		} else {
			out = append(out, byte(half<<4|v))
			half = -1
		}
	}
	if half >= 0 {
		out = append(out, byte(half<<4))
	}
	return out, nil
}
