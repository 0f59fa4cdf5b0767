package props

import (
	"bytes"
	"fmt"
	"math"
	"strconv"

	"verif/harness/hx"
	"verif/harness/ref"

	"github.com/benedoc-inc/pdfer/core/manipulate"
	"github.com/benedoc-inc/pdfer/core/parse"
)

// C13: page edits follow the page-list model. C14: extract, split and merge keep every page intact.

func genBox(c *hx.C, f *fd) ref.Obj {
	a := ref.Arr{}
	x, y := num(c, "bx", -20, 50), num(c, "by", -20, 50)
	w, h := num(c, "bw", 10, 900), num(c, "bh", 10, 900)
	for _, v := range []int{x, y, x + w, y + h} {
		switch num(c, "bform", 0, 5) {
		case 4:
			a = append(a, ref.Real(fmt.Sprintf("%d.5", v)))
		case 5:
			a = append(a, f.ind(v))
		default:
			a = append(a, v)
		}
	}
	return f.ind(a)
}

// genPageDoc draws a document whose pages have resources, annotations, links to each other
// and entries of any kind, with a document-level outline, form and names.
func genPageDoc(c *hx.C, tag string, maxPages int) (*fd, []byte) {
	f := newFD(c)
	if oneIn(c, "encrypt", 4) {
		f.user, f.owner = []byte("user"), []byte("owner")
		if f.open = oneIn(c, "openuser", 3); f.open {
			f.user = []byte{}
		}
	}
	np := count(c, "pages", 1, maxPages, 6*maxPages)
	var pool []*ximg
	for i, n := 0, count(c, "imgs", 0, 2, 15); i < n; i++ {
		pool = append(pool, genXImage(c, f))
	}
	var fonts []xfont
	for i, n := 0, count(c, "fonts", 0, 2, 15); i < n; i++ {
		o, info := genXFont(c, f)
		fonts = append(fonts, xfont{o, info})
	}
	// free objects that refer to each other, in cycles too
	var free []ref.Ref
	for i, n := 0, num(c, "free", 0, 4); i < n; i++ {
		free = append(free, f.reserve())
	}
	hi := f.next - 1 // references of drawn values lead to any object so far
	if hi < 1 {
		hi = 1
	}
	genVal := func() ref.Obj { return genObj(c, 2, hi+1) }
	for _, r := range free {
		if flip(c, "freestream") {
			f.set(r, &ref.Stream{D: genDict(c, 2, hi).Without("Type").Without("Length1").With("Tag", ref.Str{B: []byte(tag)}), Data: nastyBytes(c, "fs", 3)})
		} else {
			f.set(r, ref.Dict{{K: "V", V: genVal()}, {K: "Next", V: free[num(c, "fnext", 0, len(free)-1)]}})
		}
	}
	var pageRefs []ref.Ref
	var shared ref.Obj
	rotate := func() ref.Obj {
		v := pick(c, "rot", 0, 90, 180, 270, -90, 360, 450, -270)
		if oneIn(c, "rotreal", 8) {
			return ref.Real(fmt.Sprintf("%d.0", v))
		}
		return f.ind(v)
	}
	// the page tree reserves the page numbers while it is built: annotations are added afterwards
	root, pages := f.pageTree(np, func(i int) (ref.Dict, ref.Dict) {
		own := ref.Dict{}
		marker := fmt.Sprintf("BT /F1 12 Tf (%s page %d) Tj ET", tag, i+1)
		switch num(c, "contents", 0, 4) {
		case 0:
		case 1:
			own = append(own, ref.KV{K: "Contents", V: f.ind(ref.Arr{f.stream(nil, []byte("q")), f.stream(nil, []byte(marker+" Q"))})})
		default:
			own = append(own, ref.KV{K: "Contents", V: f.stream(nil, []byte(marker))})
		}
		for _, k := range []string{"PieceInfo", "UserUnit", "Tabs", "Group", "AA"} {
			if oneIn(c, "has"+k, 5) {
				own = append(own, ref.KV{K: k, V: genVal()})
			}
		}
		if len(free) > 0 && flip(c, "usefree") {
			own = append(own, ref.KV{K: "Metadata", V: free[num(c, "which", 0, len(free)-1)]})
		}
		if shared == nil || !oneIn(c, "shareres", 3) {
			shared = genXRes(c, f, pool, fonts, 3).obj
		}
		inh := ref.Dict{{K: "MediaBox", V: genBox(c, f)}, {K: "Resources", V: shared}}
		if flip(c, "crop") {
			inh = append(inh, ref.KV{K: "CropBox", V: genBox(c, f)})
		}
		if flip(c, "hasrot") {
			inh = append(inh, ref.KV{K: "Rotate", V: rotate()})
		}
		return own, inh
	})
	for _, p := range pages {
		pageRefs = append(pageRefs, p.ref)
	}
	anyPage := func() ref.Ref { return pageRefs[spread(c, "anypage", np)] }
	var fields ref.Arr
	for i := range pages {
		annots := ref.Arr{}
		for j, n := 0, count(c, "annots", 0, 2, 30); j < n; j++ {
			a := ref.Dict{{K: "Type", V: ref.Name("Annot")}, {K: "Rect", V: ref.Arr{0, 0, 10 + j, 20}}}
			if flip(c, "backref") {
				a = append(a, ref.KV{K: "P", V: pageRefs[i]})
			}
			switch num(c, "akind", 0, 3) {
			case 0:
				a = append(a, ref.KV{K: "Subtype", V: ref.Name("Link")}, ref.KV{K: "Dest", V: f.ind(ref.Arr{anyPage(), ref.Name("Fit")})})
			case 1:
				a = append(a, ref.KV{K: "Subtype", V: ref.Name("Link")}, ref.KV{K: "A", V: f.ind(ref.Dict{{K: "S", V: ref.Name("GoTo")}, {K: "D", V: ref.Arr{anyPage(), ref.Name("XYZ"), ref.Null{}, 0, 1}}})})
			case 2:
				a = append(a, ref.KV{K: "Subtype", V: ref.Name("Text")}, ref.KV{K: "Contents", V: ref.Str{B: nastyBytes(c, "note", 2)}}, ref.KV{K: "AP", V: ref.Dict{{K: "N", V: f.stream(ref.Dict{{K: "Subtype", V: ref.Name("Form")}, {K: "BBox", V: ref.Arr{0, 0, 1, 1}}}, []byte("0 g"))}}})
			default:
				w := f.reserve()
				f.set(w, append(a, ref.KV{K: "Subtype", V: ref.Name("Widget")}, ref.KV{K: "FT", V: ref.Name("Tx")}, ref.KV{K: "T", V: ref.Str{B: []byte(fmt.Sprintf("f%d.%d", i, j))}}))
				fields = append(fields, w)
				annots = append(annots, w)
				continue
			}
			annots = append(annots, f.ind(a))
		}
		if len(annots) > 0 {
			d := f.objs[pageRefs[i].N].(ref.Dict)
			f.set(pageRefs[i], append(append(ref.Dict{}, d...), ref.KV{K: "Annots", V: f.ind(annots)}))
		}
	}
	cat := ref.Dict{{K: "Type", V: ref.Name("Catalog")}, {K: "Pages", V: root}}
	if len(fields) > 0 {
		cat = append(cat, ref.KV{K: "AcroForm", V: f.ind(ref.Dict{{K: "Fields", V: fields}})})
	}
	if flip(c, "outline") {
		o, it := f.reserve(), f.reserve()
		f.set(o, ref.Dict{{K: "Type", V: ref.Name("Outlines")}, {K: "First", V: it}, {K: "Last", V: it}, {K: "Count", V: 1}})
		f.set(it, ref.Dict{{K: "Title", V: ref.Str{B: nastyBytes(c, "title", 2)}}, {K: "Parent", V: o}, {K: "Dest", V: ref.Arr{anyPage(), ref.Name("Fit")}}})
		cat = append(cat, ref.KV{K: "Outlines", V: o})
	}
	if flip(c, "misc") {
		cat = append(cat, ref.KV{K: "Misc", V: genVal()})
	}
	f.trailer = ref.Dict{{K: "Root", V: f.add(cat)}}
	if flip(c, "info") {
		f.trailer = append(f.trailer, ref.KV{K: "Info", V: f.add(ref.Dict{{K: "Title", V: ref.Str{B: []byte(tag)}}, {K: "Odd", V: genVal()}})})
	}
	return f, f.emit()
}

// openRef reads a file with the independent reader, unlocked if need be.
func openRef(b, pw []byte) (*ref.Doc, error) {
	d, err := ref.ReadDoc(b)
	if err != nil {
		return nil, err
	}
	if d.Trailer.Get("Encrypt") != nil {
		if _, err := d.Unlock(pw); err != nil {
			return nil, err
		}
	}
	return d, nil
}

// danglingRefs lists the object numbers a file refers to that do not exist in it.
func danglingRefs(d *ref.Doc) (map[int]bool, error) {
	use := d.InUse()
	out := map[int]bool{}
	var walk func(o ref.Obj)
	walk = func(o ref.Obj) {
		switch v := o.(type) {
		case ref.Ref:
			if !use[v.N] {
				out[v.N] = true
			}
		case ref.Arr:
			for _, e := range v {
				walk(e)
			}
		case ref.Dict:
			for _, e := range v {
				walk(e.V)
			}
		case *ref.Stream:
			walk(v.D)
		}
	}
	for n := range use {
		o, err := d.Get(n)
		if err != nil {
			return nil, err
		}
		walk(o)
	}
	return out, nil
}

// rotation is the effective rotation of a page, normalised.
func rotation(d *ref.Doc, o ref.Obj) (int, error) {
	o, err := d.Resolve(o)
	if err != nil {
		return 0, err
	}
	n := 0
	switch v := o.(type) {
	case nil, ref.Null:
	case int:
		n = v
	case ref.Real:
		x, err := strconv.ParseFloat(string(v), 64)
		if err != nil || x != math.Trunc(x) {
			return 0, fmt.Errorf("bad /Rotate %s", v)
		}
		n = int(x)
	default:
		return 0, fmt.Errorf("bad /Rotate %s", ref.Canon(o))
	}
	return ((n % 360) + 360) % 360, nil
}

// mpage is a page of the list model.
type mpage struct {
	n       int
	attr    map[string]ref.Obj // nil: an inserted page
	d       ref.Dict
	rot     int
	rotated bool
}

type pageModel struct {
	src   *ref.Doc
	pages []mpage
	gone  map[int]bool // deleted pages, by object number
	new   map[int]bool // inserted objects
	nodes map[int]bool // page tree nodes of the source
	dang  map[int]bool
	log   string
}

func newPageModel(c *hx.C, b, pw []byte) *pageModel {
	d, err := openRef(b, pw)
	if err != nil {
		c.Fail("harness: the generated file: %v", err)
	}
	ps, err := d.Pages()
	if err != nil {
		c.Fail("harness: the generated file: %v", err)
	}
	m := &pageModel{src: d, gone: map[int]bool{}, new: map[int]bool{}, nodes: map[int]bool{}}
	for _, p := range ps {
		rot, err := rotation(d, p.Attr["Rotate"])
		if err != nil {
			c.Fail("harness: %v", err)
		}
		m.pages = append(m.pages, mpage{n: p.N, attr: p.Attr, d: p.D, rot: rot})
	}
	for n := range d.InUse() {
		o, err := d.Get(n)
		if err != nil {
			c.Fail("harness: object %d: %v", n, err)
		}
		if dd, ok := o.(ref.Dict); ok && dd.Get("Type") == ref.Obj(ref.Name("Pages")) && dd.Has("Kids") {
			m.nodes[n] = true
		}
	}
	m.dang, err = danglingRefs(d)
	if err != nil {
		c.Fail("harness: %v", err)
	}
	return m
}

func (m *pageModel) page(n int) *mpage {
	for i := range m.pages {
		if m.pages[i].n == n {
			return &m.pages[i]
		}
	}
	return nil
}

// check compares a rebuilt file with the model.
func (m *pageModel) check(b []byte, pw []byte) error {
	ok := map[int]bool{}
	for n := range m.dang {
		ok[n] = true
	}
	for n := range m.gone {
		ok[n] = true
	}
	if m.src.Crypt == nil {
		pw = nil
	}
	d, err := strictErr(b, pw, ok)
	if err != nil {
		return fmt.Errorf("strict reader: %v", err)
	}
	if (d.Trailer.Get("Encrypt") != nil) != (m.src.Trailer.Get("Encrypt") != nil) {
		return fmt.Errorf("encryption changed")
	}
	if d.Version != m.src.Version {
		return fmt.Errorf("version %s, was %s", d.Version, m.src.Version)
	}
	ps, err := d.Pages()
	if err != nil {
		return fmt.Errorf("page tree: %v", err)
	}
	if len(ps) != len(m.pages) {
		return fmt.Errorf("%d pages, want %d", len(ps), len(m.pages))
	}
	z := zeroGen
	for i, p := range ps {
		want := m.pages[i]
		if p.N != want.n {
			return fmt.Errorf("page %d is object %d, want object %d", i+1, p.N, want.n)
		}
		rot, err := rotation(d, p.Attr["Rotate"])
		if err != nil || rot != want.rot {
			return fmt.Errorf("page %d: rotation %d, want %d (%v)", i+1, rot, want.rot, err)
		}
		a, b := z(p.D.Without("Parent")).(ref.Dict), z(want.d.Without("Parent")).(ref.Dict)
		if want.rotated {
			a, b = a.Without("Rotate"), b.Without("Rotate")
		}
		if ref.Canon(a) != ref.Canon(b) {
			return fmt.Errorf("page %d: entries %s, want %s", i+1, ref.Canon(a), ref.Canon(b))
		}
		if want.attr != nil {
			for _, k := range []string{"MediaBox", "CropBox", "Resources"} {
				if canonOrNone(z(p.Attr[k])) != canonOrNone(z(want.attr[k])) {
					return fmt.Errorf("page %d: %s is %s, want %s", i+1, k, canonOrNone(p.Attr[k]), canonOrNone(want.attr[k]))
				}
			}
		}
	}
	for n := range m.src.InUse() {
		if m.gone[n] || m.new[n] || m.page(n) != nil || n == m.src.CryptNo && m.src.Crypt != nil {
			continue
		}
		o, err := m.src.Get(n)
		if err != nil {
			return err
		}
		if st, ok := o.(*ref.Stream); ok && (st.D.Get("Type") == ref.Obj(ref.Name("ObjStm")) || st.D.Get("Type") == ref.Obj(ref.Name("XRef"))) {
			continue
		}
		got, err := d.Get(n)
		if m.nodes[n] {
			if err != nil {
				continue // a node without pages may go
			}
			a, aok := o.(ref.Dict)
			b, bok := got.(ref.Dict)
			if !aok || !bok {
				return fmt.Errorf("page tree node %d became %s", n, ref.Canon(got))
			}
			o, got = a.Without("Kids").Without("Count"), b.Without("Kids").Without("Count")
		}
		if err != nil {
			return fmt.Errorf("object %d is gone: %v", n, err)
		}
		if err := sameWhole(z(o), z(got)); err != nil {
			return fmt.Errorf("object %d: %v", n, err)
		}
	}
	for _, k := range []string{"Root", "Info"} {
		if canonOrNone(z(d.Trailer.Get(k))) != canonOrNone(z(m.src.Trailer.Get(k))) {
			return fmt.Errorf("trailer /%s is %v, want %v", k, d.Trailer.Get(k), m.src.Trailer.Get(k))
		}
	}
	return nil
}

func canonOrNone(o ref.Obj) string {
	if o == nil {
		return "none"
	}
	return ref.Canon(o)
}

// zeroGen sets the generations of references to 0.
func zeroGen(o ref.Obj) ref.Obj {
	switch v := o.(type) {
	case ref.Ref:
		return ref.Ref{N: v.N}
	case ref.Arr:
		out := ref.Arr{}
		for _, e := range v {
			out = append(out, zeroGen(e))
		}
		return out
	case ref.Dict:
		out := ref.Dict{}
		for _, e := range v {
			out = append(out, ref.KV{K: e.K, V: zeroGen(e.V)})
		}
		return out
	case *ref.Stream:
		return &ref.Stream{D: zeroGen(v.D).(ref.Dict), Data: v.Data}
	}
	return o
}

// sameWhole compares two objects, streams with their data and entries but /Length.
func sameWhole(want, got ref.Obj) error {
	ws, ok := want.(*ref.Stream)
	if !ok {
		if ref.Canon(want) != ref.Canon(got) {
			return fmt.Errorf("%s, want %s", ref.Canon(got), ref.Canon(want))
		}
		return nil
	}
	gs, ok := got.(*ref.Stream)
	if !ok {
		return fmt.Errorf("%s, want a stream", ref.Canon(got))
	}
	if a, b := ref.Canon(gs.D.Without("Length")), ref.Canon(ws.D.Without("Length")); a != b {
		return fmt.Errorf("stream dictionary %s, want %s", a, b)
	}
	if !bytes.Equal(ws.Data, gs.Data) {
		return fmt.Errorf("stream data %.80q (%d bytes), want %.80q (%d bytes)", gs.Data, len(gs.Data), ws.Data, len(ws.Data))
	}
	return nil
}

// edit draws and applies one operation to the library and to the model.
func (m *pageModel) edit(c *hx.C, mp *manipulate.PDFManipulator) {
	n := len(m.pages)
	wantErr := func(what string, bad bool, err error) {
		if (err != nil) != bad {
			c.Fail("%s with %d pages: error %v, want an error: %v\nhistory:%s", what, n, err, bad, m.log)
		}
		m.log += " " + what
		c.ClassIf(bad, "refused edit")
	}
	pos := func() int { // mostly in range
		if oneIn(c, "out", 6) {
			return pick(c, "outpos", 0, -1, n+1, n+7, -1<<31)
		}
		return 1 + spread(c, "pos", n)
	}
	rotate := func(p *mpage, a int) {
		p.rot = (p.rot + a) % 360
		p.rotated = true
	}
	angle := pick(c, "angle", 90, 180, 270, 90, 270, 180, 0, 45, -90, 360, 450)
	okAngle := angle == 90 || angle == 180 || angle == 270
	switch op := num(c, "op", 0, 9); {
	case op < 3:
		p := pos()
		err := mp.RotatePage(p, angle)
		bad := p < 1 || p > n || !okAngle
		wantErr(fmt.Sprintf("RotatePage(%d,%d)", p, angle), bad, err)
		if !bad {
			rotate(&m.pages[p-1], angle)
		}
	case op == 3:
		err := mp.RotateAllPages(angle)
		wantErr(fmt.Sprintf("RotateAllPages(%d)", angle), !okAngle, err)
		if okAngle {
			for i := range m.pages {
				rotate(&m.pages[i], angle)
			}
		}
	case op < 6:
		p := pos()
		err := mp.DeletePage(p)
		bad := p < 1 || p > n || n == 1
		wantErr(fmt.Sprintf("DeletePage(%d)", p), bad, err)
		if !bad {
			m.remove(map[int]bool{p: true})
		}
	case op == 6:
		var list []int
		set := map[int]bool{}
		bad := false
		for i, k := 0, num(c, "dn", 0, 4); i < k; i++ {
			p := pos()
			list = append(list, p)
			set[p] = true
			bad = bad || p < 1 || p > n
		}
		bad = bad || len(set) == n
		keep := append([]int(nil), list...)
		err := mp.DeletePages(held(c, list))
		if fmt.Sprint(keep) != fmt.Sprint(list) {
			c.Fail("DeletePages changed its argument %v to %v", keep, list)
		}
		wantErr(fmt.Sprintf("DeletePages(%v)", list), bad, err)
		if !bad {
			m.remove(set)
		}
	default:
		p := 1 + spread(c, "inspos", n+1)
		if oneIn(c, "insout", 6) {
			p = pick(c, "insoutpos", 0, -1, n+2, n+9)
		}
		use := m.src.InUse()
		num1 := 1000 + len(m.log)
		bad := p < 0 || p > n+1
		switch num(c, "insnum", 0, 6) {
		case 5: // the number of a deleted page
			for _, g := range sortedKeys(m.gone) {
				if m.page(g) == nil {
					num1 = g
				}
			}
		case 6: // a number that is taken
			var taken []int
			for _, k := range sortedKeys(use) {
				o, _ := m.src.Get(k)
				st, ok := o.(*ref.Stream)
				if ok && (st.D.Get("Type") == ref.Obj(ref.Name("ObjStm")) || st.D.Get("Type") == ref.Obj(ref.Name("XRef"))) || m.gone[k] || k == m.src.CryptNo && m.src.Crypt != nil {
					continue
				}
				// an unused page object, deleted by nobody, may be replaced
				if dd, ok := o.(ref.Dict); ok && dd.Get("Type") == ref.Obj(ref.Name("Page")) && m.page(k) == nil {
					continue
				}
				taken = append(taken, k)
			}
			for _, g := range m.pages {
				taken = append(taken, g.n)
			}
			num1, bad = taken[spread(c, "taken", len(taken))], true
		}
		rot := pick(c, "insrot", 0, 90, 180, 270)
		d := ref.Dict{{K: "Type", V: ref.Name("Page")}, {K: "Rotate", V: rot}}
		if !oneIn(c, "nobox", 4) {
			d = append(d, ref.KV{K: "MediaBox", V: ref.Arr{0, 0, num(c, "mw", 1, 900), 100}})
		}
		if ps := m.pages; flip(c, "insres") {
			o := ps[0].d.Get("Resources")
			if o == nil {
				o = ref.Dict{}
			}
			d = append(d, ref.KV{K: "Resources", V: o})
			if o := ps[0].d.Get("Contents"); o != nil {
				d = append(d, ref.KV{K: "Contents", V: o})
			}
		}
		if flip(c, "insextra") {
			d = append(d, ref.KV{K: "PieceInfo", V: genNoRefs(c, 2)})
		}
		content := d
		if flip(c, "foreignparent") {
			content = append(append(ref.Dict{}, d...), ref.KV{K: "Parent", V: ref.Ref{N: num(c, "fp", 1, 9999)}})
		}
		text := genFmt(c).Bytes(content)
		switch num(c, "wrap", 0, 2) {
		case 1:
			text = []byte(fmt.Sprintf("%d 0 obj\n%s\nendobj\n", num(c, "wn", 1, 99), text))
		case 2:
			text = []byte(fmt.Sprintf("\n %s \n", text))
		}
		same := guard(text)
		err := mp.InsertPage(p, num1, held(c, text))
		if !same() {
			c.Fail("InsertPage changed its argument")
		}
		wantErr(fmt.Sprintf("InsertPage(%d,%d,%s)", p, num1, text), bad, err)
		if !bad {
			if p == 0 {
				p = n + 1
			}
			np := mpage{n: num1, d: d, rot: rot}
			m.pages = append(m.pages[:p-1:p-1], append([]mpage{np}, m.pages[p-1:]...)...)
			m.new[num1] = true
		}
	}
}

// genNoRefs draws a value without references.
func genNoRefs(c *hx.C, depth int) ref.Obj {
	var strip func(o ref.Obj) ref.Obj
	strip = func(o ref.Obj) ref.Obj {
		switch v := o.(type) {
		case ref.Ref:
			return v.N
		case ref.Arr:
			out := ref.Arr{}
			for _, e := range v {
				out = append(out, strip(e))
			}
			return out
		case ref.Dict:
			out := ref.Dict{}
			for _, e := range v {
				out = append(out, ref.KV{K: e.K, V: strip(e.V)})
			}
			return out
		}
		return o
	}
	return strip(genObj(c, depth, 9))
}

func (m *pageModel) remove(set map[int]bool) {
	var keep []mpage
	for i, p := range m.pages {
		if set[i+1] {
			m.gone[p.n] = true
			continue
		}
		keep = append(keep, p)
	}
	m.pages = keep
}

func init() {
	hx.Reg("C13", "histories", 2500, "documents of 1-8 pages (any page tree, inherited attributes, annotations and links between pages, outline, form, cyclic objects, encrypted or not, any file form) edited by 1-10 rotations, deletions and insertions, in and out of range, rebuilt in between and at the end: pages, attributes, every other object compared by an independent reader with a list model; non-trivial: 2+ accepted edits of different kinds, keyed by the history and file",
		func(c *hx.C) {
			f, b := genPageDoc(c, "doc", 8)
			c.Dump("in.pdf", b)
			pw := f.user
			if pw != nil && flip(c, "byowner") {
				pw = f.owner
			}
			same := guard(b)
			m := newPageModel(c, b, pw)
			mp, err := manipulate.NewPDFManipulator(b, pw, false)
			if err != nil {
				c.Fail("NewPDFManipulator: %v", err)
			}
			n := count(c, "edits", 1, 10, 40)
			before := len(m.pages)
			for i := 0; i < n; i++ {
				m.edit(c, mp)
				if i == n-1 || oneIn(c, "rebuild", 4) {
					out, err := mp.Rebuild()
					if err != nil {
						c.Fail("Rebuild: %v\nhistory:%s", err, m.log)
					}
					if c.Repeated() {
						c.Emits("rebuilt.pdf", out, mp.Rebuild)
					}
					if err := m.check(out, pw); err != nil {
						c.Dump("out.pdf", out)
						c.Fail("%v\nhistory:%s", err, m.log)
					}
					if i == n-1 {
						if pdf, err := parse.OpenWithOptions(out, parse.ParseOptions{Password: pw}); err != nil || pdf.IsEncrypted() != (f.user != nil) {
							c.Fail("the rebuilt document does not open: %v", err)
						}
						if f.user != nil {
							checkRejects(c, out, []byte("wrong"))
						}
					}
				}
			}
			if !same() {
				c.Fail("the input was changed")
			}
			kinds := 0
			for _, k := range []bool{len(m.gone) > 0, len(m.new) > 0, anyRotated(m.pages)} {
				if k {
					kinds++
				}
			}
			c.ClassIf(len(m.gone) > 0, "deletion")
			c.ClassIf(len(m.new) > 0, "insertion")
			c.ClassIf(anyRotated(m.pages), "rotation")
			c.ClassIf(f.user != nil, "encrypted")
			if kinds > 1 {
				c.NT(fmt.Sprintf("%d pages %s hash %x:%.200s", before, f.form, fnvb(b), m.log))
			}
		})
}

func anyRotated(ps []mpage) bool {
	for _, p := range ps {
		if p.rotated {
			return true
		}
	}
	return false
}
