package props

import (
	"encoding/json"
	"encoding/xml"
	"fmt"
	"math"
	"reflect"
	"slices"
	"sort"
	"strings"
	"unicode"
	"unicode/utf16"

	"verif/harness/hx"
	"verif/harness/ref"

	"github.com/benedoc-inc/pdfer/core/compare"
	"github.com/benedoc-inc/pdfer/types"
)

// C15: comparison reports exactly the differences present.
//
// A pair of documents is a pair of models; the second is a rewrite, an edit or a stranger of the first.
// Everything on a page lives in cells far enough apart that elements of different cells never match by
// position, with at most one thing of a kind (perhaps repeated) in each cell.

const cellW, cellH, cellCols, cellRows = 150, 150, 4, 5

type qtext struct {
	s      string // characters of WinAnsiEncoding
	font   int
	size   float64
	dx, dy float64
	n      int // how often it is shown, one over the other
}

type qgraphic struct {
	kind   int // 0 rectangle, 1 line, 2 curve, 3 triangle, 4 open triangle, 5 and 6 shapes with the bounds of 2 and 3
	size   float64
	paint  int // 0 stroke, 1 fill, 2 both
	col    int // of the filling
	stroke int // color of the line
	width  int
	cap    int
	join   int
	miter  int
	dx, dy float64
	n      int
}

type qimage struct {
	name   string
	data   int // index into the pool
	size   float64
	h      float64
	dx, dy float64
}

type qannot struct {
	kind     int
	contents string
	title    string
	uri      string
	col      int
	open     bool
	w        float64
	up       float64
	icon     string
	subject  string
	border   int
	quads    int
}

type qpage struct {
	w, h   float64
	rot    int
	texts  map[int]qtext
	graph  map[int]qgraphic
	images map[int]qimage
	annots map[int]qannot
	order  []int // of the cells in the content
}

type qfield struct {
	ft    string // Tx, Ch or Btn
	multi bool
	val   []string // nil: no value
}

type qbook struct {
	title string
	page  int // 0: uri or name
	view  int // of the page
	uri   string
	name  string // of a destination
	kids  []qbook
}

type qdoc struct {
	version string
	info    map[string]string
	pages   []qpage
	books   []qbook
	fields  map[string]qfield
	user    []byte
	xfa     bool // the form is an XFA form
}

// form returns what kind of form the document has and the fields it holds.
func (d *qdoc) form() (string, map[string]qfield) {
	if !d.xfa {
		if len(d.fields) == 0 {
			return "", nil
		}
		return "acroform", d.fields
	}
	fields := map[string]qfield{}
	for n, f := range d.fields {
		// a data set holds texts under element names
		if f.val != nil && !f.multi && !strings.Contains(n, " ") && !slices.Contains([]string{"", "true", "1"}, f.val[0]) {
			fields[n] = f
		}
	}
	return "xfa", fields
}

var (
	cTexts  = []string{"alpha", "Alpha", "ALPHA", "alpha beta", "alphabeta", "alpha  beta", "alpha, beta", "beta", "Été", "été", "x", "y1", "a.b", "a-b", "the quick brown fox jumps", "the quick brown fox jumpt", "1", "2", "(paren)", "back\\slash"}
	cSizes  = []float64{8, 12, 12.5, 24}
	cFonts  = []string{"Helvetica", "Times-Roman", "Courier"}
	cColors = []string{"1 0 0", "0 0 1", "0.5 0.5 0.5"}
	// 0 stands for no entry
	cBorders = []ref.Arr{nil, {0, 0, 0}, {0, 0, 2}, {0, 0, 3}, {0, 0, 2, ref.Arr{3}}, {0, 0, 2, ref.Arr{3, 2}}, {0, 0, 2, ref.Arr{2, 3}}}
	cFields  = []string{"name", "Name", "address", "a b", "opts", "zip", "z", "flag"}
	cFldVals = []string{"", "x", "y", "a b", "a", "b", "true", "1", "émile", "(x", "\\"}
)

func cText(c *hx.C) qtext {
	return qtext{pick(c, "t", cTexts...), num(c, "tf", 0, len(cFonts)-1), pick(c, "ts", cSizes...), float64(num(c, "tdx", 0, 9)), float64(num(c, "tdy", 0, 9)), []int{1, 1, 1, 2, 3}[num(c, "tn", 0, 4)]}
}

func cGraphic(c *hx.C) qgraphic {
	return qgraphic{num(c, "gk", 0, 6), pick(c, "gs", 12.0, 70), num(c, "gp", 0, 2), num(c, "gc", 0, len(cColors)-1), num(c, "gsc", 0, len(cColors)-1), num(c, "gw", 1, 3), num(c, "gcap", 0, 1), num(c, "gjoin", 0, 2), pick(c, "gmiter", 10, 10, 4), float64(num(c, "gdx", 0, 9)), float64(num(c, "gdy", 0, 9)), []int{1, 1, 1, 2, 3}[num(c, "gn", 0, 4)]}
}

func cImage(c *hx.C, pool int) qimage {
	return qimage{fmt.Sprintf("Im%d", num(c, "in", 1, 3)), num(c, "id", 0, pool-1), pick(c, "is", 20.0, 60), pick(c, "ih", 20.0, 60), float64(num(c, "idx", 0, 9)), float64(num(c, "idy", 0, 9))}
}

func cAnnot(c *hx.C) qannot {
	return qannot{num(c, "ak", 0, 5), pick(c, "ac", "", "note", "Note", "other (text)"), pick(c, "at", "", "me", "you"), pick(c, "au", "http://a/", "http://b/?(x)"), num(c, "acol", 0, len(cColors)), flip(c, "aopen"), pick(c, "aw", 20.0, 20.5, 40), pick(c, "aup", 0, 0, 0.5, 5), pick(c, "aicon", "Note", "Comment", ""), pick(c, "asub", "", "", "one", "two"), []int{0, 0, 0, 1, 2, 3, 4, 5, 6}[num(c, "aborder", 0, 8)], num(c, "aquads", 0, 3)}
}

func cField(c *hx.C) qfield {
	f := qfield{ft: pick(c, "fft", "Tx", "Tx", "Ch")}
	if f.ft == "Ch" {
		f.multi = flip(c, "fmulti")
	}
	if !oneIn(c, "fnoval", 4) {
		f.val = []string{pick(c, "fv", cFldVals...)}
		if f.multi {
			for i, n := 0, num(c, "fvn", 0, 2); i < n; i++ {
				f.val = append(f.val, pick(c, "fv", cFldVals...))
			}
		}
	}
	return f
}

func cBooks(c *hx.C, pages, depth int) []qbook {
	var out []qbook
	for i, n := 0, count(c, "cbn", 0, 3, 30); i < n; i++ {
		b := qbook{title: pick(c, "cbt", "One", "one", "Two", "Třetí")}
		b.aim(c, pages)
		if depth > 0 && oneIn(c, "cbkids", 3) {
			b.kids = cBooks(c, pages, depth-1)
		}
		out = append(out, b)
	}
	return out
}

// aim draws where the bookmark leads.
func (b *qbook) aim(c *hx.C, pages int) {
	b.page, b.view, b.uri, b.name = 0, 0, "", ""
	switch num(c, "cburi", 0, 6) {
	case 0, 1:
		b.uri = pick(c, "cbu", "http://a/", "http://b/")
	case 2:
		b.name = pick(c, "cbname", "here", "there")
	default:
		b.page, b.view = num(c, "cbp", 1, pages), num(c, "cbview", 0, len(cViews)-1)
	}
}

var cViews = []ref.Arr{{ref.Name("Fit")}, {ref.Name("Fit")}, {ref.Name("FitB")}, {ref.Name("XYZ"), 10, 20, ref.Null{}}, {ref.Name("XYZ"), 10, 21, ref.Null{}}, {ref.Name("FitH"), 700}, {ref.Name("FitV"), 700}}

// editBooks returns a copy of an outline with one change, perhaps deep inside.
func editBooks(c *hx.C, bs []qbook, pages int) []qbook {
	bs = slices.Clone(bs)
	i := num(c, "ebat", 0, len(bs)-1)
	b := &bs[i]
	if len(b.kids) > 0 && !oneIn(c, "ebhere", 4) {
		b.kids = editBooks(c, b.kids, pages)
		return bs
	}
	switch num(c, "ebhow", 0, 6) {
	case 0:
		b.title = pick(c, "cbt", "One", "one", "Two", "Třetí")
	case 1:
		b.aim(c, pages)
	case 2:
		if b.page > 0 {
			b.view = num(c, "cbview", 0, len(cViews)-1)
		}
	case 3:
		if b.page > 0 {
			b.page = num(c, "cbp", 1, pages)
		}
	case 4:
		b.kids = append(slices.Clone(b.kids), qbook{title: "Two", page: 1})
	case 5:
		b.kids = nil
	case 6:
		if i > 0 {
			bs[i-1], bs[i] = bs[i], bs[i-1]
		}
	}
	return bs
}

func cPage(c *hx.C, pool int) qpage {
	p := qpage{w: pick(c, "pw", 612.0, 600, 595.28), h: pick(c, "ph", 792.0, 842), rot: 90 * num(c, "prot", 0, 3), texts: map[int]qtext{}, graph: map[int]qgraphic{}, images: map[int]qimage{}, annots: map[int]qannot{}}
	for i := 0; i < cellCols*cellRows; i++ {
		p.order = append(p.order, i)
	}
	cell := func() int { return num(c, "cell", 0, cellCols*cellRows-1) }
	for i, n := 0, count(c, "pt", 0, 7, 60); i < n; i++ {
		p.texts[cell()] = cText(c)
	}
	for i, n := 0, count(c, "pg", 0, 4, 40); i < n; i++ {
		p.graph[cell()] = cGraphic(c)
	}
	for i, n := 0, count(c, "pi", 0, 3, 15); i < n; i++ {
		p.setImage(cell(), cImage(c, pool))
	}
	for i, n := 0, count(c, "pa", 0, 3, 30); i < n; i++ {
		p.annots[cell()] = cAnnot(c)
	}
	return p
}

// setImage places an image; a name stands for one image on a page.
func (p qpage) setImage(cell int, im qimage) {
	delete(p.images, cell)
	for k, o := range p.images {
		if o.name == im.name {
			o.data = im.data
			p.images[k] = o
		}
	}
	p.images[cell] = im
}

func (p qpage) clone() qpage {
	q := p
	q.texts, q.graph, q.images, q.annots = map[int]qtext{}, map[int]qgraphic{}, map[int]qimage{}, map[int]qannot{}
	for k, v := range p.texts {
		q.texts[k] = v
	}
	for k, v := range p.graph {
		q.graph[k] = v
	}
	for k, v := range p.images {
		q.images[k] = v
	}
	for k, v := range p.annots {
		q.annots[k] = v
	}
	q.order = append([]int(nil), p.order...)
	return q
}

func (d *qdoc) clone() *qdoc {
	q := *d
	q.info, q.fields = map[string]string{}, map[string]qfield{}
	for k, v := range d.info {
		q.info[k] = v
	}
	for k, v := range d.fields {
		q.fields[k] = v
	}
	q.pages = nil
	for _, p := range d.pages {
		q.pages = append(q.pages, p.clone())
	}
	q.books = append([]qbook(nil), d.books...)
	return &q
}

var cInfoKeys = []string{"Title", "Author", "Subject", "Keywords", "Creator", "Producer", "CreationDate", "ModDate", "Company"}

func cDoc(c *hx.C, pool int) *qdoc {
	d := &qdoc{version: pick(c, "cver", "1.4", "1.7"), info: map[string]string{}, fields: map[string]qfield{}}
	for _, k := range cInfoKeys {
		if oneIn(c, "ci"+k, 3) {
			d.info[k] = pick(c, "civ", "A", "a", "B", "Žluť", "(x)")
		}
	}
	n := count(c, "cpages", 1, 3, 15)
	for i := 0; i < n; i++ {
		d.pages = append(d.pages, cPage(c, pool))
	}
	if flip(c, "cbooks") {
		d.books = cBooks(c, n, 2)
	}
	if flip(c, "cform") {
		for i, n := 0, count(c, "cfn", 1, 4, 40); i < n; i++ {
			d.fields[pick(c, "cfname", cFields...)] = cField(c)
		}
	}
	d.xfa = oneIn(c, "cxfa", 6)
	if oneIn(c, "cenc", 4) {
		d.user = []byte(pick(c, "cpw", "", "pw", "secret"))
	}
	return d
}

func someKey[V any](c *hx.C, label string, m map[int]V) (int, bool) {
	if len(m) == 0 {
		return 0, false
	}
	ks := sortedKeys(m)
	return ks[num(c, label, 0, len(ks)-1)], true
}

// alterText, alterGraphic, alterImage and alterAnnot change one respect of what is in a cell.
func (p qpage) alterText(c *hx.C, k int, shift func(x, y *float64)) {
	t := p.texts[k]
	switch num(c, "et", 0, 4) {
	case 0:
		t.s = pick(c, "t", cTexts...)
	case 1:
		shift(&t.dx, &t.dy)
	case 2:
		t.size = pick(c, "ts", cSizes...)
	case 3:
		t.font = num(c, "tf", 0, len(cFonts)-1)
	case 4:
		t.n = num(c, "tn2", 1, 3)
	}
	p.texts[k] = t
}

func (p qpage) alterGraphic(c *hx.C, k int, shift func(x, y *float64)) {
	g := p.graph[k]
	h := cGraphic(c)
	switch num(c, "eg", 0, 10) {
	case 0:
		g.kind = h.kind
	case 1:
		g.size = h.size
	case 2:
		g.paint = h.paint
	case 3:
		g.col = h.col
	case 4:
		g.width = h.width
	case 5:
		g.cap = h.cap
	case 6:
		shift(&g.dx, &g.dy)
	case 7:
		g.n = h.n
	case 8:
		g.stroke = h.stroke
	case 9:
		g.join = h.join
	case 10:
		g.miter = h.miter
	}
	p.graph[k] = g
}

func (p qpage) alterImage(c *hx.C, k, pool int, shift func(x, y *float64)) {
	im := p.images[k]
	switch num(c, "ei", 0, 4) {
	case 0:
		im.data = num(c, "id", 0, pool-1)
	case 1:
		if flip(c, "ihigh") {
			im.h = pick(c, "ih", 20.0, 60)
		} else {
			im.size = pick(c, "is", 20.0, 60)
		}
	case 2:
		shift(&im.dx, &im.dy)
	case 3: // another name for the same picture
		im.name = fmt.Sprintf("Im%d", num(c, "in", 1, 3))
	case 4:
		delete(p.images, k)
		k = num(c, "ecell", 0, cellCols*cellRows-1)
	}
	p.setImage(k, im)
}

func (p qpage) alterAnnot(c *hx.C, k int) {
	a, b := p.annots[k], cAnnot(c)
	switch num(c, "ea", 0, 11) {
	case 0:
		a.kind = b.kind
	case 1:
		a.contents = b.contents
	case 2:
		a.title = b.title
	case 3:
		a.uri = b.uri
	case 4:
		a.col = b.col
	case 5:
		a.open = b.open
	case 6:
		a.w = b.w
	case 7:
		a.up = b.up
	case 8:
		a.icon = b.icon
	case 9:
		a.subject = b.subject
	case 10:
		a.border = b.border
	case 11:
		a.quads = b.quads
	}
	p.annots[k] = a
}

// shifter moves things a little or a lot.
func shifter(c *hx.C, small, big float64) func(x, y *float64) {
	return func(x, y *float64) {
		by := pick(c, "eby", small, -small, big)
		if flip(c, "eaxis") {
			*x += by
		} else {
			*y += by
		}
	}
}

// scatter alters about half of what is on the pages.
func (d *qdoc) scatter(c *hx.C, pool int, small, big float64) {
	shift := shifter(c, small, big)
	for _, p := range d.pages {
		for _, k := range sortedKeys(p.texts) {
			if flip(c, "etext") {
				p.alterText(c, k, shift)
			}
		}
		for _, k := range sortedKeys(p.graph) {
			if flip(c, "egraph") {
				p.alterGraphic(c, k, shift)
			}
		}
		for _, k := range sortedKeys(p.images) {
			if _, ok := p.images[k]; ok && flip(c, "eimage") {
				p.alterImage(c, k, pool, shift)
			}
		}
		for _, k := range sortedKeys(p.annots) {
			if flip(c, "eannot") {
				p.alterAnnot(c, k)
			}
		}
	}
	if len(d.books) > 0 {
		d.books = editBooks(c, d.books, len(d.pages))
	}
}

// edit changes one thing of the document (perhaps to what it was already).
func (d *qdoc) edit(c *hx.C, pool int, small, big float64) {
	cells := cellCols*cellRows - 1
	p := &d.pages[num(c, "epage", 0, len(d.pages)-1)]
	shift := shifter(c, small, big)
	switch num(c, "edit", 0, 26) {
	case 0, 1:
		p.texts[num(c, "ecell", 0, cells)] = cText(c)
	case 2:
		if k, ok := someKey(c, "ek", p.texts); ok {
			delete(p.texts, k)
		}
	case 3, 4, 5:
		if k, ok := someKey(c, "ek", p.texts); ok {
			p.alterText(c, k, shift)
		}
	case 6: // moved to another cell
		if k, ok := someKey(c, "ek", p.texts); ok {
			t := p.texts[k]
			delete(p.texts, k)
			p.texts[num(c, "ecell", 0, cells)] = t
		}
	case 7:
		p.graph[num(c, "ecell", 0, cells)] = cGraphic(c)
	case 8:
		if k, ok := someKey(c, "ek", p.graph); ok {
			delete(p.graph, k)
		}
	case 9, 10:
		if k, ok := someKey(c, "ek", p.graph); ok {
			p.alterGraphic(c, k, shift)
		}
	case 11:
		p.setImage(num(c, "ecell", 0, cells), cImage(c, pool))
	case 12:
		if k, ok := someKey(c, "ek", p.images); ok {
			delete(p.images, k)
		}
	case 13, 14:
		if k, ok := someKey(c, "ek", p.images); ok {
			p.alterImage(c, k, pool, shift)
		}
	case 15:
		p.annots[num(c, "ecell", 0, cells)] = cAnnot(c)
	case 16:
		if k, ok := someKey(c, "ek", p.annots); ok {
			p.alterAnnot(c, k)
		}
	case 17:
		k := pick(c, "eik", cInfoKeys...)
		if flip(c, "eidel") {
			delete(d.info, k)
		} else {
			d.info[k] = pick(c, "civ", "A", "a", "B", "Žluť", "(x)")
		}
	case 18:
		if flip(c, "epdel") && len(d.pages) > 1 {
			i := num(c, "epi", 0, len(d.pages)-1)
			d.pages = append(d.pages[:i:i], d.pages[i+1:]...)
			d.books = cBooks(c, len(d.pages), 1)
		} else if len(d.pages) < 5 {
			i := num(c, "epi", 0, len(d.pages))
			d.pages = append(d.pages[:i:i], append([]qpage{cPage(c, pool)}, d.pages[i:]...)...)
		}
	case 19:
		p.rot = 90 * num(c, "prot", 0, 3)
	case 20:
		p.w = pick(c, "pw", 612.0, 600, 595.28)
	case 21, 25, 26:
		if len(d.books) == 0 || oneIn(c, "ebooks", 4) {
			d.books = cBooks(c, len(d.pages), 2)
		} else {
			d.books = editBooks(c, d.books, len(d.pages))
		}
	case 22, 23:
		if oneIn(c, "exfa", 6) {
			d.xfa = !d.xfa
		}
		k := pick(c, "cfname", cFields...)
		if oneIn(c, "efdel", 3) {
			delete(d.fields, k)
		} else {
			d.fields[k] = cField(c)
		}
	case 24:
		d.version = pick(c, "cver", "1.4", "1.7")
	}
}

func pdfText(c *hx.C, s string) ref.Str {
	ascii := true
	for _, r := range s {
		ascii = ascii && r < 0x80
	}
	if ascii && !oneIn(c, "utf16", 4) {
		return ref.Str{B: []byte(s), Hex: oneIn(c, "txthex", 4)}
	}
	b := []byte{0xfe, 0xff}
	for _, u := range utf16.Encode([]rune(s)) {
		b = append(b, byte(u>>8), byte(u))
	}
	return ref.Str{B: b, Hex: oneIn(c, "txthex", 4)}
}

func latin1(s string) []byte {
	var b []byte
	for _, r := range s {
		b = append(b, byte(r))
	}
	return b
}

func cellXY(cell int) (float64, float64) {
	return float64(cell%cellCols*cellW + 40), float64(cell/cellCols*cellH + 40)
}

func fnum(f float64) string { return strings.TrimSuffix(fmt.Sprintf("%.2f", f), ".00") }

// content renders the page in one of many ways.
func (p qpage) content(c *hx.C) []byte {
	var b strings.Builder
	ws := func() string { return pick(c, "ws", " ", "\n", "  ", "\r\n") }
	plain := ref.Plain
	op := func(xs ...string) { b.WriteString(strings.Join(xs, ws()) + ws()) }
	for _, k := range p.order {
		x, y := cellXY(k)
		if g, ok := p.graph[k]; ok {
			for i := 0; i < g.n; i++ {
				x, y := x+g.dx, y+g.dy
				op("q")
				op(cColors[g.col], "rg", cColors[g.stroke], "RG", fmt.Sprint(g.width), "w", fmt.Sprint(g.cap), "J")
				if g.join != 0 || flip(c, "gj0") {
					op(fmt.Sprint(g.join), "j")
				}
				if g.miter != 10 || flip(c, "gm10") {
					op(fmt.Sprint(g.miter), "M")
				}
				switch g.kind {
				case 0:
					op(fnum(x), fnum(y), fnum(g.size), fnum(g.size), "re")
				case 1:
					op(fnum(x), fnum(y), "m", fnum(x+g.size), fnum(y), "l")
				case 2:
					op(fnum(x), fnum(y), "m", fnum(x+g.size/2), fnum(y), fnum(x+g.size), fnum(y+g.size/2), fnum(x+g.size), fnum(y+g.size), "c")
				case 3:
					op(fnum(x), fnum(y), "m", fnum(x+g.size), fnum(y), "l", fnum(x), fnum(y+g.size), "l", "h")
				case 4:
					op(fnum(x), fnum(y), "m", fnum(x+g.size), fnum(y), "l", fnum(x), fnum(y+g.size), "l")
				case 5:
					op(fnum(x), fnum(y), "m", fnum(x), fnum(y+g.size/2), fnum(x+g.size/2), fnum(y+g.size), fnum(x+g.size), fnum(y+g.size), "c")
				case 6:
					op(fnum(x), fnum(y), "m", fnum(x+g.size), fnum(y), "l", fnum(x+g.size), fnum(y+g.size), "l", "h")
				}
				op([]string{"S", "f", "B"}[g.paint])
				op("Q")
			}
		}
		if t, ok := p.texts[k]; ok {
			for i := 0; i < t.n; i++ {
				op("BT")
				op(fmt.Sprintf("/F%d", t.font), fnum(t.size), "Tf")
				switch num(c, "place", 0, 2) {
				case 0:
					op(fnum(x+t.dx), fnum(y+t.dy), "Td")
				case 1:
					op("1 0 0 1", fnum(x+t.dx), fnum(y+t.dy), "Tm")
				case 2:
					op(fnum(x), fnum(y), "Td", fnum(t.dx), fnum(t.dy), "Td")
				}
				s := string(plain.Bytes(ref.Str{B: latin1(t.s), Hex: flip(c, "shex")}))
				if flip(c, "TJ") {
					s = "[" + s + "]"
					op(s, "TJ")
				} else {
					op(s, "Tj")
				}
				op("ET")
			}
		}
		if im, ok := p.images[k]; ok {
			op("q")
			if flip(c, "cmparts") {
				op("1 0 0 1", fnum(x+im.dx), fnum(y+im.dy), "cm", fnum(im.size), "0 0", fnum(im.h), "0 0 cm")
			} else {
				op(fnum(im.size), "0 0", fnum(im.h), fnum(x+im.dx), fnum(y+im.dy), "cm")
			}
			op("/"+im.name, "Do")
			op("Q")
		}
	}
	return []byte(b.String())
}

func (a qannot) dict(c *hx.C, cell int, page ref.Ref) ref.Dict {
	x, y := cellXY(cell)
	d := ref.Dict{{"Subtype", ref.Name([]string{"Link", "Text", "Highlight", "Square", "Link", "Stamp"}[a.kind])}}
	d = d.With("Rect", ref.Arr{ref.Real(fnum(x)), ref.Real(fnum(y)), ref.Real(fnum(x + a.w)), ref.Real(fnum(y + 20 + a.up))})
	if flip(c, "atype") {
		d = d.With("Type", ref.Name("Annot"))
	}
	if a.contents != "" {
		d = d.With("Contents", pdfText(c, a.contents))
	}
	if a.title != "" {
		d = d.With("T", pdfText(c, a.title))
	}
	if a.subject != "" {
		d = d.With("Subj", pdfText(c, a.subject))
	}
	if a.border > 0 {
		d = d.With("Border", cBorders[a.border])
	}
	if a.col < len(cColors) {
		col := ref.Arr{}
		for _, f := range strings.Fields(cColors[a.col]) {
			col = append(col, ref.Real(f))
		}
		d = d.With("C", col)
	}
	switch a.kind {
	case 0:
		d = d.With("A", ref.Dict{{"S", ref.Name("URI")}, {"URI", ref.Str{B: []byte(a.uri)}}})
	case 1:
		d = d.With("Open", a.open)
		if a.icon != "" {
			d = d.With("Name", ref.Name(a.icon))
		}
	case 2:
		var quads ref.Arr
		quad := func(x, y, w, h float64) {
			for _, v := range []float64{x, y + h, x + w, y + h, x, y, x + w, y} {
				quads = append(quads, ref.Real(fnum(v)))
			}
		}
		switch a.quads {
		case 0:
			quad(x, y, 20, 20)
		case 1:
			quad(x, y, 20, 19.5)
		case 2:
			quad(x, y+10, 20, 10)
			quad(x, y, 10, 10)
		case 3:
			quad(x, y+10, 20, 10)
			quad(x, y, 12, 10)
		}
		d = d.With("QuadPoints", quads)
	case 4:
		if a.open {
			d = d.With("Dest", ref.Arr{page, ref.Name("Fit")})
		} else {
			d = d.With("Dest", ref.Arr{page, ref.Name("XYZ"), 10, 20, ref.Null{}})
		}
	}
	return d
}

// attrs lists what tells the annotation from others.
func (a qannot) attrs() string {
	s := fmt.Sprintf("%s|%q|%q|%d|%v", []string{"Link", "Text", "Highlight", "Square", "Link", "Stamp"}[a.kind], a.contents, a.title, a.col, a.w)
	s += fmt.Sprintf("|%v|%q|%d|", a.up, a.subject, a.border)
	switch a.kind {
	case 0:
		s += a.uri
	case 1:
		s += fmt.Sprint(a.open, a.kind, a.icon)
	case 2:
		s += fmt.Sprint(a.quads)
	case 4:
		s += fmt.Sprint(a.open, a.kind)
	}
	return s
}

// bytes renders the document in a drawn file form.
func (d *qdoc) bytes(c *hx.C, pool []ref.Stream) []byte {
	f := newFD(c)
	f.version = d.version
	if d.user != nil {
		f.user, f.owner = d.user, []byte("owner")
	}
	imgs := map[int]ref.Ref{}
	image := func(i int) ref.Ref {
		if r, ok := imgs[i]; ok && !oneIn(c, "imgdup", 4) {
			return r
		}
		imgs[i] = f.rawStream(pool[i].D, pool[i].Data)
		return imgs[i]
	}
	fonts := ref.Dict{}
	for i, n := range cFonts {
		fonts = fonts.With(fmt.Sprintf("F%d", i), f.ind(ref.Dict{{"Type", ref.Name("Font")}, {"Subtype", ref.Name("Type1")}, {"BaseFont", ref.Name(n)}, {"Encoding", ref.Name("WinAnsiEncoding")}}))
	}
	annots := make([]*ref.Ref, len(d.pages))
	root, pages := f.pageTree(len(d.pages), func(i int) (ref.Dict, ref.Dict) {
		p := d.pages[i]
		xo := ref.Dict{}
		for _, k := range sortedKeys(p.images) {
			if im := p.images[k]; !xo.Has(im.name) {
				xo = xo.With(im.name, image(im.data))
			}
		}
		res := ref.Dict{{"Font", f.ind(fonts)}}
		if len(xo) > 0 {
			res = res.With("XObject", f.ind(xo))
		}
		own := ref.Dict{}
		body := p.content(c)
		switch at := 0; {
		case oneIn(c, "contentarr", 3):
			if i := strings.Index(string(body), "Q\n"); i >= 0 {
				at = i + 2
			}
			own = own.With("Contents", f.ind(ref.Arr{f.stream(ref.Dict{}, body[:at]), f.stream(ref.Dict{}, body[at:])}))
		case len(body) > 0 || flip(c, "nocontents"):
			own = own.With("Contents", f.stream(ref.Dict{}, body))
		}
		if len(p.annots) > 0 {
			r := f.reserve()
			annots[i] = &r
			own = own.With("Annots", r)
		}
		inh := ref.Dict{{"Resources", f.ind(res)}, {"MediaBox", ref.Arr{0, 0, ref.Real(fnum(p.w)), ref.Real(fnum(p.h))}}}
		if p.rot != 0 || flip(c, "rot0") {
			inh = inh.With("Rotate", p.rot)
		}
		return own, inh
	})
	// a page without Rotate inherits none pushed up from another: pages always carry it then
	for i, p := range pages {
		want := d.pages[i].rot
		if got, ok := p.eff.Get("Rotate").(int); (ok || want != 0) && got != want {
			f.set(p.ref, p.d.With("Rotate", want))
			pages[i].d = p.d.With("Rotate", want)
		}
	}
	for i, r := range annots {
		if r == nil {
			continue
		}
		var arr ref.Arr
		for _, k := range sortedKeys(d.pages[i].annots) {
			arr = append(arr, f.ind(d.pages[i].annots[k].dict(c, k, pages[0].ref)))
		}
		f.set(*r, arr)
	}
	cat := ref.Dict{{"Type", ref.Name("Catalog")}, {"Pages", root}}
	if len(d.books) > 0 || oneIn(c, "emptyoutline", 8) {
		or := f.reserve()
		var level func(bs []qbook, parent ref.Ref) (first, last ref.Obj)
		level = func(bs []qbook, parent ref.Ref) (ref.Obj, ref.Obj) {
			rs := make([]ref.Ref, len(bs))
			for i := range bs {
				rs[i] = f.reserve()
			}
			for i, b := range bs {
				it := ref.Dict{{"Title", pdfText(c, b.title)}, {"Parent", parent}}
				if b.page > 0 {
					dest := append(ref.Arr{pages[b.page-1].ref}, cViews[b.view]...)
					if flip(c, "bgoto") {
						it = it.With("A", ref.Dict{{"S", ref.Name("GoTo")}, {"D", dest}})
					} else {
						it = it.With("Dest", f.ind(dest))
					}
				} else if b.name != "" {
					if flip(c, "bgoto") {
						it = it.With("A", ref.Dict{{"S", ref.Name("GoTo")}, {"D", ref.Name(b.name)}})
					} else {
						it = it.With("Dest", ref.Name(b.name))
					}
				} else {
					it = it.With("A", f.ind(ref.Dict{{"S", ref.Name("URI")}, {"URI", ref.Str{B: []byte(b.uri)}}}))
				}
				if i > 0 {
					it = it.With("Prev", rs[i-1])
				}
				if i+1 < len(bs) {
					it = it.With("Next", rs[i+1])
				}
				if len(b.kids) > 0 {
					fst, lst := level(b.kids, rs[i])
					it = it.With("First", fst).With("Last", lst).With("Count", len(b.kids))
				}
				f.set(rs[i], it)
			}
			return rs[0], rs[len(rs)-1]
		}
		od := ref.Dict{{"Type", ref.Name("Outlines")}}
		if len(d.books) > 0 {
			fst, lst := level(d.books, or)
			od = od.With("First", fst).With("Last", lst).With("Count", len(d.books))
		}
		f.set(or, od)
		cat = cat.With("Outlines", or)
		// the names of the destinations
		cat = cat.With("Dests", f.ind(ref.Dict{{"here", ref.Arr{pages[0].ref, ref.Name("Fit")}}, {"there", ref.Arr{pages[0].ref, ref.Name("FitH"), 300}}}))
	}
	if _, fields := d.form(); d.xfa {
		var data strings.Builder
		var open []string // groups
		for _, n := range sortedKeys(fields) {
			for len(open) > 0 && flip(c, "xclose") {
				data.WriteString("</" + open[len(open)-1] + ">")
				open = open[:len(open)-1]
			}
			if len(open) < 3 && oneIn(c, "xgroup", 4) {
				open = append(open, pick(c, "xgname", "form1", "page", "part"))
				data.WriteString("<" + open[len(open)-1] + ">")
			}
			fmt.Fprintf(&data, "<field name='%s'><value>", n)
			xml.EscapeText(&data, []byte(fields[n].val[0]))
			data.WriteString("</value></field>\n")
		}
		for len(open) > 0 {
			data.WriteString("</" + open[len(open)-1] + ">")
			open = open[:len(open)-1]
		}
		x := ref.Arr{ref.Str{B: []byte("template")}, f.stream(nil, []byte("<template><subform name='form1'><field name='name'/></subform></template>")), ref.Str{B: []byte("datasets")}, f.stream(nil, []byte("<xfa:datasets xmlns:xfa='http://www.xfa.org/schema/xfa-data/1.0/'><xfa:data>"+data.String()+"</xfa:data></xfa:datasets>"))}
		cat = cat.With("AcroForm", f.ind(ref.Dict{{"Fields", ref.Arr{}}, {"XFA", f.ind(x)}}))
	} else if len(d.fields) > 0 || oneIn(c, "emptyform", 8) {
		var names []string
		for n := range d.fields {
			names = append(names, n)
		}
		sort.Strings(names)
		if flip(c, "frev") {
			sort.Sort(sort.Reverse(sort.StringSlice(names)))
		}
		var arr ref.Arr
		for _, n := range names {
			fl := d.fields[n]
			fd := ref.Dict{{"FT", ref.Name(fl.ft)}, {"T", pdfText(c, n)}}
			if fl.ft == "Ch" {
				opts := ref.Arr{}
				for _, v := range cFldVals {
					opts = append(opts, pdfText(c, v))
				}
				ff := 1 << 17
				if fl.multi {
					ff = 1 << 21
				}
				fd = fd.With("Opt", opts).With("Ff", ff)
			}
			if fl.multi && fl.val != nil {
				vs := ref.Arr{}
				for _, v := range fl.val {
					vs = append(vs, pdfText(c, v))
				}
				fd = fd.With("V", f.ind(vs))
			} else if fl.val != nil {
				fd = fd.With("V", pdfText(c, fl.val[0]))
			}
			arr = append(arr, f.add(fd))
		}
		cat = cat.With("AcroForm", f.ind(ref.Dict{{"Fields", f.ind(arr)}}))
	}
	info := ref.Dict{}
	for _, k := range cInfoKeys {
		if v, ok := d.info[k]; ok {
			info = info.With(k, f.ind(pdfText(c, v)))
		}
	}
	f.trailer = ref.Dict{{"Root", f.add(cat)}}
	if len(info) > 0 || flip(c, "noinfo") {
		f.trailer = f.trailer.With("Info", f.add(info))
	}
	return f.emit()
}

func cPool(c *hx.C) []ref.Stream {
	pool := make([]ref.Stream, num(c, "pool", 2, 4))
	type picture struct {
		w, h, bits int
		space      string
		codec      string
		data       []byte
	}
	var all []picture
	for i := range pool {
		p := picture{count(c, "piw", 1, 4, 12), num(c, "pih", 1, 4), 8, "DeviceRGB", "", nil}
		p.data = append(blob(c, "pid", p.w*p.h*3), byte(i)) // pictures differ
		if i > 0 && flip(c, "near") {
			// they may differ from another one in a single respect
			p = all[num(c, "nearTo", 0, i-1)]
			p.data = append([]byte{}, p.data...)
			switch num(c, "nearIn", 0, 4) {
			case 0:
				p.space = pick(c, "space", "DeviceGray", "DeviceCMYK", "DeviceRGB")
			case 1:
				p.bits = pick(c, "bits", 4, 8, 2)
			case 2:
				p.w, p.h = p.h, p.w
			case 3:
				p.codec = pick(c, "codec", "", "DCTDecode", "JPXDecode")
			case 4:
				p.data[num(c, "byteAt", 0, len(p.data)-1)]++
			}
			for _, q := range all {
				if reflect.DeepEqual(p, q) {
					p.data = append(p.data, 'x', byte(i))
				}
			}
		}
		all = append(all, p)
		data := p.data
		d := ref.Dict{{"Type", ref.Name("XObject")}, {"Subtype", ref.Name("Image")}, {"Width", p.w}, {"Height", p.h}, {"ColorSpace", ref.Name(p.space)}, {"BitsPerComponent", p.bits}}
		var filters ref.Arr
		if p.codec != "" {
			filters = ref.Arr{ref.Name(p.codec)}
		}
		if flip(c, "pflate") {
			data = ref.Deflate(data)
			filters = append(ref.Arr{ref.Name("FlateDecode")}, filters...)
		}
		switch {
		case len(filters) == 1 && flip(c, "pone"):
			d = d.With("Filter", filters[0])
		case len(filters) > 0:
			d = d.With("Filter", filters)
		}
		pool[i] = ref.Stream{D: d, Data: data}
	}
	return pool
}

func cOptions(c *hx.C) compare.CompareOptions {
	if oneIn(c, "defopts", 4) {
		return compare.DefaultCompareOptions()
	}
	return compare.CompareOptions{
		IgnoreMetadata:     oneIn(c, "oIgnMeta", 4),
		IgnoreProducer:     flip(c, "oIgnProd"),
		IgnoreDates:        flip(c, "oIgnDates"),
		TextTolerance:      pick(c, "oTT", 0, 0.5, 5.0, 20),
		GraphicTolerance:   pick(c, "oGT", 0, 0.5, 5.0, 20),
		TextGranularity:    pick(c, "oGran", "", compare.GranularityElement, compare.GranularityWord, compare.GranularityChar),
		DiffSensitivity:    pick(c, "oSens", "", compare.SensitivityStrict, compare.SensitivityNormal, compare.SensitivityRelaxed),
		DetectMoves:        flip(c, "oMoves"),
		MoveTolerance:      pick(c, "oMT", 0, 0, 60.0, 1000),
		MinChangeThreshold: pick(c, "oMin", 0, 0, 0, 0.3),
		IgnoreWhitespace:   oneIn(c, "oWS", 3),
		IgnoreCase:         oneIn(c, "oCase", 3),
	}
}

// oracle judges one comparison against the models.
type oracle struct {
	c    *hx.C
	a, b *qdoc
	o    compare.CompareOptions
	r    *compare.ComparisonResult
	want int // differences counted so far
}

func (o *oracle) norm(s string) string {
	if o.o.IgnoreCase {
		s = strings.ToLower(s)
	}
	if o.o.IgnoreWhitespace {
		s = strings.Map(func(r rune) rune {
			if unicode.IsSpace(r) {
				return -1
			}
			return r
		}, s)
	}
	return s
}

func within(x1, y1, x2, y2, tol float64) bool {
	return math.Abs(x1-x2) <= tol+1e-6 && math.Abs(y1-y2) <= tol+1e-6
}

func cellOf(x, y float64) int {
	col, row := int(math.Floor((x-15)/cellW)), int(math.Floor((y-15)/cellH))
	return row*cellCols + col
}

// tally counts what is listed, by cell
func tally(xs ...int) map[int]int {
	m := map[int]int{}
	for _, x := range xs {
		m[x]++
	}
	return m
}

type loose struct {
	cell int
	t    qtext
}

func (o *oracle) texts(pa, pb qpage, d *compare.TextDiff) (bool, error) {
	if d == nil {
		d = &compare.TextDiff{}
	}
	tol := o.o.TextTolerance
	filtering := o.o.DiffSensitivity == compare.SensitivityRelaxed || o.o.MinChangeThreshold > 0
	// what is listed, element by element
	find := func(p qpage, e types.TextElement, where string) (int, error) {
		cell := cellOf(e.X, e.Y)
		t, ok := p.texts[cell]
		x, y := cellXY(cell)
		if !ok || t.s != e.Text || math.Abs(t.size-e.FontSize) > 0.01 || e.FontName != fmt.Sprintf("/F%d", t.font) || !within(e.X, e.Y, x+t.dx, y+t.dy, 0.01) {
			return 0, fmt.Errorf("%s text %q at %v,%v is not in the document", where, e.Text, e.X, e.Y)
		}
		return cell, nil
	}
	rem, add := map[int]int{}, map[int]int{}
	mod := map[[2]int]int{}
	for _, e := range d.Removed {
		k, err := find(pa, e, "removed")
		if err != nil {
			return false, err
		}
		rem[k]++
	}
	for _, e := range d.Added {
		k, err := find(pb, e, "added")
		if err != nil {
			return false, err
		}
		add[k]++
	}
	for _, m := range d.Modified {
		k1, err := find(pa, m.Old, "modified")
		if err != nil {
			return false, err
		}
		k2, err := find(pb, m.New, "modified (new)")
		if err != nil {
			return false, err
		}
		mod[[2]int{k1, k2}]++
	}
	out, in := map[int]int{}, map[int]int{}
	for p, n := range mod {
		out[p[0]] += n
		in[p[1]] += n
	}
	// what the models say
	var l1, l2 []loose
	looseA, looseB := map[int]int{}, map[int]int{}
	wantMod := map[int]int{}
	for k := 0; k < cellCols*cellRows; k++ {
		t, in1 := pa.texts[k]
		u, in2 := pb.texts[k]
		n1, n2 := 0, 0
		if in1 {
			n1 = t.n
		}
		if in2 {
			n2 = u.n
		}
		if in1 && in2 && within(t.dx, t.dy, u.dx, u.dy, tol) {
			n := min(n1, n2)
			same := o.norm(t.s) == o.norm(u.s)
			switch {
			case same && t.font == u.font && math.Abs(t.size-u.size) < 0.1: // unchanged
			case !same:
				wantMod[k] = n
			case o.o.TextGranularity == compare.GranularityWord || o.o.TextGranularity == compare.GranularityChar:
				// words and characters are compared without their fonts, but a text that a move
				// explains is no longer there to be compared
				if o.o.DetectMoves {
					d := max(out[k]-(n1-n), in[k]-(n2-n), 0)
					if filtering { // moves are not listed
						d = max(d, rem[k]-(n1-n), add[k]-(n2-n))
					}
					n -= min(d, n)
				}
			default:
				n = 0
			}
			n1, n2 = n1-n, n2-n
		}
		looseA[k], looseB[k] = n1, n2
	}
	for _, k := range pa.order {
		for i := 0; i < looseA[k]; i++ {
			l1 = append(l1, loose{k, pa.texts[k]})
		}
	}
	for _, k := range pb.order {
		for i := 0; i < looseB[k]; i++ {
			l2 = append(l2, loose{k, pb.texts[k]})
		}
	}
	changes := len(wantMod) > 0 || len(l1)+len(l2) > 0
	same := func(t, u qtext) bool {
		return o.norm(t.s) == o.norm(u.s) && t.font == u.font && math.Abs(t.size-u.size) < 0.1
	}
	// in place
	moved := map[[2]int]int{}
	for p, n := range mod {
		if p[0] == p[1] && wantMod[p[0]] > 0 {
			if n > wantMod[p[0]] {
				return false, fmt.Errorf("text in cell %d modified %d times, want %d", p[0], n, wantMod[p[0]])
			}
			continue
		}
		moved[p] = n
	}
	for k, n := range wantMod {
		got := mod[[2]int{k, k}]
		t, u := pa.texts[k], pb.texts[k]
		if got == n {
			continue
		}
		full := len(o.norm(t.s)) == len(o.norm(u.s))
		for i := 0; full && i < len(o.norm(t.s)) && i < len(o.norm(u.s)); i++ {
			full = o.norm(t.s)[i] != o.norm(u.s)[i]
		}
		if !filtering || got != 0 || full {
			return false, fmt.Errorf("text %q -> %q in cell %d reported as modified %d times, want %d", t.s, u.s, k, got, n)
		}
	}
	// elsewhere
	nMoved := 0
	for p, n := range moved {
		nMoved += n
		if looseA[p[0]] < n || looseB[p[1]] < n {
			return false, fmt.Errorf("unchanged text reported as modified: cells %v", p)
		}
		if !same(pa.texts[p[0]], pb.texts[p[1]]) {
			return false, fmt.Errorf("text %q modified to the unrelated %q of another place", pa.texts[p[0]].s, pb.texts[p[1]].s)
		}
	}
	if nMoved > 0 && filtering {
		return false, fmt.Errorf("%d moved texts reported although their text did not change", nMoved)
	}
	left1, left2 := map[int]int{}, map[int]int{}
	for _, l := range l1 {
		left1[l.cell]++
	}
	for _, l := range l2 {
		left2[l.cell]++
	}
	for p, n := range moved {
		left1[p[0]] -= n
		left2[p[1]] -= n
	}
	slack1, slack2 := 0, 0
	for k := 0; k < cellCols*cellRows; k++ {
		if left1[k] < rem[k] || left2[k] < add[k] {
			return false, fmt.Errorf("cell %d: %d removed and %d added texts reported, want %d and %d", k, rem[k], add[k], left1[k], left2[k])
		}
		slack1 += left1[k] - rem[k]
		slack2 += left2[k] - add[k]
	}
	if slack1 != slack2 || slack1 > 0 && !filtering {
		return false, fmt.Errorf("changed texts left out: %d of the first document, %d of the second", slack1, slack2)
	}
	// moves are found: no pair of equal texts is listed as removed and added where a move counts
	mt := o.o.MoveTolerance
	if mt == 0 {
		mt = 10 * tol
	}
	if o.o.DetectMoves {
		for k1 := range rem {
			for k2 := range add {
				t, u := pa.texts[k1], pb.texts[k2]
				x1, y1 := cellXY(k1)
				x2, y2 := cellXY(k2)
				if same(t, u) && within(x1+t.dx, y1+t.dy, x2+u.dx, y2+u.dy, mt-1e-3) {
					return false, fmt.Errorf("text %q moved from cell %d to %d reported as removed and added", t.s, k1, k2)
				}
			}
		}
	} else {
		n := 0
		if o.o.TextGranularity != compare.GranularityWord && o.o.TextGranularity != compare.GranularityChar {
			dp := make([][]int, len(l1)+1)
			for i := range dp {
				dp[i] = make([]int, len(l2)+1)
			}
			for i := range l1 {
				for j := range l2 {
					if same(l1[i].t, l2[j].t) {
						dp[i+1][j+1] = dp[i][j] + 1
					} else {
						dp[i+1][j+1] = max(dp[i][j+1], dp[i+1][j])
					}
				}
			}
			n = dp[len(l1)][len(l2)]
		}
		if nMoved+slack1 != n {
			return false, fmt.Errorf("%d texts reported as moved, want %d", nMoved+slack1, n)
		}
	}
	_ = changes
	return len(d.Added)+len(d.Removed)+len(d.Modified) > 0, nil
}

func (o *oracle) graphics(pa, pb qpage, d *compare.GraphicDiff) (bool, error) {
	if d == nil {
		d = &compare.GraphicDiff{}
	}
	tol := o.o.GraphicTolerance
	count := func(gs []types.Graphic) (map[int]int, error) {
		m := map[int]int{}
		for _, g := range gs {
			if g.BoundingBox == nil {
				return nil, fmt.Errorf("graphic without a bounding box")
			}
			m[cellOf(g.BoundingBox.LowerX, g.BoundingBox.LowerY)]++
		}
		return m, nil
	}
	rem, err := count(d.Removed)
	if err != nil {
		return false, err
	}
	add, err := count(d.Added)
	if err != nil {
		return false, err
	}
	for k := 0; k < cellCols*cellRows; k++ {
		g, h := pa.graph[k], pb.graph[k]
		n1, n2 := g.n, h.n
		eq := g
		eq.dx, eq.dy, eq.n = h.dx, h.dy, h.n
		if eq == h && within(g.dx, g.dy, h.dx, h.dy, tol) {
			n := min(n1, n2)
			n1, n2 = n1-n, n2-n
		} else if n1 > 0 && n2 > 0 && (eq.paintOnly(h) || eq.near(h, tol)) {
			// the same but for an attribute that its painting does not use, or for points about as far
			// apart as the tolerance: may count as equal
			if rem[k] == n1-min(n1, n2) && add[k] == n2-min(n1, n2) && within(g.dx, g.dy, h.dx, h.dy, tol) {
				continue
			}
		}
		if rem[k] != n1 || add[k] != n2 {
			return false, fmt.Errorf("graphics of cell %d (%+v -> %+v): %d removed and %d added reported, want %d and %d", k, g, h, rem[k], add[k], n1, n2)
		}
	}
	return len(d.Added)+len(d.Removed) > 0, nil
}

// paintOnly: the two differ only in what their painting does not use: the line, or the filling.
func (g qgraphic) paintOnly(h qgraphic) bool {
	switch g.paint {
	case 0:
		g.col = h.col
	case 1:
		g.stroke, g.width, g.cap, g.join, g.miter = h.stroke, h.width, h.cap, h.join, h.miter
		if g.kind+h.kind == 7 && (g.kind == 3 || g.kind == 4) { // filling closes the triangle
			g.kind = h.kind
		}
	}
	g.dx, g.dy, g.n = h.dx, h.dy, h.n
	return g == h
}

// near: the two are small shapes with the same bounds, and the tolerance is not as small.
func (g qgraphic) near(h qgraphic, tol float64) bool {
	if k := g.kind + h.kind; !(k == 7 && (g.kind == 2 || g.kind == 5) || k == 9 && (g.kind == 3 || g.kind == 6)) || g.size > 12 || tol < 5 {
		return false
	}
	g.kind = h.kind
	return g == h || g.paintOnly(h)
}

func (o *oracle) images(pa, pb qpage, d *compare.ImageDiff) (bool, error) {
	if d == nil {
		d = &compare.ImageDiff{}
	}
	find := func(p qpage, e types.ImageRef, where string) (int, error) {
		cell := cellOf(e.X, e.Y)
		im, ok := p.images[cell]
		x, y := cellXY(cell)
		if !ok || e.ImageID != "/"+im.name || !within(e.X, e.Y, x+im.dx, y+im.dy, 0.01) || math.Abs(e.Width-im.size) > 0.01 || math.Abs(e.Height-im.h) > 0.01 {
			return 0, fmt.Errorf("%s image %s at %v,%v is not in the document", where, e.ImageID, e.X, e.Y)
		}
		return cell, nil
	}
	rem, add, wantRem, wantAdd := map[int]int{}, map[int]int{}, map[int]bool{}, map[int]bool{}
	for _, e := range d.Removed {
		k, err := find(pa, e, "removed")
		if err != nil {
			return false, err
		}
		rem[k]++
	}
	for _, e := range d.Added {
		k, err := find(pb, e, "added")
		if err != nil {
			return false, err
		}
		add[k]++
	}
	wantMod := map[int]bool{}
	for k := 0; k < cellCols*cellRows; k++ {
		a, in1 := pa.images[k]
		b, in2 := pb.images[k]
		near := in1 && in2 && within(a.dx, a.dy, b.dx, b.dy, 1)
		switch {
		case near && a.data == b.data && a.size == b.size && a.h == b.h:
		case near && a.data != b.data && a.name == b.name:
			wantMod[k] = true
		default:
			if in1 {
				wantRem[k] = true
			}
			if in2 {
				wantAdd[k] = true
			}
		}
	}
	for _, m := range d.Modified {
		k1, err := find(pa, m.Old, "modified")
		if err != nil {
			return false, err
		}
		k2, err := find(pb, m.New, "modified (new)")
		if err != nil {
			return false, err
		}
		if k1 != k2 || !wantMod[k1] {
			return false, fmt.Errorf("image of cell %d reported as modified", k1)
		}
		delete(wantMod, k1)
	}
	for k := range wantMod {
		return false, fmt.Errorf("modified image of cell %d is not reported", k)
	}
	for _, m := range d.Moved {
		k1, err := find(pa, m.Old, "moved")
		if err != nil {
			return false, err
		}
		k2, err := find(pb, m.New, "moved (new)")
		if err != nil {
			return false, err
		}
		if !wantRem[k1] || !wantAdd[k2] || pa.images[k1].data != pb.images[k2].data {
			return false, fmt.Errorf("images of cells %d and %d reported as moved", k1, k2)
		}
		delete(wantRem, k1)
		delete(wantAdd, k2)
	}
	for k := 0; k < cellCols*cellRows; k++ {
		if rem[k] != b2i(wantRem[k]) || add[k] != b2i(wantAdd[k]) {
			return false, fmt.Errorf("cell %d: %d removed and %d added images reported, want %v and %v", k, rem[k], add[k], wantRem[k], wantAdd[k])
		}
		for q := range wantAdd {
			if wantRem[k] && wantAdd[q] && pa.images[k].data == pb.images[q].data {
				return false, fmt.Errorf("image moved from cell %d to %d reported as removed and added", k, q)
			}
		}
	}
	return len(d.Added)+len(d.Removed)+len(d.Modified)+len(d.Moved) > 0, nil
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (o *oracle) annots(pa, pb qpage, d *compare.AnnotationDiff) (bool, error) {
	if d == nil {
		d = &compare.AnnotationDiff{}
	}
	count := func(as []types.Annotation) map[int]int {
		m := map[int]int{}
		for _, a := range as {
			if a.Rect != nil {
				m[cellOf(a.Rect.LowerX, a.Rect.LowerY)]++
			}
		}
		return m
	}
	rem, add := count(d.Removed), count(d.Added)
	for k := 0; k < cellCols*cellRows; k++ {
		a, in1 := pa.annots[k]
		b, in2 := pb.annots[k]
		same := in1 && in2 && a.attrs() == b.attrs()
		if rem[k] != b2i(in1 && !same) || add[k] != b2i(in2 && !same) {
			return false, fmt.Errorf("annotations of cell %d: %d removed and %d added reported, documents have %v %v and %v %v", k, rem[k], add[k], in1, a, in2, b)
		}
	}
	return len(d.Added)+len(d.Removed) > 0, nil
}

func (o *oracle) page(i int, pd *compare.PageDifference) error {
	pa, pb := o.a.pages[i], o.b.pages[i]
	var got compare.PageDifference
	if pd != nil {
		got = *pd
	}
	want := map[compare.DifferenceType]int{}
	if pa.w != pb.w || pa.h != pb.h {
		want[compare.DifferenceTypePageContent]++
	}
	if pa.rot != pb.rot {
		want[compare.DifferenceTypePageContent]++
	}
	for _, k := range []struct {
		t compare.DifferenceType
		f func() (bool, error)
	}{
		{compare.DifferenceTypeText, func() (bool, error) { return o.texts(pa, pb, got.TextDiff) }},
		{compare.DifferenceTypeGraphic, func() (bool, error) { return o.graphics(pa, pb, got.GraphicDiff) }},
		{compare.DifferenceTypeImage, func() (bool, error) { return o.images(pa, pb, got.ImageDiff) }},
		{compare.DifferenceTypeAnnotation, func() (bool, error) { return o.annots(pa, pb, got.AnnotationDiff) }},
	} {
		some, err := k.f()
		if err != nil {
			return fmt.Errorf("page %d: %v", i+1, err)
		}
		if some {
			want[k.t]++
		}
	}
	have := map[compare.DifferenceType]int{}
	for _, d := range got.Differences {
		have[d.Type]++
		o.want++
	}
	if !reflect.DeepEqual(want, have) {
		return fmt.Errorf("page %d: differences by type %v, want %v", i+1, have, want)
	}
	if (pd != nil) != (len(want) > 0) {
		return fmt.Errorf("page %d: listed without a difference", i+1)
	}
	return nil
}

func (o *oracle) metadata() error {
	d := o.r.MetadataDiff
	if d == nil {
		d = &compare.MetadataDifference{}
	}
	listed := map[string]*compare.FieldDiff{"Title": d.Title, "Author": d.Author, "Subject": d.Subject, "Keywords": d.Keywords, "Creator": d.Creator, "Producer": d.Producer, "CreationDate": d.CreationDate, "ModDate": d.ModDate}
	n := 0
	check := func(name string, f *compare.FieldDiff, old, new any, ignored bool) error {
		want := !ignored && !o.o.IgnoreMetadata && !reflect.DeepEqual(old, new)
		if want {
			n++
		}
		if want != (f != nil) {
			return fmt.Errorf("metadata %s %v -> %v listed %v", name, old, new, f != nil)
		}
		if want && (!reflect.DeepEqual(f.OldValue, old) || !reflect.DeepEqual(f.NewValue, new)) {
			return fmt.Errorf("metadata %s %v -> %v listed as %v -> %v", name, old, new, f.OldValue, f.NewValue)
		}
		return nil
	}
	for _, k := range cInfoKeys {
		if k == "Company" {
			continue
		}
		if err := check(k, listed[k], o.a.info[k], o.b.info[k], k == "Producer" && o.o.IgnoreProducer || strings.HasSuffix(k, "Date") && o.o.IgnoreDates); err != nil {
			return err
		}
	}
	if err := check("PDFVersion", d.PDFVersion, o.a.version, o.b.version, false); err != nil {
		return err
	}
	if err := check("PageCount", d.PageCount, len(o.a.pages), len(o.b.pages), false); err != nil {
		return err
	}
	if err := check("Encrypted", d.Encrypted, o.a.user != nil, o.b.user != nil, false); err != nil {
		return err
	}
	_, in1 := o.a.info["Company"]
	_, in2 := o.b.info["Company"]
	custom := !o.o.IgnoreMetadata && (in1 != in2 || o.a.info["Company"] != o.b.info["Company"])
	if custom {
		n++
	}
	if (o.r.MetadataDiff != nil) != (n > 0) {
		return fmt.Errorf("metadata difference listed: %v, want %v", o.r.MetadataDiff != nil, n > 0)
	}
	if n > 0 {
		o.want++
	}
	if o.r.Summary.MetadataChanged != (n > 0) {
		return fmt.Errorf("MetadataChanged is %v", o.r.Summary.MetadataChanged)
	}
	return nil
}

func (o *oracle) forms() error {
	d := o.r.FormDiff
	if d == nil {
		d = &compare.FormDiff{}
	}
	kindA, fieldsA := o.a.form()
	kindB, fieldsB := o.b.form()
	other := kindA != "" && kindB != "" && kindA != kindB // all fields count as changed
	if (d.FormType != nil) != other || other && (d.FormType.OldValue != any(kindA) || d.FormType.NewValue != any(kindB)) {
		return fmt.Errorf("form type %q -> %q reported as %v", kindA, kindB, d.FormType)
	}
	val := func(f qfield) any {
		if f.val == nil {
			return nil
		}
		if f.multi {
			return f.val
		}
		return f.val[0]
	}
	show := func(v any) string { return fmt.Sprintf("%q", v) }
	var want, got []string
	for n, f := range fieldsA {
		g, ok := fieldsB[n]
		if !ok || other {
			want = append(want, fmt.Sprintf("- %s %s", n, show(val(f))))
		} else if show(val(f)) != show(val(g)) {
			if x, y := val(f), val(g); f.multi != g.multi && f.val != nil && g.val != nil && reflect.DeepEqual(f.val, g.val) {
				_, _ = x, y
				continue // one value, and a list of that one value
			}
			want = append(want, fmt.Sprintf("~ %s %s %s", n, show(val(f)), show(val(g))))
		}
	}
	for n, g := range fieldsB {
		if _, ok := fieldsA[n]; !ok || other {
			want = append(want, fmt.Sprintf("+ %s %s", n, show(val(g))))
		}
	}
	shown := func(v any) string {
		if l, ok := v.([]interface{}); ok {
			var s []string
			for _, x := range l {
				s = append(s, fmt.Sprint(x))
			}
			return show(s)
		}
		return show(v)
	}
	for _, x := range d.Removed {
		got = append(got, fmt.Sprintf("- %s %s", x.FieldName, shown(x.OldValue)))
	}
	for _, x := range d.Modified {
		if f, g := fieldsA[x.FieldName], fieldsB[x.FieldName]; f.multi != g.multi && f.val != nil && reflect.DeepEqual(f.val, g.val) {
			continue
		}
		got = append(got, fmt.Sprintf("~ %s %s %s", x.FieldName, shown(x.OldValue), shown(x.NewValue)))
	}
	for _, x := range d.Added {
		got = append(got, fmt.Sprintf("+ %s %s", x.FieldName, shown(x.NewValue)))
	}
	sort.Strings(want)
	sort.Strings(got)
	if !reflect.DeepEqual(want, got) {
		return fmt.Errorf("form changes reported %q, want %q", got, want)
	}
	if some := len(d.Added)+len(d.Removed)+len(d.Modified) > 0 || other; some != (o.r.FormDiff != nil) {
		return fmt.Errorf("form difference without a change")
	} else if some {
		o.want++
	}
	return nil
}

func (o *oracle) check() error {
	r := o.r
	if err := o.metadata(); err != nil {
		return err
	}
	na, nb := len(o.a.pages), len(o.b.pages)
	if (na != nb) != (r.StructureDiff != nil) || r.Summary.StructureChanged != (na != nb) {
		return fmt.Errorf("%d and %d pages, structure difference %v, StructureChanged %v", na, nb, r.StructureDiff != nil, r.Summary.StructureChanged)
	}
	if na != nb {
		o.want++
		if f := r.StructureDiff.PageCountDiff; f == nil || f.OldValue != na || f.NewValue != nb {
			return fmt.Errorf("page count %d -> %d reported as %+v", na, nb, f)
		}
	}
	byPage := map[int]*compare.PageDifference{}
	for i := range r.PageDiffs {
		pd := &r.PageDiffs[i]
		if byPage[pd.PageNumber] != nil || i > 0 && r.PageDiffs[i-1].PageNumber >= pd.PageNumber {
			return fmt.Errorf("page differences out of order: page %d", pd.PageNumber)
		}
		byPage[pd.PageNumber] = pd
	}
	for i := 0; i < max(na, nb); i++ {
		pd := byPage[i+1]
		delete(byPage, i+1)
		if i < na && i < nb {
			if err := o.page(i, pd); err != nil {
				return err
			}
			continue
		}
		cat := "removed"
		if i >= na {
			cat = "added"
		}
		if pd == nil || len(pd.Differences) != 1 || pd.Differences[0].Category != cat {
			return fmt.Errorf("page %d is not reported as %s: %+v", i+1, cat, pd)
		}
		o.want++
	}
	if len(byPage) > 0 {
		return fmt.Errorf("differences on pages that are not there")
	}
	if r.Summary.PagesChanged != (len(r.PageDiffs) > 0) {
		return fmt.Errorf("PagesChanged is %v with %d page differences", r.Summary.PagesChanged, len(r.PageDiffs))
	}
	if err := o.forms(); err != nil {
		return err
	}
	// outlines
	books := 0
	for _, d := range r.Differences {
		if d.Type == compare.DifferenceTypeBookmark {
			books++
		}
	}
	same := sameBooks(o.a.books, o.b.books)
	if books != b2i(!same) {
		return fmt.Errorf("bookmark differences reported: %d, bookmarks equal: %v", books, same)
	}
	o.want += books
	if want := books + b2i(r.FormDiff != nil); len(r.Differences) != want {
		return fmt.Errorf("%d document differences listed, want %d", len(r.Differences), want)
	}
	if want := len(r.PageDiffs) > 0 || r.FormDiff != nil; r.Summary.ContentChanged != want {
		return fmt.Errorf("ContentChanged is %v", r.Summary.ContentChanged)
	}
	if r.Summary.TotalDifferences != o.want || r.Identical != (o.want == 0) {
		return fmt.Errorf("total of %d differences, identical %v; the lists have %d", r.Summary.TotalDifferences, r.Identical, o.want)
	}
	return o.report()
}

func (o *oracle) report() error {
	r := o.r
	text := compare.GenerateReport(r)
	if strings.Contains(text, "IDENTICAL") != r.Identical || strings.Contains(text, "DIFFERENT") == r.Identical {
		return fmt.Errorf("report of identical %v: %q", r.Identical, text)
	}
	var needs []string
	if !r.Identical {
		needs = append(needs, fmt.Sprintf("Total Differences: %d\n", r.Summary.TotalDifferences))
	}
	for i, pd := range r.PageDiffs {
		_, section, _ := strings.Cut(text, fmt.Sprintf("\nPage %d:\n", pd.PageNumber))
		if i+1 < len(r.PageDiffs) {
			var ok bool
			if section, _, ok = strings.Cut(section, fmt.Sprintf("\nPage %d:\n", r.PageDiffs[i+1].PageNumber)); !ok {
				return fmt.Errorf("report has no page %d after page %d: %q", r.PageDiffs[i+1].PageNumber, pd.PageNumber, text)
			}
		}
		var says []string
		for _, d := range pd.Differences {
			says = append(says, d.Description)
		}
		count := func(what string, n int) {
			if n > 0 {
				says = append(says, fmt.Sprintf("%s: %d elements\n", what, n))
			} else if strings.Contains(section, what+": ") {
				says = append(says, "no "+what)
			}
		}
		if x := pd.TextDiff; x != nil {
			count("Text Added", len(x.Added))
			count("Text Removed", len(x.Removed))
			count("Text Modified", len(x.Modified))
		}
		if x := pd.GraphicDiff; x != nil {
			count("Graphics Added", len(x.Added))
			count("Graphics Removed", len(x.Removed))
		}
		if x := pd.ImageDiff; x != nil {
			count("Images Added", len(x.Added))
			count("Images Removed", len(x.Removed))
			count("Images Modified", len(x.Modified))
			count("Images Moved", len(x.Moved))
		}
		if x := pd.AnnotationDiff; x != nil {
			count("Annotations Added", len(x.Added))
			count("Annotations Removed", len(x.Removed))
		}
		for _, n := range says {
			if !strings.Contains(section, n) {
				return fmt.Errorf("report does not say %q for page %d: %q", n, pd.PageNumber, section)
			}
		}
	}
	for _, d := range r.Differences {
		needs = append(needs, d.Description)
	}
	if m := r.MetadataDiff; m != nil {
		v := reflect.ValueOf(*m)
		for i := 0; i < v.NumField(); i++ {
			if f, ok := v.Field(i).Interface().(*compare.FieldDiff); ok && f != nil {
				needs = append(needs, fmt.Sprintf("%v -> %v", f.OldValue, f.NewValue))
			}
		}
	}
	if f := r.FormDiff; f != nil {
		if t := f.FormType; t != nil {
			needs = append(needs, fmt.Sprintf("Form Type: %v -> %v", t.OldValue, t.NewValue))
		}
		for what, n := range map[string]int{"Added": len(f.Added), "Removed": len(f.Removed), "Modified": len(f.Modified)} {
			if n > 0 {
				needs = append(needs, fmt.Sprintf("Fields %s: %d\n", what, n))
			}
		}
		for _, x := range f.Added {
			needs = append(needs, fmt.Sprintf("%s: %v", x.FieldName, x.NewValue))
		}
		for _, x := range f.Removed {
			needs = append(needs, fmt.Sprintf("%s: %v", x.FieldName, x.OldValue))
		}
		for _, x := range f.Modified {
			needs = append(needs, fmt.Sprintf("%s: %v -> %v", x.FieldName, x.OldValue, x.NewValue))
		}
	}
	for _, n := range needs {
		if !strings.Contains(text, n) {
			return fmt.Errorf("report does not mention %q: %q", n, text)
		}
	}
	js, err := compare.GenerateJSONReport(r)
	if err != nil {
		return fmt.Errorf("JSON report: %v", err)
	}
	var back compare.ComparisonResult
	if err := json.Unmarshal([]byte(js), &back); err != nil {
		return fmt.Errorf("JSON report does not read back: %v", err)
	}
	again, err := compare.GenerateJSONReport(&back)
	if err != nil {
		return err
	}
	// field values may be numbers or strings of any kind: compare what both texts say
	var x, y any
	if json.Unmarshal([]byte(js), &x) != nil || json.Unmarshal([]byte(again), &y) != nil || !reflect.DeepEqual(x, y) {
		return fmt.Errorf("JSON report reads back as something else")
	}
	return nil
}

func sameBooks(a, b []qbook) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].title != b[i].title || a[i].page != b[i].page || a[i].uri != b[i].uri || a[i].name != b[i].name || !viewsEqual(a[i].view, b[i].view) || !sameBooks(a[i].kids, b[i].kids) {
			return false
		}
	}
	return true
}

// viewsEqual: two of the views are the same.
func viewsEqual(i, j int) bool { return reflect.DeepEqual(cViews[i], cViews[j]) }

func runCompare(c *hx.C, tag string, a, b *qdoc, ab, bb []byte, o compare.CompareOptions) *compare.ComparisonResult {
	gA, gB := guard(ab), guard(bb)
	c.Keep("documents", [][]byte{ab, bb, a.user, b.user})
	c.Keep("options", o)
	r, err := compare.ComparePDFsWithOptions(ab, bb, a.user, b.user, o)
	if err != nil {
		c.Fail("%s: comparison failed: %v", tag, err)
	}
	c.See("comparison", r)
	or := &oracle{c: c, a: a, b: b, o: o, r: r}
	if err := or.check(); err != nil {
		c.Fail("%s with %+v: %v", tag, o, err)
	}
	if !gA() || !gB() {
		c.Fail("%s: input changed", tag)
	}
	return r
}

func listJSON(v any) []string {
	x := reflect.ValueOf(v)
	var out []string
	for i := 0; i < x.Len(); i++ {
		b, _ := json.Marshal(x.Index(i).Interface())
		out = append(out, string(b))
	}
	sort.Strings(out)
	return out
}

// mirrored: what one comparison adds the other one removes.
func mirrored(x, y *compare.ComparisonResult, o compare.CompareOptions) error {
	if x.Identical != y.Identical || x.Summary != y.Summary {
		return fmt.Errorf("summary %+v swapped %+v", x.Summary, y.Summary)
	}
	if len(x.PageDiffs) != len(y.PageDiffs) {
		return fmt.Errorf("%d page differences swapped %d", len(x.PageDiffs), len(y.PageDiffs))
	}
	pair := func(what string, a, b any) error {
		if p, q := listJSON(a), listJSON(b); !reflect.DeepEqual(p, q) {
			return fmt.Errorf("%s: %v swapped %v", what, p, q)
		}
		return nil
	}
	for i := range x.PageDiffs {
		p, q := x.PageDiffs[i], y.PageDiffs[i]
		if p.PageNumber != q.PageNumber || len(p.Differences) != len(q.Differences) {
			return fmt.Errorf("page %d: %v swapped %v", p.PageNumber, p.Differences, q.Differences)
		}
		var errs []error
		if s, t := p.TextDiff, q.TextDiff; s != nil && t != nil && !o.DetectMoves {
			errs = append(errs, pair("texts", s.Added, t.Removed), pair("texts", s.Removed, t.Added))
			var old, new []types.TextElement
			for _, m := range s.Modified {
				old = append(old, m.Old)
			}
			for _, m := range t.Modified {
				new = append(new, m.New)
			}
			errs = append(errs, pair("modified texts", old, new))
		} else if (s == nil) != (t == nil) {
			return fmt.Errorf("page %d: texts differ one way only", p.PageNumber)
		}
		if s, t := p.GraphicDiff, q.GraphicDiff; s != nil && t != nil {
			errs = append(errs, pair("graphics", s.Added, t.Removed), pair("graphics", s.Removed, t.Added))
		} else if s != nil || t != nil {
			return fmt.Errorf("page %d: graphics differ one way only", p.PageNumber)
		}
		if s, t := p.ImageDiff, q.ImageDiff; s != nil && t != nil {
			if len(s.Added) != len(t.Removed) || len(s.Removed) != len(t.Added) || len(s.Modified) != len(t.Modified) || len(s.Moved) != len(t.Moved) {
				return fmt.Errorf("page %d: image differences not mirrored", p.PageNumber)
			}
		} else if s != nil || t != nil {
			return fmt.Errorf("page %d: images differ one way only", p.PageNumber)
		}
		if s, t := p.AnnotationDiff, q.AnnotationDiff; s != nil && t != nil {
			errs = append(errs, pair("annotations", s.Added, t.Removed), pair("annotations", s.Removed, t.Added))
		} else if s != nil || t != nil {
			return fmt.Errorf("page %d: annotations differ one way only", p.PageNumber)
		}
		for _, err := range errs {
			if err != nil {
				return fmt.Errorf("page %d: %v", p.PageNumber, err)
			}
		}
	}
	return nil
}

func shuffleOrder(c *hx.C, p *qpage) {
	for i := len(p.order) - 1; i > 0; i-- {
		j := num(c, "oshuf", 0, i)
		p.order[i], p.order[j] = p.order[j], p.order[i]
	}
}

func init() {
	hx.Reg("C15", "pairs", 8000, "two renderings of models that differ in at least one respect the options look at", func(c *hx.C) {
		pool := cPool(c)
		o := cOptions(c)
		a := cDoc(c, len(pool))
		for i := range a.pages {
			if oneIn(c, "shufa", 3) {
				shuffleOrder(c, &a.pages[i])
			}
		}
		var b *qdoc
		kind := num(c, "pair", 0, 9)
		edits := 0
		switch {
		case kind == 0: // rewrite
			b = a.clone()
			c.Class("rewrite")
		case kind == 9:
			b = cDoc(c, len(pool))
			b.version = a.version
			c.Class("unrelated")
		default:
			b = a.clone()
			edits = []int{1, 1, 1, 2, 3, 5, 8}[num(c, "edits", 0, 6)]
			small := 0.0
			if t := min(o.TextTolerance, o.GraphicTolerance); t > 0 {
				small = t * pick(c, "esmall", 0.5, 0.9)
			}
			if oneIn(c, "scatter", 4) {
				b.scatter(c, len(pool), min(small, 0.9), 45)
				edits = 1
				c.Class("altered throughout")
			}
			for i := 0; i < edits; i++ {
				b.edit(c, len(pool), min(small, 0.9), 45)
				if small > 0.9 && flip(c, "ewide") {
					// within the tolerances of text and graphics
					pg := &b.pages[num(c, "epage", 0, len(b.pages)-1)]
					if k, ok := someKey(c, "ek", pg.texts); ok {
						t := pg.texts[k]
						t.dx += small
						if t.dx < 60 {
							pg.texts[k] = t
						}
					}
				}
			}
			c.Class("edited")
		}
		if oneIn(c, "shufb", 3) {
			for i := range b.pages {
				shuffleOrder(c, &b.pages[i])
			}
		}
		if o.GraphicTolerance > 0 || o.TextTolerance > 0 {
			for _, d := range []*qdoc{a, b} {
				for i := range d.pages {
					clampCells(&d.pages[i])
				}
			}
		}
		if !farOrNear(a, b, o) {
			c.Excluded("distance close to a tolerance")
			return
		}
		ab, bb := a.bytes(c, pool), b.bytes(c, pool)
		c.Dump("a.pdf", ab)
		c.Dump("b.pdf", bb)
		r := runCompare(c, "comparison", a, b, ab, bb, o)
		s := runCompare(c, "swapped comparison", b, a, bb, ab, o)
		if err := mirrored(r, s, o); err != nil {
			c.Fail("with %+v: %v", o, err)
		}
		c.ClassIf(r.Identical, "identical")
		for _, pd := range r.PageDiffs {
			c.ClassIf(pd.TextDiff != nil, "text")
			c.ClassIf(pd.TextDiff != nil && len(pd.TextDiff.Modified) > 0, "text modified")
			c.ClassIf(pd.GraphicDiff != nil, "graphics")
			c.ClassIf(pd.ImageDiff != nil, "images")
			c.ClassIf(pd.ImageDiff != nil && len(pd.ImageDiff.Moved) > 0, "image moved")
			c.ClassIf(pd.ImageDiff != nil && len(pd.ImageDiff.Modified) > 0, "image modified")
			c.ClassIf(pd.AnnotationDiff != nil, "annotations")
		}
		c.ClassIf(r.FormDiff != nil, "form")
		c.ClassIf(r.FormDiff != nil && r.FormDiff.FormType != nil, "form type")
		c.ClassIf(r.MetadataDiff != nil, "metadata")
		c.ClassIf(a.user != nil || b.user != nil, "encrypted")
		if !r.Identical {
			c.NT(fmt.Sprint(fnvb(ab), fnvb(bb)))
		}
		// each document against itself
		runCompare(c, "self comparison", a, a, ab, ab, o)
		// repeating gives the same
		t, err := compare.ComparePDFsWithOptions(ab, bb, a.user, b.user, o)
		if err != nil {
			c.Fail("second comparison failed: %v", err)
		}
		j1, _ := compare.GenerateJSONReport(r)
		j2, _ := compare.GenerateJSONReport(t)
		if j1 != j2 || compare.GenerateReport(r) != compare.GenerateReport(t) {
			c.Fail("the same comparison gives two reports:\n%s\n%s", j1, j2)
		}
		if reflect.DeepEqual(o, compare.DefaultCompareOptions()) {
			u, err := compare.ComparePDFs(ab, bb, a.user, b.user, false)
			if err != nil {
				c.Fail("ComparePDFs: %v", err)
			}
			if j3, _ := compare.GenerateJSONReport(u); j3 != j1 {
				c.Fail("ComparePDFs differs from the default options")
			}
		}
		if a.user != nil && len(a.user) > 0 {
			if _, err := compare.ComparePDFsWithOptions(ab, bb, []byte("wrong"), b.user, o); err == nil {
				c.Fail("comparison with a wrong password succeeds")
			}
		}
	})
}

// clampCells keeps what was shifted repeatedly inside its cell.
func clampCells(p *qpage) {
	cl := func(v float64) float64 { return math.Max(-9, math.Min(63, v)) }
	for k, t := range p.texts {
		t.dx, t.dy = cl(t.dx), cl(t.dy)
		p.texts[k] = t
	}
	for k, g := range p.graph {
		g.dx, g.dy = cl(g.dx), cl(g.dy)
		p.graph[k] = g
	}
	for k, g := range p.images {
		g.dx, g.dy = cl(g.dx), cl(g.dy)
		p.images[k] = g
	}
}

// farOrNear: no two positions of a cell are at about a tolerance's distance, where rounding decides.
func farOrNear(a, b *qdoc, o compare.CompareOptions) bool {
	clear := func(d, tol float64) bool { return d == 0 || math.Abs(math.Abs(d)-tol) > 0.02 }
	for i := range a.pages {
		if i >= len(b.pages) {
			break
		}
		p, q := a.pages[i], b.pages[i]
		for k, t := range p.texts {
			if u, ok := q.texts[k]; ok && !(clear(t.dx-u.dx, o.TextTolerance) && clear(t.dy-u.dy, o.TextTolerance)) {
				return false
			}
		}
		for k, t := range p.graph {
			if u, ok := q.graph[k]; ok && !(clear(t.dx-u.dx, o.GraphicTolerance) && clear(t.dy-u.dy, o.GraphicTolerance)) {
				return false
			}
		}
		for k, t := range p.images {
			if u, ok := q.images[k]; ok && !(clear(t.dx-u.dx, 1) && clear(t.dy-u.dy, 1)) {
				return false
			}
		}
	}
	return true
}
