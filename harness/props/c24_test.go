package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"unicode/utf8"

	"verif/harness/hx"
	"verif/harness/ref"

	"github.com/benedoc-inc/pdfer/content/extract"
	"github.com/benedoc-inc/pdfer/types"
)

// C24: pages report the geometry and the annotations the document gives them.

// genNum draws a number in one of its written forms.
func genNum(c *hx.C, label string) (ref.Obj, float64) {
	v := num(c, label, -2000, 2000)
	switch num(c, label+"form", 0, 6) {
	case 0:
		s := fmt.Sprintf("%d.%s", v, pick(c, label+"frac", "", "0", "5", "25", "125", "0001", "999999"))
		x, _ := strconv.ParseFloat(s, 64)
		return ref.Real(s), x
	case 1:
		s := pick(c, label+"odd", ".5", "-.25", "+3", "+.5", "0007", "-0", "0.0", "-0.", "12345678.5", "0.000001")
		x, _ := strconv.ParseFloat(s, 64)
		return ref.Real(s), x
	}
	return v, float64(v)
}

// numArr draws an array of n numbers, elements and array direct or indirect.
func numArr(c *hx.C, f *fd, label string, n int) (ref.Obj, []float64) {
	a, v := ref.Arr{}, []float64{}
	for i := 0; i < n; i++ {
		o, x := genNum(c, label)
		a, v = append(a, f.ind(o)), append(v, x)
	}
	return f.ind(a), v
}

// anyRect draws a rectangle whose corners come in any order.
func anyRect(c *hx.C, f *fd, label string) (ref.Obj, *types.Rectangle) {
	o, v := numArr(c, f, label, 4)
	return o, &types.Rectangle{LowerX: math.Min(v[0], v[2]), LowerY: math.Min(v[1], v[3]), UpperX: math.Max(v[0], v[2]), UpperY: math.Max(v[1], v[3])}
}

func sameRect(what string, got, want *types.Rectangle) error {
	if (got == nil) != (want == nil) || got != nil && *got != *want {
		return fmt.Errorf("%s is %v, want %v", what, hx.Show(got), hx.Show(want))
	}
	return nil
}

// mannot is an annotation and what is to be reported about it.
type mannot struct {
	types.Annotation
	dest  ref.Obj // explicit or named by a name, compared as a value
	obj   ref.Obj // as listed
	plain bool    // Destination is text
}

// annotSubtypes are subtypes of annotations and their reported types.
var annotSubtypes = map[string]types.AnnotationType{
	"Link": types.AnnotationTypeLink, "Text": types.AnnotationTypeText, "Highlight": types.AnnotationTypeHighlight, "Underline": types.AnnotationTypeUnderline,
	"StrikeOut": types.AnnotationTypeStrikeout, "Squiggly": types.AnnotationTypeSquiggly, "Circle": types.AnnotationTypeCircle, "Square": types.AnnotationTypeSquare,
	"Line": types.AnnotationTypeLine, "Polygon": types.AnnotationTypePolygon, "PolyLine": types.AnnotationTypePolyline, "Ink": types.AnnotationTypeInk,
	"Stamp": types.AnnotationTypeStamp, "Caret": types.AnnotationTypeCaret, "FreeText": types.AnnotationTypeFreeText, "Popup": types.AnnotationTypePopup,
	"Widget": "Widget", "FileAttachment": "FileAttachment", "3D": "3D", "Movie": "Movie", "X#Y z": "X#Y z",
}

var annotNames = sortedKeys(annotSubtypes)

// genAnnot draws an annotation of a page: entries of its kind and of others, in any order, direct or not.
func genAnnot(c *hx.C, f *fd, page int, target func() ref.Ref) *mannot {
	a := &mannot{}
	a.PageNumber = page
	sub := pick(c, "subtype", annotNames...)
	if oneIn(c, "linky", 4) {
		sub = "Link"
	}
	a.Type = annotSubtypes[sub]
	d := ref.Dict{{K: "Subtype", V: f.ind(ref.Name(sub))}}
	put := func(k string, v ref.Obj) {
		at := num(c, "at", 0, len(d))
		d = append(d[:at:at], append(ref.Dict{{K: k, V: v}}, d[at:]...)...)
	}
	if flip(c, "typed") {
		put("Type", ref.Name("Annot"))
	}
	if !oneIn(c, "norect", 8) {
		var o ref.Obj
		o, a.Rect = anyRect(c, f, "rect")
		put("Rect", o)
	}
	for _, k := range []struct {
		key string
		to  *string
	}{{"Contents", &a.Contents}, {"T", &a.Title}, {"Subj", &a.Subject}} {
		if flip(c, "has"+k.key) {
			o, s := foreignText(c, "text")
			put(k.key, f.ind(o))
			*k.to = s
		}
	}
	if flip(c, "hascolor") {
		n := pick(c, "ncolor", 0, 1, 3, 4)
		arr, v := ref.Arr{}, []float64{}
		for i := 0; i < n; i++ {
			s := pick(c, "comp", "0", "1", "0.5", ".25", "1.0", "0.3333")
			x, _ := strconv.ParseFloat(s, 64)
			arr, v = append(arr, f.ind(ref.Real(s))), append(v, x)
		}
		put("C", f.ind(arr))
		switch n {
		case 1:
			a.Color = &types.Color{Space: types.ColorSpaceGray, R: v[0]}
		case 3:
			a.Color = &types.Color{Space: types.ColorSpaceRGB, R: v[0], G: v[1], B: v[2]}
		case 4:
			a.Color = &types.Color{Space: types.ColorSpaceCMYK, C: v[0], M: v[1], Y: v[2], K: v[3]}
		}
	}
	if oneIn(c, "hasborder", 3) {
		arr, v := ref.Arr{}, 0.0
		for i := 0; i < 3; i++ {
			var o ref.Obj
			o, v = genNum(c, "bord")
			arr = append(arr, f.ind(o))
		}
		a.Border = &types.Border{Width: v}
		if flip(c, "dash") {
			o, dash := numArr(c, f, "dashn", num(c, "ndash", 0, 3))
			arr = append(arr, o)
			a.Border.Dash = dash
		}
		put("Border", f.ind(arr))
	}
	// links lead somewhere; the same entries of other annotations say nothing about a link
	link := a.Type == types.AnnotationTypeLink
	if link || oneIn(c, "nonlink", 6) {
		dest := func() (ref.Obj, ref.Obj, string) { // written, value, text
			switch num(c, "destkind", 0, 2) {
			case 0:
				o, s := foreignText(c, "destname")
				return f.ind(o), nil, s
			case 1:
				n := ref.Name(pick(c, "destn", "Chapter1", "a b", "x#y", "é", "p(1)"))
				return f.ind(n), n, ""
			}
			arr := ref.Arr{target(), ref.Name(pick(c, "fit", "Fit", "FitH", "XYZ"))}
			for i, n := 0, num(c, "destargs", 0, 3); i < n; i++ {
				arr = append(arr, pick[ref.Obj](c, "destarg", ref.Null{}, 0, 720, ref.Real("1.5")))
			}
			return f.ind(arr), arr, ""
		}
		set := func(v ref.Obj, s string) {
			if link && a.dest == nil && !a.plain {
				a.dest, a.plain, a.Destination = v, v == nil, s
			}
		}
		has := num(c, "linkform", 0, 3)
		if has == 0 || has == 3 {
			o, v, s := dest()
			put("Dest", o)
			set(v, s)
		}
		switch {
		case has == 1 || has == 3 && flip(c, "goto"):
			o, v, s := dest()
			put("A", f.ind(ref.Dict{{K: "S", V: f.ind(ref.Name("GoTo"))}, {K: "D", V: o}}))
			set(v, s)
		case has == 2 || has == 3 && flip(c, "uri"):
			u := pick(c, "uri", "http://example.com/", "https://x.y/a(b)c?d=%20&e=\\", "mailto:a@b", "x", "javascript:(", "file:///a b")
			put("A", f.ind(ref.Dict{{K: "Type", V: ref.Name("Action")}, {K: "S", V: f.ind(ref.Name("URI"))}, {K: "URI", V: f.ind(ref.Str{B: []byte(u), Hex: flip(c, "urihex")})}}))
			if link {
				a.URI = u
			}
		case oneIn(c, "otheraction", 3):
			put("A", ref.Dict{{K: "S", V: ref.Name("Named")}, {K: "N", V: ref.Name("NextPage")}, {K: "URI", V: ref.Str{B: []byte("not")}}, {K: "D", V: ref.Str{B: []byte("not")}}})
		}
	}
	if a.Type == types.AnnotationTypeText || oneIn(c, "icons", 6) {
		if flip(c, "hasopen") {
			on := flip(c, "open")
			put("Open", f.ind(on))
			a.Open = on && a.Type == types.AnnotationTypeText
		}
		if flip(c, "hasicon") {
			n := pick(c, "icon", "Comment", "Note", "My Icon")
			put("Name", f.ind(ref.Name(n)))
			if a.Type == types.AnnotationTypeText {
				a.Icon = n
			}
		}
	}
	markup := a.Type == types.AnnotationTypeHighlight || a.Type == types.AnnotationTypeUnderline || a.Type == types.AnnotationTypeStrikeout || a.Type == types.AnnotationTypeSquiggly
	if markup || oneIn(c, "quads", 8) {
		quads, rest := num(c, "nquads", 0, 3), 0
		if oneIn(c, "quadrest", 10) { // an incomplete one at the end
			rest = num(c, "nquadrest", 1, 7)
		}
		o, v := numArr(c, f, "quad", 8*quads+rest)
		v = v[:8*quads]
		put("QuadPoints", o)
		for i := 0; markup && i < len(v); i += 2 {
			a.QuadPoints = append(a.QuadPoints, types.Point{X: v[i], Y: v[i+1]})
		}
	}
	for _, k := range []string{"NM", "M", "RC", "Parent", "Popup", "AP", "BS", "IRT"} {
		if oneIn(c, "more"+k, 12) {
			put(k, genObj(c, 2, 1))
		}
	}
	if flip(c, "direct") {
		a.obj = d
		return a
	}
	r := f.add(d)
	a.obj, a.ID = r, fmt.Sprint(r.N)
	return a
}

// gpage is a page and what is to be reported about it.
type gpage struct {
	boxes  map[string]*types.Rectangle
	rotate int
	annots []*mannot
}

type annotDoc struct {
	f     *fd
	b     []byte
	pages []*gpage
	form  bool
}

func genAnnotDoc(c *hx.C) *annotDoc {
	f := newFD(c)
	m := &annotDoc{f: f}
	if oneIn(c, "encrypt", 4) {
		f.user, f.owner = []byte("user"), []byte("owner")
	}
	np := count(c, "pages", 1, 5, 40)
	var eff []map[string]ref.Obj
	root, pages := f.pageTree(np, func(i int) (ref.Dict, ref.Dict) {
		own, inh := ref.Dict{}, ref.Dict{}
		p := &gpage{boxes: map[string]*types.Rectangle{}}
		m.pages = append(m.pages, p)
		for _, k := range []string{"MediaBox", "CropBox", "BleedBox", "TrimBox", "ArtBox"} {
			if k != "MediaBox" && !oneIn(c, "has"+k, 3) {
				continue
			}
			o, r := anyRect(c, f, "box")
			if k == "MediaBox" || k == "CropBox" {
				inh = append(inh, ref.KV{K: k, V: o})
			} else {
				p.boxes[k] = r
				own = append(own, ref.KV{K: k, V: o})
			}
		}
		if flip(c, "hasrot") {
			v := pick(c, "rot", 0, 90, 180, 270, -90, 360, 450, -270, -180, 3690)
			var o ref.Obj = v
			if oneIn(c, "rotreal", 6) {
				o = ref.Real(fmt.Sprintf("%d.0", v))
			}
			inh = append(inh, ref.KV{K: "Rotate", V: f.ind(o)})
		}
		if oneIn(c, "nores", 3) {
			inh = append(inh, ref.KV{K: "Resources", V: ref.Dict{}})
		}
		eff = append(eff, nil)
		return own, inh
	})
	value := func(o ref.Obj) ref.Obj {
		for {
			r, ok := o.(ref.Ref)
			if !ok {
				return o
			}
			o = f.objs[r.N]
		}
	}
	float := func(o ref.Obj) float64 {
		switch v := value(o).(type) {
		case int:
			return float64(v)
		case ref.Real:
			x, _ := strconv.ParseFloat(string(v), 64)
			return x
		}
		panic(fmt.Sprintf("not a number: %v", o))
	}
	for i, p := range pages {
		mp := m.pages[i]
		for _, k := range []string{"MediaBox", "CropBox"} {
			if o := p.eff.Get(k); o != nil {
				a := value(o).(ref.Arr)
				x := []float64{float(a[0]), float(a[1]), float(a[2]), float(a[3])}
				mp.boxes[k] = &types.Rectangle{LowerX: math.Min(x[0], x[2]), LowerY: math.Min(x[1], x[3]), UpperX: math.Max(x[0], x[2]), UpperY: math.Max(x[1], x[3])}
			}
		}
		if o := p.eff.Get("Rotate"); o != nil {
			mp.rotate = ((int(float(o)) % 360) + 360) % 360
		}
	}
	for i, p := range pages {
		list := ref.Arr{}
		mp := m.pages[i]
		for j, n := 0, count(c, "annots", 0, 5, 60); j < n; j++ {
			if oneIn(c, "junk", 10) {
				list = append(list, pick[ref.Obj](c, "junkv", ref.Null{}, 12, ref.Name("x"), ref.Dict{{K: "Rect", V: ref.Arr{0, 0, 1, 1}}}, ref.Arr{}))
				continue
			}
			var a *mannot
			if len(mp.annots) > 0 && oneIn(c, "again", 10) {
				a = mp.annots[num(c, "which", 0, len(mp.annots)-1)]
			} else {
				a = genAnnot(c, f, i+1, func() ref.Ref { return pages[spread(c, "target", np)].ref })
			}
			mp.annots = append(mp.annots, a)
			list = append(list, a.obj)
		}
		if len(list) > 0 || flip(c, "emptylist") {
			d := f.objs[p.ref.N].(ref.Dict)
			f.set(p.ref, append(append(ref.Dict{}, d...), ref.KV{K: "Annots", V: f.ind(list)}))
		}
	}
	cat := ref.Dict{{K: "Type", V: ref.Name("Catalog")}, {K: "Pages", V: root}}
	switch num(c, "form", 0, 4) {
	case 2:
		m.form = true
		cat = append(cat, ref.KV{K: "AcroForm", V: f.ind(ref.Dict{{K: "Fields", V: ref.Arr{}}, {K: "XFA", V: f.ind(ref.Arr{ref.Str{B: []byte("datasets")}, f.stream(nil, []byte("<xfa:datasets/>"))})}})})
	case 0:
		m.form = true
		fld := f.add(ref.Dict{{K: "FT", V: ref.Name("Tx")}, {K: "T", V: ref.Str{B: []byte("a")}}})
		cat = append(cat, ref.KV{K: "AcroForm", V: f.ind(ref.Dict{{K: "Fields", V: f.ind(ref.Arr{fld})}})})
	case 1:
		cat = append(cat, ref.KV{K: "AcroForm", V: f.ind(ref.Dict{{K: "Fields", V: f.ind(ref.Arr{})}})})
	}
	f.trailer = ref.Dict{{K: "Root", V: f.add(cat)}}
	m.b = f.emit()
	return m
}

// check compares one reported annotation with the model.
func (a *mannot) check(got *types.Annotation) error {
	g, w := *got, a.Annotation
	if err := sameRect("rectangle", g.Rect, w.Rect); err != nil {
		return err
	}
	if (g.Color == nil) != (w.Color == nil) || g.Color != nil && *g.Color != *w.Color {
		return fmt.Errorf("color %s, want %s", hx.Show(g.Color), hx.Show(w.Color))
	}
	if (g.Border == nil) != (w.Border == nil) || g.Border != nil && (g.Border.Width != w.Border.Width || fmt.Sprint(g.Border.Dash) != fmt.Sprint(w.Border.Dash)) {
		return fmt.Errorf("border %s, want %s", hx.Show(g.Border), hx.Show(w.Border))
	}
	if fmt.Sprint(g.QuadPoints) != fmt.Sprint(w.QuadPoints) {
		return fmt.Errorf("quad points %v, want %v", g.QuadPoints, w.QuadPoints)
	}
	for _, x := range [][3]string{{"ID", g.ID, w.ID}, {"type", string(g.Type), string(w.Type)}, {"contents", g.Contents, w.Contents}, {"title", g.Title, w.Title}, {"subject", g.Subject, w.Subject}, {"URI", g.URI, w.URI}, {"icon", strings.TrimPrefix(g.Icon, "/"), w.Icon}, {"page", fmt.Sprint(g.PageNumber), fmt.Sprint(w.PageNumber)}, {"open", fmt.Sprint(g.Open), fmt.Sprint(w.Open)}} {
		if x[1] != x[2] {
			return fmt.Errorf("%s %q, want %q", x[0], x[1], x[2])
		}
	}
	if a.dest == nil {
		if g.Destination != w.Destination {
			return fmt.Errorf("destination %q, want %q", g.Destination, w.Destination)
		}
		return nil
	}
	o, err := ref.ParseObject([]byte(g.Destination))
	if err != nil || ref.Canon(o) != ref.Canon(a.dest) {
		return fmt.Errorf("destination %q, want %s (%v)", g.Destination, ref.Canon(a.dest), err)
	}
	return nil
}

func (p *gpage) check(n int, got *types.Page) error {
	if got.PageNumber != n {
		return fmt.Errorf("page number %d", got.PageNumber)
	}
	for k, g := range map[string]*types.Rectangle{"MediaBox": got.MediaBox, "CropBox": got.CropBox, "BleedBox": got.BleedBox, "TrimBox": got.TrimBox, "ArtBox": got.ArtBox} {
		if err := sameRect(k, g, p.boxes[k]); err != nil {
			return err
		}
	}
	mb := p.boxes["MediaBox"]
	if !near(got.Width, mb.UpperX-mb.LowerX) || !near(got.Height, mb.UpperY-mb.LowerY) {
		return fmt.Errorf("size %v x %v of %v", got.Width, got.Height, *mb)
	}
	if got.Rotation != p.rotate {
		return fmt.Errorf("rotation %d, want %d", got.Rotation, p.rotate)
	}
	return checkAnnots(got.Annotations, p.annots)
}

func checkAnnots(got []types.Annotation, want []*mannot) error {
	if len(got) != len(want) {
		return fmt.Errorf("%d annotations, want %d", len(got), len(want))
	}
	for i, a := range want {
		if err := a.check(&got[i]); err != nil {
			return fmt.Errorf("annotation %d (%s): %v", i, a.Type, err)
		}
	}
	return nil
}

func (m *annotDoc) check(doc *types.ContentDocument) error {
	if len(doc.Pages) != len(m.pages) {
		return fmt.Errorf("%d pages, want %d", len(doc.Pages), len(m.pages))
	}
	var all []*mannot
	for i, p := range m.pages {
		if err := p.check(i+1, &doc.Pages[i]); err != nil {
			return fmt.Errorf("page %d: %v", i+1, err)
		}
		all = append(all, p.annots...)
	}
	return checkAnnots(doc.Annotations, all)
}

// sameJSON compares the JSON form of a document with the document.
func sameJSON(text string, doc *types.ContentDocument) error {
	if !utf8.ValidString(text) {
		return fmt.Errorf("JSON is not UTF-8")
	}
	want, err := json.Marshal(doc)
	if err != nil {
		return fmt.Errorf("harness: %v", err)
	}
	var a, b bytes.Buffer
	if err := json.Compact(&a, []byte(text)); err != nil {
		return fmt.Errorf("not JSON: %v", err)
	}
	if err := json.Compact(&b, want); err != nil {
		return fmt.Errorf("harness: %v", err)
	}
	var x, y any
	if json.Unmarshal(a.Bytes(), &x) != nil || json.Unmarshal(b.Bytes(), &y) != nil {
		return fmt.Errorf("harness: JSON not readable")
	}
	if s, t := fmt.Sprint(x), fmt.Sprint(y); s != t {
		i := 0
		for i < len(s) && i < len(t) && s[i] == t[i] {
			i++
		}
		return fmt.Errorf("JSON differs from the document: %.80q, want %.80q", s[max(0, i-20):], t[max(0, i-20):])
	}
	return nil
}

func init() {
	hx.Reg("C24", "documents", 2500, "A document of 1 to 5 pages in any page tree, boxes and rotation own or inherited, corners in any order, numbers in any form; 0 to 5 annotations each: 21 subtypes, texts in every encoding, colours, borders, dashes, quad points, link targets of every form, entries of other kinds, direct or indirect, listed twice, between entries that are no annotations; any file form, encrypted or not. Content, its JSON form and the directory export compared with the model. Non-trivial: at least two annotations.", func(c *hx.C) {
		m := genAnnotDoc(c)
		c.Dump("in.pdf", m.b)
		pw := m.f.user
		doc, err := extract.ExtractContent(m.b, pw, false)
		if err != nil {
			c.Fail("ExtractContent: %v", err)
		}
		if err := m.check(doc); err != nil {
			c.Fail("%v", err)
		}
		text, err := extract.ExtractContentToJSON(m.b, pw, false)
		if err != nil {
			c.Fail("ExtractContentToJSON: %v", err)
		}
		if err := sameJSON(text, doc); err != nil {
			c.Fail("%v", err)
		}
		var back types.ContentDocument
		if err := json.Unmarshal([]byte(text), &back); err != nil {
			c.Fail("JSON: %v", err)
		}
		if err := m.check(&back); err != nil {
			c.Fail("read back from JSON: %v", err)
		}
		if oneIn(c, "export", 4) {
			base, err := os.MkdirTemp("", "c24-")
			if err != nil {
				c.Fail("scratch directory: %v", err)
			}
			defer os.RemoveAll(base)
			out, err := extract.ExtractToDirectory(m.b, pw, base, false)
			if err != nil {
				c.Fail("ExtractToDirectory: %v", err)
			}
			var index extract.ExtractedContent
			raw, err := os.ReadFile(filepath.Join(base, "content.json"))
			if err == nil {
				err = json.Unmarshal(raw, &index)
			}
			if err != nil || len(index.Pages) != len(m.pages) {
				c.Fail("content.json: %d pages, want %d (%v)", len(index.Pages), len(m.pages), err)
			}
			for i, p := range index.Pages {
				pg := types.Page{PageNumber: p.PageNumber, Width: p.Width, Height: p.Height, Rotation: p.Rotation, MediaBox: p.MediaBox, CropBox: p.CropBox, Annotations: p.Annotations}
				for k, to := range map[string]**types.Rectangle{"BleedBox": &pg.BleedBox, "TrimBox": &pg.TrimBox, "ArtBox": &pg.ArtBox} { // not in the index
					*to = m.pages[i].boxes[k]
				}
				if err := m.pages[i].check(i+1, &pg); err != nil {
					c.Fail("content.json, page %d: %v", i+1, err)
				}
			}
			if out.HasForms != m.form || index.Summary.HasForms != m.form {
				c.Fail("HasForms %v, summary %v, want %v", out.HasForms, index.Summary.HasForms, m.form)
			}
			if out.PageCount != len(m.pages) || index.Summary.PageCount != len(m.pages) {
				c.Fail("page count %d, summary %d, want %d", out.PageCount, index.Summary.PageCount, len(m.pages))
			}
			c.Class("exported")
		}
		n := 0
		for _, p := range m.pages {
			n += len(p.annots)
			for _, a := range p.annots {
				c.Class(string(a.Type))
				c.ClassIf(a.URI != "", "URI")
				c.ClassIf(a.dest != nil, "explicit destination")
				c.ClassIf(a.plain, "named destination")
			}
		}
		c.ClassIf(m.f.user != nil, "encrypted")
		if n > 1 {
			c.NT(fmt.Sprintf("%d annotations %s hash %x", n, m.f.form, fnvb(m.b)))
		}
	})
}

func init() {
	hx.Reg("C24", "json", 1500, "Documents of any kind, sound or with 1 to 6 values replaced by extremes anywhere in the object graph: whenever the content is extracted, its JSON form is made too, is valid JSON, and says the same. Non-trivial: the content has text, graphics, images, annotations or bookmarks.", func(c *hx.C) {
		var b, pw []byte
		kind := "numbers"
		switch num(c, "source", 0, 2) {
		case 0:
			b = hugeDoc(c)
		case 1:
			c.Local = map[string]any{"emit": scramble}
			fallthrough
		default:
			b, pw, kind = sourceDoc(c)
		}
		c.Dump("in.pdf", b)
		doc, err := extract.ExtractContent(b, pw, false)
		text, jerr := extract.ExtractContentToJSON(b, pw, false)
		if (err != nil) != (jerr != nil) {
			c.Fail("ExtractContent: %v, ExtractContentToJSON: %v", err, jerr)
		}
		if err != nil {
			c.Class("refused")
			return
		}
		if err := sameJSON(text, doc); err != nil {
			c.Fail("%v", err)
		}
		n := len(doc.Annotations) + len(doc.Bookmarks) + len(doc.Images)
		for _, p := range doc.Pages {
			n += len(p.Text) + len(p.Graphics) + len(p.Images)
		}
		if n > 0 {
			c.NT(fmt.Sprintf("%s %d hash %x", kind, n, fnvb(b)))
		}
		c.Class("kind " + kind)
	})
}

// hugeDoc draws a page whose content, boxes and annotations use numbers of any magnitude.
func hugeDoc(c *hx.C) []byte {
	f := newFD(c)
	n := func() ref.Obj {
		switch num(c, "mag", 0, 5) {
		case 0:
			return ref.Real(strings.Repeat("9", num(c, "digits", 20, 400)))
		case 1:
			return ref.Real("-" + strings.Repeat("7", num(c, "digits", 20, 400)) + ".5")
		case 2:
			return ref.Real("0." + strings.Repeat("0", num(c, "zeros", 20, 400)) + "1")
		}
		return num(c, "small", -9, 9)
	}
	written := func(o ref.Obj) string { return fmt.Sprint(o) }
	arr := func(k int) ref.Arr {
		a := ref.Arr{}
		for i := 0; i < k; i++ {
			a = append(a, n())
		}
		return a
	}
	var content bytes.Buffer
	for i, k := 0, num(c, "ops", 1, 15); i < k; i++ {
		op := pick(c, "op", "6 cm", "6 Tm", "2 Td", "2 TD", "1 TL", "1 Tc", "1 Tw", "1 Tz", "1 Ts", "0 T*", "4 re", "2 m", "2 l", "6 c", "0 S", "0 f", "0 BT", "0 ET", "1 w", "1 M", "3 rg", "4 K", "0 q", "0 Q", "(abc) Tj", "[(a) 1 (b)] TJ", "/F1 Tf", "/Im Do")
		switch {
		case op == "[(a) 1 (b)] TJ":
			fmt.Fprintf(&content, "[(a) %s (b)] TJ ", written(n()))
		case op == "/F1 Tf":
			fmt.Fprintf(&content, "/F1 %s Tf ", written(n()))
		case op[0] == '(' || op[0] == '/':
			content.WriteString(op + " ")
		default:
			for _, v := range arr(int(op[0] - '0')) {
				content.WriteString(written(v) + " ")
			}
			content.WriteString(op[2:] + " ")
		}
	}
	fnt := f.add(ref.Dict{{K: "Type", V: ref.Name("Font")}, {K: "Subtype", V: ref.Name("Type1")}, {K: "BaseFont", V: ref.Name("Helvetica")}, {K: "FirstChar", V: 97}, {K: "Widths", V: arr(3)}})
	im := f.rawStream(ref.Dict{{K: "Type", V: ref.Name("XObject")}, {K: "Subtype", V: ref.Name("Image")}, {K: "Width", V: 1}, {K: "Height", V: 1}, {K: "ColorSpace", V: ref.Name("DeviceGray")}, {K: "BitsPerComponent", V: 8}}, []byte{0})
	root, _ := f.pageTree(1, func(int) (ref.Dict, ref.Dict) {
		own := ref.Dict{{K: "Contents", V: f.stream(nil, content.Bytes())}, {K: "Annots", V: ref.Arr{ref.Dict{{K: "Subtype", V: ref.Name("Highlight")}, {K: "Rect", V: arr(4)}, {K: "QuadPoints", V: arr(8)}, {K: "C", V: arr(3)}, {K: "Border", V: arr(3)}}}}}
		return own, ref.Dict{{K: "MediaBox", V: arr(4)}, {K: "Rotate", V: n()}, {K: "Resources", V: ref.Dict{{K: "Font", V: ref.Dict{{K: "F1", V: fnt}}}, {K: "XObject", V: ref.Dict{{K: "Im", V: im}}}}}}
	})
	f.trailer = ref.Dict{{K: "Root", V: f.add(ref.Dict{{K: "Type", V: ref.Name("Catalog")}, {K: "Pages", V: root}})}}
	return f.emit()
}
