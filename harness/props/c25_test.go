package props

import (
	"bytes"
	"fmt"
	"image/png"
	"math"
	"sort"
	"strconv"
	"strings"

	"verif/harness/hx"
	"verif/harness/ref"

	"github.com/benedoc-inc/pdfer/content/extract"
	"github.com/benedoc-inc/pdfer/core/parse"
	"github.com/benedoc-inc/pdfer/core/write"
	"github.com/benedoc-inc/pdfer/forms/acroform"
	"github.com/benedoc-inc/pdfer/resources/font"
	"github.com/benedoc-inc/pdfer/types"
)

// C25: what is asked of the document builders is in the document, whatever is asked before and after it.

// readContent splits a content stream into operators for the content model.
func readContent(b []byte) ([]cop, error) {
	var ops []cop
	var args []ref.Obj
	p := &ref.Parser{B: b}
	for {
		p.SkipWS()
		ch, ok := p.Peek()
		if !ok {
			break
		}
		if strings.ContainsRune("(</[", rune(ch)) {
			o, err := p.Object()
			if err != nil {
				return nil, err
			}
			args = append(args, o)
			continue
		}
		at := p.Pos
		for p.Pos < len(b) && regular(b[p.Pos]) {
			p.Pos++
		}
		word := string(b[at:p.Pos])
		if word == "" {
			return nil, fmt.Errorf("unexpected %q at %d", ch, at)
		}
		if strings.ContainsRune("+-.0123456789", rune(word[0])) {
			if _, err := strconv.ParseFloat(word, 64); err != nil || strings.ContainsAny(word, "eExX") {
				return nil, fmt.Errorf("number %q", word)
			}
			args = append(args, ref.Real(word))
			continue
		}
		o := cop{op: word}
		for _, a := range args {
			switch v := a.(type) {
			case ref.Real:
				x, _ := strconv.ParseFloat(string(v), 64)
				o.n = append(o.n, x)
			case ref.Name:
				o.name = string(v)
			case ref.Str:
				o.s = append(o.s, v.B)
			case ref.Arr:
				for _, e := range v {
					if s, ok := e.(ref.Str); ok {
						o.s = append(o.s, s.B)
					}
				}
			}
		}
		need := map[string]int{"cm": 6, "Tm": 6, "re": 4, "c": 6, "v": 4, "y": 4, "m": 2, "l": 2, "Td": 2, "TD": 2, "rg": 3, "RG": 3, "g": 1, "G": 1, "w": 1, "Tf": 1}[word]
		if len(o.n) < need {
			return nil, fmt.Errorf("%s with %d numbers", word, len(o.n))
		}
		args = nil
		ops = append(ops, o)
	}
	if len(args) > 0 {
		return nil, fmt.Errorf("operands without operator: %v", args)
	}
	return ops, nil
}

// sameContent compares what two content streams show, numbers within a tolerance.
func sameContent(want, got *cpage, tol float64) error {
	eq := func(a, b float64) bool {
		return a == b || math.Abs(a-b) <= tol+tol*math.Max(math.Abs(a), math.Abs(b))
	}
	eqM := func(a, b [6]float64) bool { // entries against the largest one
		most := 1.0
		for i := range a {
			most = math.Max(most, math.Abs(a[i]))
		}
		for i := range a {
			if a[i] != b[i] && math.Abs(a[i]-b[i]) > 100*tol+tol*most {
				return false
			}
		}
		return true
	}
	at := func(x, y float64) [6]float64 { return [6]float64{x, y} }
	eqC := func(a, b *types.Color) bool {
		return (a == nil) == (b == nil) && (a == nil || eq(a.R, b.R) && eq(a.G, b.G) && eq(a.B, b.B) && eq(a.K, b.K) && eq(a.C, b.C) && eq(a.M, b.M) && eq(a.Y, b.Y))
	}
	if len(want.text) != len(got.text) || len(want.graphics) != len(got.graphics) || len(want.images) != len(got.images) {
		return fmt.Errorf("%d texts, %d graphics, %d images; want %d, %d, %d", len(got.text), len(got.graphics), len(got.images), len(want.text), len(want.graphics), len(want.images))
	}
	for i, w := range want.text {
		g := got.text[i]
		if g.text != w.text || g.font != w.font || !eq(g.size, w.size) || !eqM(at(w.x, w.y), at(g.x, g.y)) || !eqC(g.fill, w.fill) || !eq(g.tc, w.tc) || !eq(g.tw, w.tw) || !eq(g.ts, w.ts) {
			return fmt.Errorf("text %d is %+v, want %+v", i, g, w)
		}
	}
	for i, w := range want.graphics {
		g := got.graphics[i]
		if g.kind != w.kind || !eqM(w.m, g.m) || !eqC(g.fill, w.fill) || !eqC(g.stroke, w.stroke) || !eq(g.lw, w.lw) ||
			!eq(g.box.LowerX, w.box.LowerX) || !eq(g.box.LowerY, w.box.LowerY) || !eq(g.box.UpperX, w.box.UpperX) || !eq(g.box.UpperY, w.box.UpperY) {
			return fmt.Errorf("graphic %d is %+v, want %+v", i, g, w)
		}
	}
	for i, w := range want.images {
		if g := got.images[i]; g.name != w.name || !eqM(w.m, g.m) {
			return fmt.Errorf("image %d is %+v, want %+v", i, g, w)
		}
	}
	return nil
}

// watermarkOps draws a watermark on a page; it returns the operators that mean it (none if it is to be refused).
func watermarkOps(c *hx.C, pb *write.PageBuilder, size write.PageSize, fonts map[string]string, images []string) []cop {
	o := write.DefaultWatermarkOptions()
	simple, refused := false, false
	switch num(c, "wmform", 0, 4) {
	case 0: // the convenience call
		simple = true
	case 1:
		o = &write.WatermarkOptions{Opacity: 1}
	case 2:
		o.Color = nil
	}
	if len(images) > 0 && flip(c, "wmimage") {
		o.ImageName = images[num(c, "wmwhich", 0, len(images)-1)]
		simple = false
	} else if oneIn(c, "wmnoimage", 8) {
		o.ImageName, refused, simple = "NoSuchImage", true, false
	} else {
		o.Text = pick(c, "wmtext", "DRAFT", "CONFIDENTIAL", "a(b)\\c", "x", "Sample copy - do not use", ") Tj")
		if oneIn(c, "wmempty", 8) {
			o.Text, refused = "", true
		}
	}
	if flip(c, "wmpos") {
		o.X, o.Y = decimal(c, "wmx", -500, 1500, 0, 72, 300.5, -20, 0.25), decimal(c, "wmy", -500, 1500, 0, 144, 700.25, -0.5)
	}
	if flip(c, "wmangle") {
		o.Angle = decimal(c, "wmdeg", -720, 720, 0, 30, 90, -45, 180, 270, -90, 360, 0.5)
	}
	if flip(c, "wmsize") {
		o.FontSize = decimal(c, "wmpt", 0, 300, 0, 0.5, 12, 72, 100.5)
	}
	if flip(c, "wmfont") {
		o.FontName = pick(c, "wmname", "", "Helvetica", "Courier", "Times-Roman")
	}
	if flip(c, "wmcolor") && o.Color != nil {
		o.Color = &write.Color{R: decimal(c, "wmr", 0, 1, 0, 1, 0.25), G: decimal(c, "wmg", 0, 1, 0, 1, 0.25), B: decimal(c, "wmb", 0, 1, 0, 1)}
	}
	if flip(c, "wmopacity") {
		o.Opacity = decimal(c, "wmop", 0, 1, 0, 0.5, 1, 0.1, 0.99)
	}
	var err error
	if simple {
		d := write.DefaultWatermarkOptions()
		d.Text = o.Text
		d.FontSize, d.Angle = decimal(c, "wmpt2", -10, 200, 0, -3, 0.5, 20, 60), decimal(c, "wmdeg2", -400, 400, 0, 30, 45, -10)
		err = pb.AddTextWatermark(d.Text, d.FontSize, d.Angle)
		if d.FontSize <= 0 {
			d.FontSize = 48
		}
		if d.Angle == 0 {
			d.Angle = 45
		}
		o = d
	} else {
		err = pb.AddWatermark(held(c, o))
	}
	if (err != nil) != refused {
		c.Fail("watermark %+v: %v", *o, err)
	}
	if refused {
		c.Class("watermark refused")
		return nil
	}
	// what the options leave out
	w := *o
	if w.Color == nil {
		w.Color = &write.Color{R: 0.5, G: 0.5, B: 0.5}
	}
	if w.FontName == "" {
		w.FontName = "Helvetica-Bold"
	}
	if w.FontSize == 0 {
		w.FontSize = 48
	}
	if w.X == 0 && w.Y == 0 {
		w.X, w.Y = size.Width/2, size.Height/2
	}
	f := math.Min(w.Opacity, 1)
	ops := []cop{{op: "q"}, {op: "rg", n: []float64{w.Color.R * f, w.Color.G * f, w.Color.B * f}}, {op: "cm", n: []float64{1, 0, 0, 1, w.X, w.Y}}}
	sin, cos := math.Sincos(w.Angle * math.Pi / 180)
	sin, cos = math.Round(sin*1e4)/1e4, math.Round(cos*1e4)/1e4 // as content streams give them
	ops = append(ops, cop{op: "cm", n: []float64{cos, sin, -sin, cos, 0, 0}})
	if w.ImageName != "" {
		c.Class("image watermark")
		return append(ops, cop{op: "cm", n: []float64{size.Width / 2, 0, 0, size.Height / 2, -size.Width / 4, -size.Height / 4}}, cop{op: "Do", name: w.ImageName}, cop{op: "Q"})
	}
	c.Class("text watermark")
	// the page gets the font, under a name that the content tells
	res := strings.TrimPrefix(pb.AddStandardFont(w.FontName), "/")
	if old, ok := fonts[res]; ok && old != w.FontName {
		c.Fail("font resource %s stands for %q and %q", res, old, w.FontName)
	}
	fonts[res] = w.FontName
	width := float64(len(w.Text)) * w.FontSize * 0.6
	return append(ops, cop{op: "BT"}, cop{op: "Tf", name: res, n: []float64{w.FontSize}}, cop{op: "Td", n: []float64{-width / 2, -w.FontSize / 2}}, cop{op: "Tj", s: [][]byte{[]byte(w.Text)}}, cop{op: "ET"}, cop{op: "Q"})
}

// winAnsiText draws text of characters in WinAnsiEncoding, with its bytes.
func winAnsiText(c *hx.C, label string) (string, []byte) {
	p := pick(c, label, [2]string{"Hello", "Hello"}, [2]string{"a(b)c\\", "a(b)c\\"}, [2]string{"", ""}, [2]string{"café", "caf\xe9"}, [2]string{"10 €", "10 \x80"}, [2]string{"“x”—…™", "\x93x\x94\x97\x85\x99"},
		[2]string{"ŒœŠšŽžŸ", "\x8c\x9c\x8a\x9a\x8e\x9e\x9f"}, [2]string{"ÿ½×", "\xff\xbd\xd7"}, [2]string{") Tj (", ") Tj ("}, [2]string{"ƒ‰‹›•†‡", "\x83\x89\x8b\x9b\x95\x86\x87"}, [2]string{"two\nlines\r\tx", "two\nlines\r\tx"}, [2]string{"€1", "\x801"}, [2]string{"é7", "\xe97"})
	return p[0], []byte(p[1])
}

// builtAppearance is an appearance stream made by the appearance builder.
type builtAppearance struct {
	num           int
	width, height float64
	kind          string
	text          []byte
	size          float64
	font          string
	base          string
}

func genAppearance(c *hx.C, w *write.PDFWriter) *builtAppearance {
	ab := acroform.NewAppearanceBuilder(w)
	a := &builtAppearance{kind: pick(c, "apkind", "on", "off", "text", "button"), width: pick(c, "apw", 20.0, 100, 250.5, 12), height: pick(c, "aph", 20.0, 14, 33.25), size: pick(c, "aps", 12.0, 8, 10.5, 24)}
	var err error
	s, raw := winAnsiText(c, "aptext")
	refused := false
	if oneIn(c, "apstrange", 8) {
		s, refused = pick(c, "apodd", "漢字", "a→b", "\u0081", "x\xffy"), true
	}
	switch a.kind {
	case "text":
		a.font = pick(c, "apfont", "F1", "Helv", "Courier", "Times-Bold", "Helvetica")
		a.base = map[string]string{"Courier": "Courier", "Times-Bold": "Times-Bold"}[a.font]
		a.text = raw
		a.num, err = ab.CreateTextAppearance(s, a.width, a.height, a.size, a.font)
	case "button":
		a.text = raw
		a.num, err = ab.CreateButtonAppearance(s, a.width, a.height, a.size)
	default:
		refused = false
		a.num, err = ab.CreateCheckboxAppearance(a.kind == "on", a.width, a.height)
	}
	if (err != nil) != refused {
		c.Fail("appearance %q of %q: %v", a.kind, s, err)
	}
	if refused {
		c.Class("appearance refused")
		return nil
	}
	return a
}

// check reads the appearance as a form XObject.
func (a *builtAppearance) check(d *ref.Doc) ([]byte, error) {
	o, err := d.Get(a.num)
	if err != nil {
		return nil, err
	}
	s, ok := o.(*ref.Stream)
	if !ok || s.D.Get("Subtype") != ref.Obj(ref.Name("Form")) {
		return nil, fmt.Errorf("appearance is %.200s", ref.Canon(o))
	}
	f := func(x float64) ref.Obj { return ref.Real(strconv.FormatFloat(x, 'f', -1, 64)) }
	if ref.Canon(s.D.Get("BBox")) != ref.Canon(ref.Arr{0, 0, f(a.width), f(a.height)}) {
		return nil, fmt.Errorf("BBox %s of a %v x %v appearance", ref.Canon(s.D.Get("BBox")), a.width, a.height)
	}
	b, err := ref.Decode(s)
	if err != nil {
		return nil, err
	}
	ops, err := readContent(b)
	if err != nil {
		return nil, err
	}
	depth, inText := 0, false
	for _, o := range ops {
		switch o.op {
		case "q":
			depth++
		case "Q":
			depth--
		case "BT", "ET":
			if inText == (o.op == "BT") {
				return nil, fmt.Errorf("%s inside %v", o.op, inText)
			}
			inText = o.op == "BT"
		}
		if depth < 0 {
			return nil, fmt.Errorf("unbalanced Q")
		}
	}
	if depth != 0 || inText {
		return nil, fmt.Errorf("unbalanced appearance %q", b)
	}
	p := runPage(ops)
	for i, g := range p.graphics {
		if g.box.LowerX < -0.01 || g.box.LowerY < -0.01 || g.box.UpperX > a.width+0.01 || g.box.UpperY > a.height+0.01 {
			return nil, fmt.Errorf("graphic %d at %v leaves the box", i, g.box)
		}
	}
	switch a.kind {
	case "on", "off":
		if len(p.text) != 0 || len(p.graphics) != 1 || p.graphics[0].stroke == nil {
			return nil, fmt.Errorf("check box shows %+v", p)
		}
		if box := p.graphics[0].kind == types.GraphicTypeRectangle; box != (a.kind == "off") {
			return nil, fmt.Errorf("check box %s shows a %s", a.kind, p.graphics[0].kind)
		}
		return b, nil
	}
	if len(p.text) != 1 {
		return nil, fmt.Errorf("%d texts in %q", len(p.text), b)
	}
	t := p.text[0]
	var got []byte
	for _, r := range t.text {
		got = append(got, byte(r))
	}
	if !bytes.Equal(got, a.text) || math.Abs(t.size-a.size) > 0.006 || t.y < -0.01-math.Max(0, a.size-a.height) || t.y > a.height {
		return nil, fmt.Errorf("shows %q at %v,%v in size %v, want %q in %v", got, t.x, t.y, t.size, a.text, a.size)
	}
	if a.kind == "button" {
		if w := 0.5 * a.size * float64(len(a.text)); math.Abs(t.x+w/2-a.width/2) > 0.2*w+0.02 {
			return nil, fmt.Errorf("label of %d characters starts at %v of %v", len(a.text), t.x, a.width)
		}
	}
	res, err := d.Dict(s.D.Get("Resources"))
	if err != nil {
		return nil, fmt.Errorf("resources: %v", err)
	}
	fonts, _ := d.Dict(res.Get("Font"))
	fnt, err := d.Dict(fonts.Get(t.font))
	if err != nil || fnt.Get("Type") != ref.Obj(ref.Name("Font")) || fnt.Get("Encoding") != ref.Obj(ref.Name("WinAnsiEncoding")) || fnt.Get("BaseFont") == nil {
		return nil, fmt.Errorf("font %q is %s (%v)", t.font, ref.Canon(fnt), err)
	}
	if a.kind == "text" && (t.font != a.font || a.base != "" && fnt.Get("BaseFont") != ref.Obj(ref.Name(a.base))) {
		return nil, fmt.Errorf("font %q is %s, want %q %s", t.font, ref.Canon(fnt), a.font, a.base)
	}
	return b, nil
}

// comboField is a field of the document and what was done to it.
type comboField struct {
	kind, name string
	page       int
	obj        int
	ap         *builtAppearance
	action     ref.Dict
	mouse      map[string]ref.Dict
	value      string
}

func builtTextOf(o ref.Obj) string {
	s, err := textOf(o)
	if err != nil {
		return "?" + err.Error()
	}
	return s
}

// genAction draws an action for a field, with the entries that say it; none if it is refused.
func genAction(c *hx.C, mouse bool, pages []int) (*acroform.Action, ref.Dict) {
	text := func(s string) ref.Str { return ref.Str{B: []byte(s)} }
	kinds := []acroform.ActionType{acroform.ActionTypeURI, acroform.ActionTypeJavaScript, acroform.ActionTypeGoTo, acroform.ActionTypeReset, acroform.ActionTypeSubmit, "Nothing"}
	if mouse {
		kinds = []acroform.ActionType{acroform.ActionTypeURI, acroform.ActionTypeJavaScript}
	}
	a := &acroform.Action{Type: pick(c, "actkind", kinds...)}
	d := ref.Dict{{K: "S", V: ref.Name(a.Type)}}
	switch a.Type {
	case acroform.ActionTypeURI:
		a.URI = pick(c, "acturi", "http://example.com/", "http://x/a(b)c\\d", "mailto:a@b?subject=x%20y")
		d = append(d, ref.KV{K: "URI", V: text(a.URI)})
	case acroform.ActionTypeJavaScript:
		a.JavaScript = pick(c, "actjs", "app.alert('x');", "f(\"a\\n\")", "if (a) { b(); } // )", "x = \"é漢\";", "multi\nline\r\n()")
		d = append(d, ref.KV{K: "JS", V: text(a.JavaScript)})
	case acroform.ActionTypeGoTo:
		if oneIn(c, "actpage", 3) {
			if a.PageNum = num(c, "actpn", 0, len(pages)+1); a.PageNum < 1 || a.PageNum > len(pages) {
				return a, nil // a page that is not there
			}
			return a, append(d, ref.KV{K: "D", V: ref.Arr{ref.Ref{N: pages[a.PageNum-1]}, ref.Name("Fit")}})
		}
		a.Destination = pick(c, "actdest", "(Chapter 1)", "/Name1", "[2 /Fit]")
		v, _ := ref.ParseObject([]byte(a.Destination))
		d = append(d, ref.KV{K: "D", V: v})
	case "Nothing":
		return a, nil
	}
	return a, d
}

func sameAction(d *ref.Doc, o ref.Obj, want ref.Dict) error {
	got, err := d.Dict(o)
	if err != nil {
		return err
	}
	for _, kv := range want {
		g, err := d.Resolve(got.Get(kv.K))
		if err != nil {
			return err
		}
		if s, ok := kv.V.(ref.Str); ok && (kv.K == "JS" || kv.K == "URI") {
			if builtTextOf(g) != string(s.B) {
				return fmt.Errorf("action /%s is %s, want %q", kv.K, ref.Canon(g), s.B)
			}
		} else if ref.Canon(g) != ref.Canon(kv.V) {
			return fmt.Errorf("action /%s is %s, want %s", kv.K, ref.Canon(g), ref.Canon(kv.V))
		}
	}
	return nil
}

func combination(c *hx.C) {
	sb := write.NewSimplePDFBuilder()
	w := sb.Writer()
	var pw []byte
	var plan []string
	mark := func(s string) { plan = append(plan, s); c.Class(s) }
	mode := num(c, "mode", 0, 2)

	type cpg struct {
		size   write.PageSize
		ops    []cop
		fonts  map[string]string // resource -> base font, "" if embedded
		images map[string]placedImage
		annots map[int]bool
		tol    float64
	}
	var pages []*cpg
	var md *types.DocumentMetadata
	var marks []types.Bookmark
	catalog := ref.Dict(nil)
	var shared []placedImage
	var fields []*comboField
	formNum := 0
	var links []int

	addPage := func() {
		pg := &cpg{size: pick(c, "size", write.PageSizeLetter, write.PageSizeA5, write.PageSize{Width: 200.5, Height: 300}), fonts: map[string]string{}, images: map[string]placedImage{}, annots: map[int]bool{}, tol: 1e-6}
		pb := sb.AddPage(pg.size)
		var imgs []string
		embed := func() {
			m := genTTF(c)
			text := ""
			for r := range m.cmap {
				if r > ' ' && r < 0x7F {
					text += string(r)
				}
			}
			if text == "" || len(m.b) > 20000 {
				return
			}
			ft, err := font.NewFont("Embedded", m.b)
			if err != nil {
				c.Fail("NewFont: %v", err)
			}
			letters := strings.Split(text, "")
			sort.Strings(letters)
			text = strings.Join(letters, "")
			ft.AddString(text)
			res, err := pb.AddEmbeddedFont(ft)
			if err != nil {
				c.Fail("AddEmbeddedFont: %v", err)
			}
			res = strings.TrimPrefix(res, "/")
			if old, ok := pg.fonts[res]; ok {
				c.Fail("font resource %s stands for %q and the embedded font", res, old)
			}
			pg.fonts[res] = "" // embedded
			pb.Content().BeginText().SetFont("/"+res, 10).SetTextPosition(10, 20).ShowText(text).EndText()
			pg.ops = append(pg.ops, cop{op: "BT"}, cop{op: "Tf", name: res, n: []float64{10}}, cop{op: "Td", n: []float64{10, 20}}, cop{op: "Tj", s: [][]byte{[]byte(text)}}, cop{op: "ET"})
			mark("embedded font")
		}
		if oneIn(c, "embed", 12) {
			embed()
		}
		for i, n := 0, count(c, "steps", 0, 5, 60); i < n; i++ {
			switch num(c, "step", 0, 5) {
			case 0, 1:
				if oneIn(c, "allfonts", 12) {
					for _, base := range stdFonts {
						res := strings.TrimPrefix(pb.AddStandardFont(base), "/")
						if old, ok := pg.fonts[res]; ok && old != base {
							c.Fail("font resource %s stands for %q and %q", res, old, base)
						}
						pg.fonts[res] = base
					}
				}
				base := pick(c, "font", stdFonts...)
				res := strings.TrimPrefix(pb.AddStandardFont(base), "/")
				if old, ok := pg.fonts[res]; ok && old != base {
					c.Fail("font resource %s stands for %q and %q", res, old, base)
				}
				pg.fonts[res] = base
				pg.ops = append(pg.ops, builderProgram(c, pb.Content(), res)...)
			case 2:
				before := len(pb.Content().Bytes())
				ops := watermarkOps(c, pb, pg.size, pg.fonts, imgs)
				if ops == nil && len(pb.Content().Bytes()) != before {
					c.Fail("a refused watermark changed the page: %q", pb.Content().Bytes()[before:])
				}
				if ops != nil {
					pg.tol = 2e-3
					mark("watermark")
				}
				pg.ops = append(pg.ops, ops...)
			case 3:
				var im placedImage
				if len(shared) > 0 && flip(c, "again") {
					im = shared[num(c, "whichim", 0, len(shared)-1)]
				} else {
					var buf bytes.Buffer
					png.Encode(&buf, genImage(c))
					im.img, _ = png.Decode(bytes.NewReader(buf.Bytes()))
					info, err := w.AddImage(held(c, buf.Bytes()), fmt.Sprintf("Pic%d", len(shared)))
					if err != nil {
						c.Fail("AddImage: %v", err)
					}
					im.num, im.res = info.ObjectNum, info.Name
					shared = append(shared, im)
				}
				name := pick(c, "imname", im.res, "", "", "Im1", "/Im2", "Im3", "Im4")
				if o, ok := pg.images[strings.TrimPrefix(name, "/")]; ok && o.num != im.num {
					name = ""
				}
				res := strings.TrimPrefix(pb.AddImage(&write.ImageInfo{ObjectNum: im.num, Name: name}), "/")
				if o, ok := pg.images[res]; ok && o.num != im.num {
					c.Fail("image resource %s stands for %d and %d", res, o.num, im.num)
				}
				pg.images[res] = im
				imgs = append(imgs, res)
				x, y := float64(num(c, "imx", 0, 300)), float64(num(c, "imy", 0, 300))
				pb.Content().DrawImageAt("/"+res, x, y, 50, 40)
				pg.ops = append(pg.ops, cop{op: "q"}, cop{op: "cm", n: []float64{50, 0, 0, 40, x, y}}, cop{op: "Do", name: res}, cop{op: "Q"})
				mark("image")
			default:
				t := pick(c, "plain", "Hello", "a(b)", "line")
				res := strings.TrimPrefix(pb.AddStandardFont("Helvetica"), "/")
				if old, ok := pg.fonts[res]; ok && old != "Helvetica" {
					c.Fail("font resource %s stands for %q and Helvetica", res, old)
				}
				pg.fonts[res] = "Helvetica"
				pb.Content().BeginText().SetFont("/"+res, 12).SetTextPosition(72, 500).ShowText(t).EndText()
				pg.ops = append(pg.ops, cop{op: "BT"}, cop{op: "Tf", name: res, n: []float64{12}}, cop{op: "Td", n: []float64{72, 500}}, cop{op: "Tj", s: [][]byte{[]byte(t)}}, cop{op: "ET"})
			}
		}
		sb.FinalizePage(pb)
		pages = append(pages, pg)
	}
	np := count(c, "pages", 1, 4, 25)
	encrypt := func() {
		pw = []byte("user")
		if _, err := w.SetupEncryptionWithPasswords(pw, []byte("owner"), -4, !flip(c, "nometa")); err != nil {
			c.Fail("encryption: %v", err)
		}
		mark("encrypted")
	}
	// every feature is asked for at some moment
	todo := []func(){}
	for i := 0; i < np; i++ {
		todo = append(todo, addPage)
	}
	insert := func(f func()) {
		at := spread(c, "when", len(todo)+1)
		todo = append(todo[:at:at], append([]func(){f}, todo[at:]...)...)
	}
	insert(func() {
		w.UseXRefStream(mode >= 1)
		if mode == 2 {
			w.UseObjectStream(true)
		}
	})
	if flip(c, "meta") {
		insert(func() { md = genMetadata(c); w.SetMetadata(held(c, md)); mark("metadata") })
	}
	if oneIn(c, "enc", 3) {
		insert(encrypt)
	}
	if oneIn(c, "owncatalog", 3) {
		insert(func() {
			if w.RootObjNum() != 0 {
				return // a form brought its own
			}
			catalog = ref.Dict{{K: "Lang", V: ref.Str{B: []byte("en-GB")}}, {K: "PageMode", V: ref.Name("UseOutlines")}, {K: "ViewerPreferences", V: ref.Dict{{K: "DisplayDocTitle", V: true}}}}
			w.SetRoot(w.AddObject([]byte(fmt.Sprintf("<< /Type /Catalog /Lang (en-GB) /Pages %d 0 R /PageMode /UseOutlines /ViewerPreferences << /DisplayDocTitle true >> >>", sb.PagesObjNum()))))
			mark("own catalog")
		})
	}
	if flip(c, "bookmarks") {
		insert(func() {
			if len(pages) == 0 {
				return
			}
			marks = genBookmarks(c, 2, sb.Pages())
			if err := sb.SetBookmarks(held(c, marks)); err != nil {
				c.Fail("SetBookmarks: %v", err)
			}
			mark("bookmarks")
		})
	}
	link := func() {
		n := w.AddObject([]byte("<< /Type /Annot /Subtype /Link /Rect [0 0 10 10] /A << /S /URI /URI (http://x/) >> >>"))
		p := spread(c, "linkpage", np)
		sb.AddAnnotation(p, n)
		links = append(links, p, n)
		mark("annotation")
	}
	for i, n := 0, count(c, "links", 0, 2, 30); i < n; i++ {
		insert(link)
	}
	dress := func(x *comboField) { // appearance and actions
		if flip(c, "ap") {
			if x.ap = genAppearance(c, w); x.ap != nil {
				if err := acroform.AddAppearanceToField(x.obj, x.ap.num, w); err != nil {
					c.Fail("AddAppearanceToField: %v", err)
				}
				mark("appearance")
			}
		}
		for i, n := 0, count(c, "actions", 0, 3, 30); i < n; i++ {
			before, _ := w.GetObject(x.obj)
			before = append([]byte{}, before...)
			if flip(c, "mouse") {
				a, d := genAction(c, true, nil)
				ev := pick(c, "event", "onClick", "onMouseUp", "onMouseDown", "onEnter", "onExit", "onNothing")
				err := acroform.AddMouseAction(x.obj, ev, held(c, a), w)
				key := map[string]string{"onClick": "U", "onMouseUp": "U", "onMouseDown": "D", "onEnter": "E", "onExit": "X"}[ev]
				if (err != nil) != (key == "") {
					c.Fail("AddMouseAction %s: %v", ev, err)
				}
				if key != "" {
					if x.mouse == nil {
						x.mouse = map[string]ref.Dict{}
					}
					x.mouse[key] = d
					mark("mouse action")
					continue
				}
			} else {
				a, d := genAction(c, false, sb.Pages())
				err := acroform.AddActionToField(x.obj, held(c, a), w)
				if (err != nil) != (d == nil) {
					c.Fail("AddActionToField %+v: %v", *a, err)
				}
				if d != nil {
					x.action = d
					mark("action")
					continue
				}
			}
			if after, _ := w.GetObject(x.obj); !bytes.Equal(before, after) {
				c.Fail("a refused action changed the field: %q", after)
			}
		}
	}
	if flip(c, "form") {
		fb := acroform.NewFormBuilder(sb)
		hand := oneIn(c, "byhand", 3) // the same, step by step
		by := acroform.NewFieldBuilder(w)
		type adder interface {
			AddTextField(string, []float64, int) *acroform.FieldDef
			AddCheckbox(string, []float64, int) *acroform.FieldDef
			AddRadioButton(string, []float64, int) *acroform.FieldDef
			AddChoiceField(string, []float64, int, []string) *acroform.FieldDef
			AddButton(string, []float64, int) *acroform.FieldDef
		}
		var to adder = fb
		if hand {
			to = by
		}
		add := func() {
			x := &comboField{kind: pick(c, "kind", "text", "check", "radio", "choice", "button"), page: spread(c, "fpage", np)}
			x.name = fmt.Sprintf("%s%d", pick(c, "fname", "name", "é", "f(1)", "a b"), len(fields))
			rect := []float64{10, 20, 110, 40}
			var f *acroform.FieldDef
			switch x.kind {
			case "text":
				f = to.AddTextField(x.name, rect, x.page)
				if flip(c, "fval") {
					x.value = pick(c, "fvalue", "x", "é(", "10 €")
					f.SetValue(x.value)
				}
			case "check":
				f = to.AddCheckbox(x.name, rect, x.page)
			case "radio":
				f = to.AddRadioButton(x.name, rect, x.page)
			case "choice":
				f = to.AddChoiceField(x.name, rect, x.page, []string{"a", "b"})
			case "button":
				f = to.AddButton(x.name, rect, x.page)
			}
			f.SetRequired(flip(c, "freq"))
			fields = append(fields, x)
		}
		for i, n := 0, count(c, "nfields", 1, 4, 40); i < n; i++ {
			add()
		}
		insert(func() {
			var err error
			if hand {
				if formNum, err = by.Build(); err != nil {
					c.Fail("Build: %v", err)
				}
				if w.RootObjNum() == 0 {
					w.SetRoot(w.AddObject([]byte(fmt.Sprintf("<< /Type /Catalog /Pages %d 0 R >>", sb.PagesObjNum()))))
				}
				if err := acroform.AddAcroFormToCatalog(w, w.RootObjNum(), formNum); err != nil {
					c.Fail("AddAcroFormToCatalog: %v", err)
				}
				mark("form by hand")
			} else if formNum, err = fb.BuildForm(); err != nil {
				c.Fail("BuildForm: %v", err)
			}
			raw, err := w.GetObject(formNum)
			if err != nil {
				c.Fail("form object: %v", err)
			}
			o, err := ref.ParseObject(raw)
			if err != nil {
				c.Fail("form object: %v", err)
			}
			list, _ := o.(ref.Dict).Get("Fields").(ref.Arr)
			if len(list) != len(fields) {
				c.Fail("%d fields, want %d", len(list), len(fields))
			}
			for i, x := range fields {
				x.obj = list[i].(ref.Ref).N
				if hand {
					sb.AddAnnotation(x.page, x.obj)
				}
			}
			for _, x := range fields {
				if flip(c, "dressnow") {
					dress(x)
				} else {
					x := x
					todo = append(todo, func() { dress(x) })
				}
			}
			mark("form")
		})
	}
	for len(todo) > 0 {
		f := todo[0]
		todo = todo[1:]
		f()
	}

	b, err := sb.Bytes()
	if err != nil {
		c.Fail("Bytes: %v", err)
	}
	c.Emits("out.pdf", b, sb.Bytes)
	if pw == nil {
		if again, err := sb.Bytes(); err != nil || !bytes.Equal(b, again) {
			c.Fail("building twice gives different bytes (%v)", err)
		}
	}

	// the document, read independently
	d := strictDoc(c, b, pw, nil)
	ps, err := d.Pages()
	if err != nil || len(ps) != np {
		c.Fail("%d pages, want %d (%v)", len(ps), np, err)
	}
	nums := sb.Pages()
	for _, x := range fields {
		pages[x.page].annots[x.obj] = true
	}
	for i := 0; i < len(links); i += 2 {
		pages[links[i]].annots[links[i+1]] = true
	}
	doc, err := extract.ExtractContent(b, pw, false)
	if err != nil || len(doc.Pages) != np {
		c.Fail("ExtractContent: %v", err)
	}
	for i, p := range ps {
		pg := pages[i]
		if p.N != nums[i] {
			c.Fail("page %d is object %d, builder says %d", i+1, p.N, nums[i])
		}
		f := func(x float64) ref.Obj { return ref.Real(strconv.FormatFloat(x, 'f', -1, 64)) }
		if ref.Canon(p.D.Get("MediaBox")) != ref.Canon(ref.Arr{0, 0, f(pg.size.Width), f(pg.size.Height)}) {
			c.Fail("page %d: box %v, want %v", i+1, p.D.Get("MediaBox"), pg.size)
		}
		raw, err := d.PageContent(p)
		if err != nil {
			c.Fail("page %d: %v", i+1, err)
		}
		ops, err := readContent(raw)
		if err != nil {
			c.Fail("page %d: %v in %q", i+1, err, raw)
		}
		got := runPage(ops)
		if err := sameContent(runPage(pg.ops), got, pg.tol); err != nil {
			c.Fail("page %d: %v", i+1, err)
		}
		if err := comparePage(got, doc.Pages[i]); err != nil {
			c.Fail("page %d as extracted: %v", i+1, err)
		}
		res, err := d.Dict(p.D.Get("Resources"))
		if err != nil {
			c.Fail("page %d: %v", i+1, err)
		}
		fonts, _ := d.Dict(res.Get("Font"))
		for n, base := range pg.fonts {
			fnt, err := d.Dict(fonts.Get(n))
			if base == "" && err == nil && fnt.Get("Subtype") == ref.Obj(ref.Name("Type0")) {
				continue
			}
			if err != nil || fnt.Get("BaseFont") != ref.Obj(ref.Name(base)) {
				c.Fail("page %d: font %s is %s, want %s", i+1, n, ref.Canon(fnt), base)
			}
		}
		xo, _ := d.Dict(res.Get("XObject"))
		for n, im := range pg.images {
			if r, ok := xo.Get(n).(ref.Ref); !ok || r.N != im.num {
				c.Fail("page %d: image %s is %v, want %d", i+1, n, xo.Get(n), im.num)
			}
			if err := checkImage(d, im.num, im.img); err != nil {
				c.Fail("page %d: image %s: %v", i+1, n, err)
			}
		}
		list := ref.Arr{}
		if o, err := d.Resolve(p.D.Get("Annots")); err == nil && o != nil {
			list, _ = o.(ref.Arr)
		}
		if len(list) != len(pg.annots) {
			c.Fail("page %d: annotations %s, want %v", i+1, ref.Canon(list), pg.annots)
		}
		for _, o := range list {
			r, ok := o.(ref.Ref)
			if !ok || !pg.annots[r.N] {
				c.Fail("page %d: annotations %s, want %v", i+1, ref.Canon(list), pg.annots)
			}
			delete(pg.annots, r.N)
			a, err := d.Dict(r)
			if err != nil || a.Get("P") != ref.Obj(ref.Ref{N: p.N}) {
				c.Fail("annotation %d of page %d: %s (%v)", r.N, i+1, ref.Canon(a), err)
			}
		}
	}
	cat, err := d.Catalog()
	if err != nil {
		c.Fail("catalog: %v", err)
	}
	for _, kv := range catalog {
		g, _ := d.Resolve(cat.Get(kv.K))
		if ref.Canon(g) != ref.Canon(kv.V) {
			c.Fail("catalog /%s is %s, want %s", kv.K, ref.Canon(g), ref.Canon(kv.V))
		}
	}
	if marks != nil {
		if err := checkOutline(d, marks, nums); err != nil {
			c.Fail("outline: %v", err)
		}
	} else if cat.Has("Outlines") {
		c.Fail("outline without bookmarks")
	}
	if md != nil {
		if err := checkInfo(d, md); err != nil {
			c.Fail("info: %v", err)
		}
	}
	if formNum == 0 {
		if cat.Has("AcroForm") {
			c.Fail("form without fields")
		}
	} else {
		checkCombo(c, d, b, pw, cat, fields)
	}
	if len(plan) > 1 {
		c.NT(fmt.Sprintf("%d pages mode %d %v %x", np, mode, plan, fnvb(b)))
	}
}

// checkCombo checks the fields of the form, their appearances and actions.
func checkCombo(c *hx.C, d *ref.Doc, b, pw []byte, cat ref.Dict, fields []*comboField) {
	fd, err := d.Dict(cat.Get("AcroForm"))
	if err != nil {
		c.Fail("AcroForm: %v", err)
	}
	list, _ := fd.Get("Fields").(ref.Arr)
	af, err := acroform.ExtractAcroForm(b, pw, false)
	if err != nil || len(list) != len(fields) || len(af.Fields) != len(fields) {
		c.Fail("%d fields, read as %d, want %d (%v)", len(list), len(af.Fields), len(fields), err)
	}
	pdf, err := parse.OpenWithOptions(b, parse.ParseOptions{Password: pw})
	if err != nil {
		c.Fail("Open: %v", err)
	}
	for i, x := range fields {
		o, err := d.Dict(ref.Ref{N: x.obj})
		if err != nil || list[i] != ref.Obj(ref.Ref{N: x.obj}) {
			c.Fail("field %d is %v, want %d (%v)", i, list[i], x.obj, err)
		}
		ft := map[string]string{"text": "Tx", "choice": "Ch"}[x.kind]
		if ft == "" {
			ft = "Btn"
		}
		if builtTextOf(o.Get("T")) != x.name || o.Get("FT") != ref.Obj(ref.Name(ft)) || o.Get("Subtype") != ref.Obj(ref.Name("Widget")) {
			c.Fail("field %d is %s, want %+v", i, ref.Canon(o), *x)
		}
		if x.value != "" && builtTextOf(o.Get("V")) != x.value || x.value == "" && o.Has("V") {
			c.Fail("field %d: value %v, want %q", i, o.Get("V"), x.value)
		}
		if g := af.Fields[i]; g.GetFullName() != x.name || g.Page != x.page || g.ObjectNum != x.obj {
			c.Fail("field %d read as %+v, want %+v", i, *g, *x)
		}
		if x.action != nil {
			if err := sameAction(d, o.Get("A"), x.action); err != nil {
				c.Fail("field %d: %v", i, err)
			}
		} else if o.Has("A") {
			c.Fail("field %d: unexpected action", i)
		}
		aa, _ := d.Dict(o.Get("AA"))
		if len(aa) != len(x.mouse) {
			c.Fail("field %d: %d mouse actions, want %d", i, len(aa), len(x.mouse))
		}
		for k, want := range x.mouse {
			if err := sameAction(d, aa.Get(k), want); err != nil {
				c.Fail("field %d: %s: %v", i, k, err)
			}
		}
		got, gerr := acroform.GetFieldAppearance(af.Fields[i], b, pdf.Encryption(), false)
		if x.ap == nil {
			if o.Has("AP") || gerr == nil {
				c.Fail("field %d: unexpected appearance (%v)", i, gerr)
			}
			continue
		}
		ap, err := d.Dict(o.Get("AP"))
		if err != nil || ap.Get("N") != ref.Obj(ref.Ref{N: x.ap.num}) {
			c.Fail("field %d: appearance %v, want %d", i, o.Get("AP"), x.ap.num)
		}
		content, err := x.ap.check(d)
		if err != nil {
			c.Fail("field %d: appearance %s: %v", i, x.ap.kind, err)
		}
		if gerr != nil || !bytes.Equal(got, content) {
			c.Fail("field %d: GetFieldAppearance gives %q (%v), want %q", i, got, gerr, content)
		}
	}
}

func init() {
	hx.Reg("C25", "programs", 2500, "1 to 4 pages with text, drawing, images and watermarks, metadata, bookmarks, a form with appearances and actions, annotations, a catalog of the caller's own, encryption and file mode, asked for in any order; refused requests in between; the document read by the strict reader, an independent content interpreter and the library. Non-trivial: at least two features.", combination)
}

// decimal draws one of the values or a number with two decimals of the range.
func decimal(c *hx.C, label string, lo, hi int, values ...float64) float64 {
	if flip(c, label+"any") {
		return float64(num(c, label, 100*lo, 100*hi)) / 100
	}
	return pick(c, label, values...)
}
