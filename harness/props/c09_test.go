package props

import (
	"bytes"
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/benedoc-inc/pdfer/content/extract"
	"github.com/benedoc-inc/pdfer/core/parse"
	"github.com/benedoc-inc/pdfer/core/write"
	"github.com/benedoc-inc/pdfer/types"
	"verif/harness/hx"
	"verif/harness/ref"
)

// ---- a content program: structured operators, rendered to text by a layout and executed by a model ----

type cop struct {
	op   string
	n    []float64
	s    [][]byte // shown strings
	name string   // font, XObject or colour space
	form *cform
	toks []string // operand tokens as rendered, operator last
}

type cform struct {
	ops    []cop
	matrix []float64
	ref    ref.Ref
}

// ---- model ----

type cstate struct {
	m            [6]float64
	lw, miter    float64
	lcap, ljoin  int
	fill, stroke *types.Color
	fsp, ssp     string
	font         string
	size         float64
	tc, tw, tl   float64
	ts           float64
}

type ctext struct {
	text       string
	x, y       float64
	font       string
	size       float64
	tc, tw, ts float64
	tm         [6]float64
	fill       *types.Color
}

type cgraphic struct {
	kind         types.GraphicType
	path         []types.PathOperation
	closed       bool
	box          types.Rectangle
	fill, stroke *types.Color
	lw, miter    float64
	lcap, ljoin  int
	m            [6]float64
}

type cimage struct {
	name string
	m    [6]float64
}

type cpage struct {
	text     []ctext
	graphics []cgraphic
	images   []cimage
}

// apply maps a point through a matrix, the way the specification writes it.
func apply(m [6]float64, x, y float64) (float64, float64) {
	return m[0]*x + m[2]*y + m[4], m[1]*x + m[3]*y + m[5]
}

// concat returns the matrix that first applies a, then b (found from the images of three points).
func concat(a, b [6]float64) [6]float64 {
	at := func(x, y float64) (float64, float64) {
		p, q := apply(a, x, y)
		return apply(b, p, q)
	}
	ox, oy := at(0, 0)
	lin := func(x, y float64) (float64, float64) { // without translation
		p, q := m2(a, x, y)
		return m2(b, p, q)
	}
	ax, ay := lin(1, 0)
	bx, by := lin(0, 1)
	return [6]float64{ax, ay, bx, by, ox, oy}
}

func m2(m [6]float64, x, y float64) (float64, float64) {
	return m[0]*x + m[2]*y, m[1]*x + m[3]*y
}

var unit = [6]float64{1, 0, 0, 1, 0, 0}

// executes a program; text is decoded as single-byte text
func (p *cpage) run(ops []cop, st cstate, depth int) {
	var stack []cstate
	tm, tlm := unit, unit
	type sub struct {
		ops    []types.PathOperation
		rect   bool
		closed bool
	}
	var path []sub
	var cx, cy float64
	show := func(strs [][]byte) {
		x, y := apply(concat(tm, st.m), 0, 0)
		var rs []rune
		for _, s := range strs {
			for _, b := range s {
				rs = append(rs, rune(b))
			}
		}
		p.text = append(p.text, ctext{string(rs), x, y, st.font, st.size, st.tc, st.tw, st.ts, tm, st.fill})
	}
	next := func(x, y float64) {
		tlm = concat([6]float64{1, 0, 0, 1, x, y}, tlm)
		tm = tlm
	}
	start := func() { // a segment after a closed subpath starts a new one at the current point
		if path[len(path)-1].closed {
			path = append(path, sub{ops: []types.PathOperation{{Type: types.PathOpMove, Points: []types.Point{{X: cx, Y: cy}}}}})
		}
	}
	seg := func(t types.PathOpType, pts ...types.Point) {
		start()
		l := &path[len(path)-1]
		l.ops = append(l.ops, types.PathOperation{Type: t, Points: pts})
		cx, cy = pts[len(pts)-1].X, pts[len(pts)-1].Y
	}
	closeSub := func() {
		if len(path) == 0 {
			return
		}
		l := &path[len(path)-1]
		if !l.closed {
			l.closed = true
			cx, cy = l.ops[0].Points[0].X, l.ops[0].Points[0].Y
			l.ops = append(l.ops, types.PathOperation{Type: types.PathOpClose})
		}
	}
	paint := func(fill, stroke bool) {
		for _, s := range path {
			if !s.rect && len(s.ops) == 1 {
				continue
			}
			g := cgraphic{kind: types.GraphicTypePath, path: s.ops, closed: s.closed, lw: st.lw, miter: st.miter, lcap: st.lcap, ljoin: st.ljoin, m: st.m}
			if s.rect {
				g.kind, g.path = types.GraphicTypeRectangle, nil
			} else if len(s.ops) == 2 && s.ops[1].Type == types.PathOpLine {
				g.kind = types.GraphicTypeLine
			}
			g.box = types.Rectangle{LowerX: math.Inf(1), LowerY: math.Inf(1), UpperX: math.Inf(-1), UpperY: math.Inf(-1)}
			for _, o := range s.ops {
				for _, q := range o.Points {
					g.box = types.Rectangle{LowerX: math.Min(g.box.LowerX, q.X), LowerY: math.Min(g.box.LowerY, q.Y), UpperX: math.Max(g.box.UpperX, q.X), UpperY: math.Max(g.box.UpperY, q.Y)}
				}
			}
			if fill {
				g.fill = st.fill
			}
			if stroke {
				g.stroke = st.stroke
			}
			p.graphics = append(p.graphics, g)
		}
		path = nil
	}
	dev := func(space string, n []float64) *types.Color {
		switch space {
		case "DeviceGray":
			return &types.Color{Space: types.ColorSpaceGray, R: n[0]}
		case "DeviceRGB":
			return &types.Color{Space: types.ColorSpaceRGB, R: n[0], G: n[1], B: n[2]}
		case "DeviceCMYK":
			return &types.Color{Space: types.ColorSpaceCMYK, C: n[0], M: n[1], Y: n[2], K: n[3]}
		}
		return nil // not compared
	}
	initial := map[string][]float64{"DeviceGray": {0}, "DeviceRGB": {0, 0, 0}, "DeviceCMYK": {0, 0, 0, 1}}
	for _, o := range ops {
		n := o.n
		switch o.op {
		case "q":
			stack = append(stack, st)
		case "Q":
			if len(stack) > 0 {
				st = stack[len(stack)-1]
				stack = stack[:len(stack)-1]
			}
		case "cm":
			st.m = concat([6]float64(n), st.m)
		case "w":
			st.lw = n[0]
		case "J":
			st.lcap = int(n[0])
		case "j":
			st.ljoin = int(n[0])
		case "M":
			st.miter = n[0]
		case "g":
			st.fsp, st.fill = "DeviceGray", dev("DeviceGray", n)
		case "G":
			st.ssp, st.stroke = "DeviceGray", dev("DeviceGray", n)
		case "rg":
			st.fsp, st.fill = "DeviceRGB", dev("DeviceRGB", n)
		case "RG":
			st.ssp, st.stroke = "DeviceRGB", dev("DeviceRGB", n)
		case "k":
			st.fsp, st.fill = "DeviceCMYK", dev("DeviceCMYK", n)
		case "K":
			st.ssp, st.stroke = "DeviceCMYK", dev("DeviceCMYK", n)
		case "cs":
			st.fsp, st.fill = o.name, dev(o.name, initial[o.name])
		case "CS":
			st.ssp, st.stroke = o.name, dev(o.name, initial[o.name])
		case "sc", "scn":
			st.fill = dev(st.fsp, n)
		case "SC", "SCN":
			st.stroke = dev(st.ssp, n)
		case "BT":
			tm, tlm = unit, unit
		case "Tf":
			st.font, st.size = o.name, n[0]
		case "Tc":
			st.tc = n[0]
		case "Tw":
			st.tw = n[0]
		case "TL":
			st.tl = n[0]
		case "Ts":
			st.ts = n[0]
		case "Td":
			next(n[0], n[1])
		case "TD":
			st.tl = -n[1]
			next(n[0], n[1])
		case "Tm":
			tm = [6]float64(n)
			tlm = tm
		case "T*":
			next(0, -st.tl)
		case "Tj", "TJ":
			if len(o.s) > 0 {
				show(o.s)
			}
		case "'":
			next(0, -st.tl)
			show(o.s)
		case "\"":
			st.tw, st.tc = n[0], n[1]
			next(0, -st.tl)
			show(o.s)
		case "m":
			cx, cy = n[0], n[1]
			path = append(path, sub{ops: []types.PathOperation{{Type: types.PathOpMove, Points: []types.Point{{X: cx, Y: cy}}}}})
		case "l":
			seg(types.PathOpLine, types.Point{X: n[0], Y: n[1]})
		case "c":
			seg(types.PathOpCurve, types.Point{X: n[0], Y: n[1]}, types.Point{X: n[2], Y: n[3]}, types.Point{X: n[4], Y: n[5]})
		case "v":
			seg(types.PathOpCurve, types.Point{X: cx, Y: cy}, types.Point{X: n[0], Y: n[1]}, types.Point{X: n[2], Y: n[3]})
		case "y":
			seg(types.PathOpCurve, types.Point{X: n[0], Y: n[1]}, types.Point{X: n[2], Y: n[3]}, types.Point{X: n[2], Y: n[3]})
		case "h":
			closeSub()
		case "re":
			path = append(path, sub{ops: []types.PathOperation{{Type: types.PathOpRectangle, Points: []types.Point{{X: n[0], Y: n[1]}, {X: n[0] + n[2], Y: n[1] + n[3]}}}}, rect: true, closed: true})
			cx, cy = n[0], n[1]
		case "S":
			paint(false, true)
		case "s":
			closeSub()
			paint(false, true)
		case "f", "F", "f*":
			paint(true, false)
		case "B", "B*":
			paint(true, true)
		case "b", "b*":
			closeSub()
			paint(true, true)
		case "n":
			path = nil
		case "Do":
			if o.form == nil {
				p.images = append(p.images, cimage{o.name, st.m})
			} else {
				in := st
				if o.form.matrix != nil {
					in.m = concat([6]float64(o.form.matrix), st.m)
				}
				p.run(o.form.ops, in, depth+1)
			}
		}
	}
}

func runPage(ops []cop) *cpage {
	black := &types.Color{Space: types.ColorSpaceGray}
	p := &cpage{}
	p.run(ops, cstate{m: unit, lw: 1, miter: 10, fill: black, stroke: black, fsp: "DeviceGray", ssp: "DeviceGray"}, 0)
	return p
}

func near(a, b float64) bool {
	return a == b || math.Abs(a-b) <= 1e-9*(1+math.Max(math.Abs(a), math.Abs(b)))
}

func nearM(a, b [6]float64) bool {
	for i := range a {
		if !near(a[i], b[i]) {
			return false
		}
	}
	return true
}

func sameColor(want, got *types.Color, painted bool) bool {
	if !painted {
		return got == nil
	}
	if want == nil {
		return true // a colour this model does not follow
	}
	return got != nil && *want == *got
}

// comparePage compares an extracted page with the model.
func comparePage(want *cpage, got types.Page) error {
	if len(got.Text) != len(want.text) {
		return fmt.Errorf("%d text elements, want %d: %+v want %+v", len(got.Text), len(want.text), got.Text, want.text)
	}
	for i, w := range want.text {
		g := got.Text[i]
		if g.Text != w.text {
			return fmt.Errorf("text %d is %q, want %q", i, g.Text, w.text)
		}
		if !near(g.X, w.x) || !near(g.Y, w.y) || g.FontName != "/"+w.font && (w.font != "" || g.FontName != "") || !near(g.FontSize, w.size) {
			return fmt.Errorf("text %d (%q) at %v,%v font %s %v, want %v,%v font /%s %v", i, w.text, g.X, g.Y, g.FontName, g.FontSize, w.x, w.y, w.font, w.size)
		}
		if !near(g.CharSpacing, w.tc) || !near(g.WordSpacing, w.tw) || !near(g.TextRise, w.ts) || !nearM(g.TextMatrix, w.tm) {
			return fmt.Errorf("text %d (%q) spacing %v %v rise %v matrix %v, want %v %v %v %v", i, w.text, g.CharSpacing, g.WordSpacing, g.TextRise, g.TextMatrix, w.tc, w.tw, w.ts, w.tm)
		}
	}
	if len(got.Graphics) != len(want.graphics) {
		return fmt.Errorf("%d graphics, want %d: %+v want %+v", len(got.Graphics), len(want.graphics), got.Graphics, want.graphics)
	}
	for i, w := range want.graphics {
		g := got.Graphics[i]
		if g.Type != w.kind {
			return fmt.Errorf("graphic %d is a %s, want %s", i, g.Type, w.kind)
		}
		if g.BoundingBox == nil || !near(g.BoundingBox.LowerX, w.box.LowerX) || !near(g.BoundingBox.LowerY, w.box.LowerY) || !near(g.BoundingBox.UpperX, w.box.UpperX) || !near(g.BoundingBox.UpperY, w.box.UpperY) {
			return fmt.Errorf("graphic %d box %+v, want %+v", i, g.BoundingBox, w.box)
		}
		if w.path != nil {
			if g.Path == nil || g.Path.Closed != w.closed || len(g.Path.Operations) != len(w.path) {
				return fmt.Errorf("graphic %d path %+v, want %+v closed %v", i, g.Path, w.path, w.closed)
			}
			for j, wo := range w.path {
				go_ := g.Path.Operations[j]
				ok := go_.Type == wo.Type && len(go_.Points) == len(wo.Points)
				for k := 0; ok && k < len(wo.Points); k++ {
					ok = near(go_.Points[k].X, wo.Points[k].X) && near(go_.Points[k].Y, wo.Points[k].Y)
				}
				if !ok {
					return fmt.Errorf("graphic %d operation %d is %+v, want %+v", i, j, go_, wo)
				}
			}
		}
		if !sameColor(w.fill, g.FillColor, w.fill != nil || g.FillColor != nil) || (w.fill == nil) != (g.FillColor == nil) && w.fill != nil {
			return fmt.Errorf("graphic %d fill colour %+v, want %+v", i, g.FillColor, w.fill)
		}
		if !sameColor(w.stroke, g.StrokeColor, w.stroke != nil || g.StrokeColor != nil) || (w.stroke == nil) != (g.StrokeColor == nil) && w.stroke != nil {
			return fmt.Errorf("graphic %d stroke colour %+v, want %+v", i, g.StrokeColor, w.stroke)
		}
		if !near(g.LineWidth, w.lw) || !near(g.MiterLimit, w.miter) || g.LineCap != w.lcap || g.LineJoin != w.ljoin || !nearM(g.Transform, w.m) {
			return fmt.Errorf("graphic %d width %v cap %d join %d miter %v transform %v, want %v %d %d %v %v", i, g.LineWidth, g.LineCap, g.LineJoin, g.MiterLimit, g.Transform, w.lw, w.lcap, w.ljoin, w.miter, w.m)
		}
	}
	if len(got.Images) != len(want.images) {
		return fmt.Errorf("%d images placed, want %d", len(got.Images), len(want.images))
	}
	for i, w := range want.images {
		g := got.Images[i]
		if g.ImageID != "/"+w.name || !near(g.X, w.m[4]) || !near(g.Y, w.m[5]) || !nearM(g.Transform, w.m) {
			return fmt.Errorf("image %d is %s at %v,%v %v, want /%s %v", i, g.ImageID, g.X, g.Y, g.Transform, w.name, w.m)
		}
	}
	return nil
}

// ---- generator ----

// prng is a cheap generator seeded by one draw; seed 0 always answers 0.
type prng uint32

func (r *prng) n(k int) int {
	if *r == 0 {
		return 0
	}
	x := uint32(*r)
	x ^= x << 13
	x ^= x >> 17
	x ^= x << 5
	*r = prng(x)
	return int(x>>3) % k
}

type cgen struct {
	c     *hx.C
	r     prng
	fonts []string
	imgs  []string
	forms []*cform
	used  map[string]int
}

var contentNumbers = []string{"0", "1", "12", "72.5", "-1", ".25", "-.5", "+7", "100.", "0.001", "-3.75", "612", "007.50", "-0", "250", "33.125", "2"}

func (g *cgen) num() (float64, string) {
	t := contentNumbers[num(g.c, "n", 0, len(contentNumbers)-1)]
	f, err := strconv.ParseFloat(strings.TrimPrefix(t, "+"), 64)
	if err != nil {
		panic(err)
	}
	return f, t
}

func (g *cgen) nums(op string, k int) cop {
	o := cop{op: op}
	for i := 0; i < k; i++ {
		f, t := g.num()
		o.n = append(o.n, f)
		o.toks = append(o.toks, t)
	}
	o.toks = append(o.toks, op)
	return o
}

func (g *cgen) name(s string) string {
	var b strings.Builder
	b.WriteByte('/')
	for i := 0; i < len(s); i++ {
		if g.r.n(12) == 1 || !(s[i] >= 'a' && s[i] <= 'z' || s[i] >= 'A' && s[i] <= 'Z' || s[i] >= '0' && s[i] <= '9') {
			fmt.Fprintf(&b, "#%02X", s[i])
		} else {
			b.WriteByte(s[i])
		}
	}
	return b.String()
}

// bytes shown by a string: printable single-byte text, with control characters now and then
func (g *cgen) text() []byte {
	return []byte(pick(g.c, "txt", "Hello", "", "a(b)c", "(", ")", "((", "back\\slash", "ET", "(x) Tj", "Q", "%comment", "caf\xe9", "\xa1\xff", "1 0 0 1 0 0 cm", "<hex>", "[a]", "two  words", "\\n", "\\053", "]", ">>", "EI", "line\nbreak", "tab\tbs\b", "\r", "/F1 12 Tf", "~!@#$^&*-_=+{}|;:,./?"))
}

// str renders a string operand
func (g *cgen) str(b []byte) string {
	r := &g.r
	var o strings.Builder
	if r.n(4) == 3 {
		o.WriteByte('<')
		h := fmt.Sprintf("%x", b)
		if r.n(2) == 1 {
			h = strings.ToUpper(h)
		}
		if strings.HasSuffix(h, "0") && r.n(2) == 1 {
			h = h[:len(h)-1]
		}
		for i := range h {
			if r.n(9) == 1 {
				o.WriteString([]string{" ", "\n", "\t", "\r\n", "\f", "\x00"}[r.n(6)])
			}
			o.WriteByte(h[i])
		}
		o.WriteByte('>')
		return o.String()
	}
	bal := 0
	ok := true
	for _, x := range b {
		if x == '(' {
			bal++
		}
		if x == ')' {
			bal--
			ok = ok && bal >= 0
		}
	}
	rawParens := ok && bal == 0 && r.n(2) == 1
	o.WriteByte('(')
	for i, x := range b {
		if r.n(15) == 1 {
			o.WriteString([]string{"\\\n", "\\\r\n", "\\\r"}[r.n(3)])
			if x == '\n' { // a raw line feed must not join the one before
				o.WriteString("\\n")
				continue
			}
		}
		esc := r.n(8)
		nextDigit := i+1 < len(b) && b[i+1] >= '0' && b[i+1] <= '7'
		switch {
		case rawParens && (x == '(' || x == ')'):
			o.WriteByte(x)
		case esc == 1:
			fmt.Fprintf(&o, "\\%03o", x)
		case esc == 2 && !nextDigit:
			fmt.Fprintf(&o, "\\%o", x)
		case x == '(' || x == ')':
			o.WriteByte('\\')
			o.WriteByte(x)
		case x == '\\':
			o.WriteString("\\\\")
		case x == '\n':
			// any raw end of line reads as a line feed
			switch r.n(4) {
			case 1:
				o.WriteString("\r")
			case 2:
				o.WriteString("\r\n")
			case 3:
				o.WriteString("\n")
			default:
				o.WriteString("\\n")
			}
		case x == '\r':
			o.WriteString("\\r")
		case x == '\t' && esc < 5:
			o.WriteString("\\t")
		case x == '\b' && esc < 5:
			o.WriteString("\\b")
		case esc == 3 && (x >= 'A' && x <= 'Z'):
			o.WriteByte('\\') // ignored before other characters
			o.WriteByte(x)
		default:
			o.WriteByte(x)
		}
		// "\r" written raw just before a raw "\n" would join; the next character decides
		if strings.HasSuffix(o.String(), "\r") && i+1 < len(b) && b[i+1] == '\n' {
			o.WriteString("\\\n\\n")
			return o.String() + g.litTail(b[i+2:])
		}
	}
	o.WriteByte(')')
	return o.String()
}

func (g *cgen) litTail(b []byte) string {
	var o strings.Builder
	for _, x := range b {
		fmt.Fprintf(&o, "\\%03o", x)
	}
	o.WriteByte(')')
	return o.String()
}

func (g *cgen) color(ops []cop, stroke bool, spaces *[2]string) []cop {
	i := 0
	pickOp := func(a, b string) string {
		if stroke {
			return b
		}
		return a
	}
	if stroke {
		i = 1
	}
	n := map[string]int{"DeviceGray": 1, "DeviceRGB": 3, "DeviceCMYK": 4}
	switch num(g.c, "col", 0, 5) {
	case 0:
		spaces[i] = "DeviceGray"
		return append(ops, g.nums(pickOp("g", "G"), 1))
	case 1:
		spaces[i] = "DeviceRGB"
		return append(ops, g.nums(pickOp("rg", "RG"), 3))
	case 2:
		spaces[i] = "DeviceCMYK"
		return append(ops, g.nums(pickOp("k", "K"), 4))
	case 3, 4:
		sp := pick(g.c, "space", "DeviceGray", "DeviceRGB", "DeviceCMYK")
		spaces[i] = sp
		op := pickOp("cs", "CS")
		ops = append(ops, cop{op: op, name: sp, toks: []string{g.name(sp), op}})
		if flip(g.c, "sc") {
			ops = append(ops, g.nums(pickOp(pick(g.c, "scn", "sc", "scn"), pick(g.c, "SCN", "SC", "SCN")), n[sp]))
		}
		return ops
	}
	op := pickOp("cs", "CS")
	spaces[i] = "Pattern"
	ops = append(ops, cop{op: op, name: "Pattern", toks: []string{"/Pattern", op}})
	op = pickOp("scn", "SCN")
	return append(ops, cop{op: op, toks: []string{"/P0", op}})
}

func (g *cgen) textState(ops []cop) []cop {
	switch num(g.c, "ts", 0, 8) {
	case 0, 1, 2:
		f := pick(g.c, "font", g.fonts...)
		n, t := g.num()
		return append(ops, cop{op: "Tf", name: f, n: []float64{n}, toks: []string{g.name(f), t, "Tf"}})
	case 3:
		return append(ops, g.nums("Tc", 1))
	case 4:
		return append(ops, g.nums("Tw", 1))
	case 5:
		return append(ops, g.nums("TL", 1))
	case 6:
		return append(ops, g.nums("Ts", 1))
	case 7:
		return append(ops, g.nums("Tz", 1))
	}
	return append(ops, cop{op: "Tr", toks: []string{"3", "Tr"}})
}

func (g *cgen) textObject(ops []cop) []cop {
	c := g.c
	ops = append(ops, cop{op: "BT", toks: []string{"BT"}})
	for i, n := 0, count(c, "tn", 0, 7, 150); i < n; i++ {
		switch num(c, "to", 0, 10) {
		case 0:
			ops = append(ops, g.nums("Td", 2))
		case 1:
			ops = append(ops, g.nums("TD", 2))
		case 2:
			ops = append(ops, g.nums("Tm", 6))
		case 3:
			ops = append(ops, cop{op: "T*", toks: []string{"T*"}})
		case 4, 5:
			b := g.text()
			ops = append(ops, cop{op: "Tj", s: [][]byte{b}, toks: []string{g.str(b), "Tj"}})
		case 6, 7:
			o := cop{op: "TJ"}
			t := "["
			for j, k := 0, num(c, "tjn", 0, 4); j < k; j++ {
				sep := []string{"", " ", "\n", " %c]\r"}[g.r.n(4)]
				if flip(c, "tjk") {
					b := g.text()
					o.s = append(o.s, b)
					t += sep + g.str(b)
				} else {
					_, s := g.num()
					t += " " + sep + s
				}
			}
			o.toks = []string{t + "]", "TJ"}
			ops = append(ops, o)
		case 8:
			b := g.text()
			ops = append(ops, cop{op: "'", s: [][]byte{b}, toks: []string{g.str(b), "'"}})
		case 9:
			b := g.text()
			o := g.nums("\"", 2)
			o.s = [][]byte{b}
			o.toks = []string{o.toks[0], o.toks[1], g.str(b), "\""}
			ops = append(ops, o)
		case 10:
			ops = g.textState(ops)
		}
	}
	if oneIn(c, "nestedBT", 12) {
		return g.textObject(ops)
	}
	return append(ops, cop{op: "ET", toks: []string{"ET"}})
}

func (g *cgen) path(ops []cop) []cop {
	c := g.c
	started := false
	for i, n := 0, count(c, "pn", 1, 6, 200); i < n; i++ {
		k := num(c, "pk", 0, 7)
		if !started && k > 2 {
			k %= 3
		}
		started = true
		switch k {
		case 0, 1:
			ops = append(ops, g.nums("m", 2))
		case 2:
			ops = append(ops, g.nums("re", 4))
		case 3, 4:
			ops = append(ops, g.nums("l", 2))
		case 5:
			ops = append(ops, g.nums("c", 6))
		case 6:
			op := pick(c, "vy", "v", "y")
			ops = append(ops, g.nums(op, 4))
		case 7:
			ops = append(ops, cop{op: "h", toks: []string{"h"}})
		}
	}
	if oneIn(c, "clip", 6) {
		ops = append(ops, cop{op: "W", toks: []string{pick(c, "W", "W", "W*")}})
	}
	op := pick(c, "paint", "S", "f", "s", "F", "f*", "B", "B*", "b", "b*", "n")
	return append(ops, cop{op: op, toks: []string{op}})
}

func (g *cgen) noise(ops []cop) []cop {
	c := g.c
	switch num(c, "noise", 0, 9) {
	case 0:
		return append(ops, cop{op: "BDC", toks: []string{"/Span", "<</ActualText (BT (x) Tj ET)/K[1 2]>>", "BDC"}}, cop{op: "EMC", toks: []string{"EMC"}})
	case 1:
		return append(ops, cop{op: "BMC", toks: []string{"/Artifact", "BMC"}})
	case 2:
		return append(ops, cop{op: "d", toks: []string{"[3 2]", "0", "d"}})
	case 3:
		return append(ops, cop{op: "gs", toks: []string{"/GS0", "gs"}})
	case 4:
		return append(ops, cop{op: "BX", toks: []string{"BX"}}, cop{op: "zz", toks: []string{"(Tj)", "zz"}}, cop{op: "EX", toks: []string{"EX"}})
	case 5:
		return append(ops, cop{op: "MP", toks: []string{"/Tag", "MP"}})
	case 6, 7, 8:
		// inline image whose data looks like operators
		data := []byte(pick(c, "ii", "(x) Tj", " EI ", "EI\n1 0 0 rg", "Q Q Q Q", "BT (", "<<[((", "EI Q\nBT (a) Tj ET q\n", "\x00\x01\xff", "ID EI", "EI 0 0 9 9 re f ", "EI BT /F1 9 Tf (b) Tj ET "))
		long := flip(c, "iilong")
		k := func(s, l string) string {
			if long {
				return l
			}
			return s
		}
		if oneIn(c, "iiruns", 4) { // far less data than samples
			filter := k("/F", "/Filter") + " " + pick(c, "iirl", "[/AHx/RL]", "[/ASCIIHexDecode /RunLengthDecode]", "[ /ASCIIHexDecode/RL]")
			h := num(c, "iirunrows", 1, 8)
			dict := k("/W", "/Width") + " 16 " + k("/H", "/Height") + fmt.Sprintf(" %d ", h) + k("/CS/G", "/ColorSpace/DeviceGray") + k("/BPC", "/BitsPerComponent") + " 8" + filter
			return append(ops, cop{op: "BI", toks: []string{"BI", dict, "ID\n" + fmt.Sprintf("%02X0080>", 257-16*h) + "\nEI"}})
		}
		if flip(c, "iihex") {
			dict := k("/W", "/Width") + " 1 " + k("/H", "/Height") + fmt.Sprintf(" %d ", len(data)) + k("/CS/G", "/ColorSpace/DeviceGray") + k("/BPC", "/BitsPerComponent") + " 8 " + k("/F", "/Filter") + k("/AHx", "[/ASCIIHexDecode]")
			return append(ops, cop{op: "BI", toks: []string{"BI", dict, "ID\n" + fmt.Sprintf("%x>", data) + "\nEI"}})
		}
		dict := k("/W", "/Width") + fmt.Sprintf(" %d ", len(data)) + k("/H", "/Height") + " 1 " + k("/CS/G", "/ColorSpace/DeviceGray") + k("/BPC", "/BitsPerComponent") + " 8"
		if flip(c, "iirows") { // rows of samples of any size, each on whole bytes
			n := pick(c, "iicomps", 1, 3, 4)
			bits := pick(c, "iibits", 1, 2, 4, 8, 16)
			w := num(c, "iiw", 1, 9)
			row := (w*n*bits + 7) / 8
			h := (len(data) + row - 1) / row
			data = append(data, make([]byte, row*h-len(data))...)
			cs := map[int]string{1: k("/G", "/DeviceGray"), 3: k("/RGB", "/DeviceRGB"), 4: k("/CMYK", "/DeviceCMYK")}[n]
			parts := []string{k("/W", "/Width") + fmt.Sprint(" ", w), k("/H", "/Height") + fmt.Sprint(" ", h), k("/CS", "/ColorSpace") + cs, k("/BPC", "/BitsPerComponent") + fmt.Sprint(" ", bits)}
			at := num(c, "iiorder", 0, 3)
			dict = strings.Join(append(append([]string{}, parts[at:]...), parts[:at]...), " ")
		}
		if flip(c, "mask") {
			dict = k("/IM", "/ImageMask") + " true " + k("/W", "/Width") + fmt.Sprintf(" %d ", len(data)*8-3) + k("/H", "/Height") + " 1 "
		}
		return append(ops, cop{op: "BI", toks: []string{"BI", dict, "ID " + string(data) + "\nEI"}})
	}
	return append(ops, cop{op: "ri", toks: []string{"/Perceptual", "ri"}})
}

func (g *cgen) program(n int) []cop {
	c := g.c
	var ops []cop
	var sp [2]string
	for i := 0; i < n; i++ {
		switch num(c, "item", 0, 14) {
		case 0, 1, 2, 3:
			ops = g.textObject(ops)
		case 4, 5, 6:
			ops = g.path(ops)
		case 7, 8:
			ops = append(ops, cop{op: "q", toks: []string{"q"}})
		case 9, 10:
			ops = append(ops, cop{op: "Q", toks: []string{"Q"}})
		case 11:
			if oneIn(c, "deep", 25) { // many states saved, each of its own, and restored
				k := num(c, "levels", 20, 300)
				for j := 0; j < k; j++ {
					ops = append(ops, cop{op: "q", toks: []string{"q"}}, cop{op: "w", n: []float64{float64(j)}, toks: []string{fmt.Sprint(j), "w"}})
				}
				for j := num(c, "restored", 0, k); j > 0; j-- {
					ops = append(ops, cop{op: "Q", toks: []string{"Q"}})
				}
				ops = g.path(ops)
			}
			ops = append(ops, g.nums("cm", 6))
		case 12:
			ops = g.color(ops, flip(c, "strokeCol"), &sp)
		case 13:
			switch num(c, "misc", 0, 4) {
			case 0:
				ops = append(ops, g.nums("w", 1))
			case 1:
				v := num(c, "lc", 0, 2)
				op := pick(c, "Jj", "J", "j")
				ops = append(ops, cop{op: op, n: []float64{float64(v)}, toks: []string{fmt.Sprint(v), op}})
			case 2:
				ops = append(ops, g.nums("M", 1))
			case 3:
				ops = g.textState(ops)
			case 4:
				ops = g.noise(ops)
			}
		case 14:
			if len(g.forms) > 0 && flip(c, "doform") {
				i := num(c, "form", 0, len(g.forms)-1)
				nm := fmt.Sprintf("Fm%d", i)
				ops = append(ops, cop{op: "Do", name: nm, form: g.forms[i], toks: []string{g.name(nm), "Do"}})
			} else if len(g.imgs) > 0 {
				nm := pick(c, "img", g.imgs...)
				ops = append(ops, cop{op: "Do", name: nm, toks: []string{g.name(nm), "Do"}})
			}
		}
	}
	return ops
}

func regular(b byte) bool { return !strings.ContainsRune("\x00\t\n\f\r ()<>[]{}/%", rune(b)) }

// render lays the program out, cut into the given number of pieces at token boundaries.
func (g *cgen) render(ops []cop, pieces int) [][]byte {
	var toks []string
	for _, o := range ops {
		toks = append(toks, o.toks...)
	}
	cut := map[int]bool{}
	for i := 1; i < pieces; i++ {
		cut[num(g.c, "cut", 0, len(toks))] = true
	}
	var out [][]byte
	var b bytes.Buffer
	for i, t := range toks {
		if cut[i] {
			out = append(out, append([]byte(nil), b.Bytes()...))
			b.Reset()
		} else if i > 0 {
			last := toks[i-1][len(toks[i-1])-1]
			glue := !regular(last) || !regular(t[0])
			if strings.HasPrefix(toks[i-1], "ID") {
				glue = false
			}
			switch k := g.r.n(8); {
			case k == 1 && glue:
			case k == 2:
				b.WriteString("\n")
			case k == 3:
				b.WriteString("\r\n")
			case k == 4:
				b.WriteString(" % (Tj ET Q [<\r")
			case k == 5:
				b.WriteString("\t\x00\f")
			case k == 6:
				b.WriteString("\n\n  ")
			default:
				b.WriteString(" ")
			}
		}
		b.WriteString(t)
	}
	return append(out, append([]byte(nil), b.Bytes()...))
}

func init() {
	hx.Reg("C09", "content", 4000, "documents of 1-3 pages whose content is a generated program (text objects, fonts, spacing, positioning; paths and painting; colours; save and restore; matrices; forms; inline images and other operators) in any layout, string syntax, number syntax, compression and division into streams, compared element by element with a model interpreter; non-trivial: text or graphics follow a state change, keyed by the program",
		func(c *hx.C) {
			f := newFD(c)
			g := &cgen{c: c, r: prng(num(c, "layout", 0, 1<<30)), fonts: []string{"F1", "F2", "Fo nt"}, imgs: []string{"Im0", "I#m"}}
			mkFont := func(base string) ref.Obj {
				return f.ind(ref.Dict{{K: "Type", V: ref.Name("Font")}, {K: "Subtype", V: ref.Name("Type1")}, {K: "BaseFont", V: ref.Name(base)}, {K: "Encoding", V: ref.Name("WinAnsiEncoding")}})
			}
			fonts := ref.Dict{{K: "F1", V: mkFont("Helvetica")}, {K: "F2", V: mkFont("Times-Roman")}}
			if flip(c, "f3") {
				fonts = append(fonts, ref.KV{K: "Fo nt", V: mkFont("Courier")})
			}
			img := f.stream(ref.Dict{{K: "Type", V: ref.Name("XObject")}, {K: "Subtype", V: ref.Name("Image")}, {K: "Width", V: 1}, {K: "Height", V: 1}, {K: "BitsPerComponent", V: 8}, {K: "ColorSpace", V: ref.Name("DeviceGray")}}, []byte{7})
			xo := ref.Dict{{K: "Im0", V: img}, {K: "I#m", V: img}}
			gs := ref.Dict{{K: "GS0", V: ref.Dict{{K: "CA", V: ref.Real("0.5")}}}}
			for i, n := 0, count(c, "forms", 0, 3, 20); i < n; i++ {
				fo := &cform{}
				d := ref.Dict{{K: "Type", V: ref.Name("XObject")}, {K: "Subtype", V: ref.Name("Form")}, {K: "BBox", V: ref.Arr{0, 0, 100, 100}}}
				if flip(c, "fmatrix") {
					a := ref.Arr{}
					for j := 0; j < 6; j++ {
						v, t := g.num()
						fo.matrix = append(fo.matrix, v)
						a = append(a, ref.Real(t))
					}
					d = append(d, ref.KV{K: "Matrix", V: f.ind(a)})
				}
				if flip(c, "fres") {
					d = append(d, ref.KV{K: "Resources", V: f.ind(ref.Dict{{K: "Font", V: fonts}, {K: "XObject", V: append(ref.Dict{}, xo...)}, {K: "ExtGState", V: gs}})})
				}
				fo.ops = g.program(num(c, "fn", 1, 5))
				if oneIn(c, "unpainted", 6) { // a path that is never painted
					fo.ops = append(fo.ops, g.nums("m", 2), g.nums("l", 2))
				}
				fo.ref = f.stream(d, g.render(fo.ops, 1)[0])
				g.forms = append(g.forms, fo)
				xo = append(xo, ref.KV{K: fmt.Sprintf("Fm%d", i), V: fo.ref})
			}
			res := f.ind(ref.Dict{{K: "Font", V: f.ind(fonts)}, {K: "XObject", V: f.ind(xo)}, {K: "ExtGState", V: gs}})
			np := count(c, "pages", 1, 3, 20)
			var progs [][]cop
			for i := 0; i < np; i++ {
				progs = append(progs, g.program(count(c, "items", 1, 12, 300)))
			}
			root, _ := f.pageTree(np, func(i int) (ref.Dict, ref.Dict) {
				own := ref.Dict{}
				k := num(c, "pieces", 0, 4)
				if k == 0 {
					own = append(own, ref.KV{K: "Contents", V: f.stream(nil, g.render(progs[i], 1)[0])})
				} else {
					a := ref.Arr{}
					for _, p := range g.render(progs[i], k) {
						a = append(a, f.stream(nil, p))
					}
					own = append(own, ref.KV{K: "Contents", V: f.ind(a)})
				}
				return own, ref.Dict{{K: "MediaBox", V: ref.Arr{0, 0, 612, 792}}, {K: "Resources", V: res}}
			})
			cat := f.add(ref.Dict{{K: "Type", V: ref.Name("Catalog")}, {K: "Pages", V: root}})
			f.trailer = ref.Dict{{K: "Root", V: cat}}
			b := f.emit()
			c.Dump("in.pdf", b)
			doc, err := extract.ExtractContent(b, nil, false)
			if err != nil {
				c.Fail("ExtractContent: %v", err)
			}
			if len(doc.Pages) != np {
				c.Fail("%d pages, want %d", len(doc.Pages), np)
			}
			key := ""
			nt := false
			for i := range progs {
				want := runPage(progs[i])
				var shown []string
				for _, o := range progs[i] {
					shown = append(shown, strings.Join(o.toks, " "))
				}
				prog := strings.Join(shown, " ")
				if err := comparePage(want, doc.Pages[i]); err != nil {
					c.Fail("page %d: %v\nprogram: %s", i+1, err, prog)
				}
				if doc.Pages[i].PageNumber != i+1 {
					c.Fail("page %d is numbered %d", i+1, doc.Pages[i].PageNumber)
				}
				key += prog + "\n"
				nt = nt || len(want.text)+len(want.graphics) > 0 && len(progs[i]) > 3
				c.ClassIf(len(want.text) > 3, "4+ text elements")
				c.ClassIf(len(want.graphics) > 2, "3+ graphics")
				c.ClassIf(len(want.images) > 0, "images placed")
			}
			c.ClassIf(len(g.forms) > 0, "forms")
			c.Class(f.form)
			if nt {
				c.NT(key)
			}
		})

	hx.Reg("C09", "builder", 4000, "pages drawn with the content builder (1-15 calls over every operator it offers), written in any mode and extracted, compared with the same model interpreter; non-trivial: 1+ text or graphics element, keyed by the calls",
		func(c *hx.C) {
			sb := write.NewSimplePDFBuilder()
			sb.Writer().UseXRefStream(flip(c, "xs"))
			np := count(c, "pages", 1, 3, 20)
			var progs [][]cop
			for i := 0; i < np; i++ {
				pg := sb.AddPage(write.PageSizeLetter)
				fn := pg.AddStandardFont(pick(c, "std", "Helvetica", "Times-Roman", "Courier"))
				progs = append(progs, builderProgram(c, pg.Content(), strings.TrimPrefix(fn, "/")))
				sb.FinalizePage(pg)
			}
			b, err := sb.Bytes()
			if err != nil {
				c.Fail("Bytes: %v", err)
			}
			c.Emits("out.pdf", b, sb.Bytes)
			pdf, err := parse.Open(b)
			if err != nil {
				c.Fail("Open: %v", err)
			}
			pages, err := extract.ExtractPages(b, pdf, false)
			if err != nil || len(pages) != np {
				c.Fail("%d pages, want %d: %v", len(pages), np, err)
			}
			key, some := "", false
			for i := range pages {
				want := runPage(progs[i])
				desc := fmt.Sprintf("%v", progs[i])
				if err := comparePage(want, pages[i]); err != nil {
					c.Fail("page %d: %v\ncalls: %s", i+1, err, desc)
				}
				some = some || len(want.text)+len(want.graphics) > 0
				key += desc
			}
			if some {
				c.NT(key)
			}
		})
}

// builderProgram makes a drawn sequence of builder calls and returns what it means.
func builderProgram(c *hx.C, cs *write.ContentStream, font string) []cop {
	var ops []cop
	fl := func() float64 {
		return pick(c, "f", 0, 1, -1.5, 72.25, 1000, 0.33333, -0.0625, 12, 5000.125, 1e-7, -300)
	}
	r4 := func(fs ...float64) []float64 {
		var out []float64
		for _, f := range fs {
			v, _ := strconv.ParseFloat(strconv.FormatFloat(f, 'f', 4, 64), 64)
			out = append(out, v)
		}
		return out
	}
	add := func(op string, fs ...float64) { ops = append(ops, cop{op: op, n: r4(fs...)}) }
	text := func() string {
		return pick(c, "txt", "Hello", "a(b)c", "back\\", "(", "))", "", "line\nbreak", "cafe", "cr\r", "tab\t", "ET", "Tj", "\\051", "(()", "x\\\n")
	}
	for i, n := 0, count(c, "calls", 1, 15, 300); i < n; i++ {
		a, b, d, e := fl(), fl(), fl(), fl()
		switch num(c, "call", 0, 17) {
		case 0:
			cs.SaveState()
			add("q")
		case 1:
			cs.RestoreState()
			add("Q")
		case 2:
			switch num(c, "mx", 0, 2) {
			case 0:
				cs.SetMatrix(a, b, d, e, 1, 2)
				add("cm", a, b, d, e, 1, 2)
			case 1:
				cs.Translate(a, b)
				add("cm", 1, 0, 0, 1, a, b)
			case 2:
				cs.Scale(a, b)
				add("cm", a, 0, 0, b, 0, 0)
			}
		case 3:
			cs.SetFillColorRGB(a, b, d).SetStrokeColorRGB(d, e, a)
			add("rg", a, b, d)
			add("RG", d, e, a)
		case 4:
			cs.SetFillColorGray(a).SetStrokeColorGray(b)
			add("g", a)
			add("G", b)
		case 5, 6:
			cs.MoveTo(a, b)
			add("m", a, b)
			for j, k := 0, num(c, "segs", 0, 4); j < k; j++ {
				switch num(c, "seg", 0, 4) {
				case 0:
					cs.LineTo(d, e)
					add("l", d, e)
				case 1:
					cs.CurveTo(a, b, d, e, 1, 2)
					add("c", a, b, d, e, 1, 2)
				case 2:
					cs.CurveToV(a, d, b, e)
					add("v", a, d, b, e)
				case 3:
					cs.CurveToY(a, d, b, e)
					add("y", a, d, b, e)
				case 4:
					cs.ClosePath()
					add("h")
				}
			}
			switch num(c, "pt", 0, 3) {
			case 0:
				cs.Stroke()
				add("S")
			case 1:
				cs.Fill()
				add("f")
			case 2:
				cs.FillStroke()
				add("B")
			case 3:
				cs.ClosePathStroke()
				add("s")
			}
		case 7:
			cs.Rectangle(a, b, d, e).Fill()
			add("re", a, b, d, e)
			add("f")
		case 8:
			cs.SetLineWidth(a)
			add("w", a)
		case 9:
			cs.SetLineDash([]float64{1, 2}, 0).Raw("0.5 0 0 rg")
			add("rg", 0.5, 0, 0)
		case 10:
			cs.DrawImageAt("/Im1", a, b, d, e)
			add("q")
			add("cm", d, 0, 0, e, a, b)
			ops = append(ops, cop{op: "Do", name: "Im1"})
			add("Q")
		default:
			cs.BeginText()
			add("BT")
			for j, k := 0, num(c, "tops", 1, 5); j < k; j++ {
				a, b := fl(), fl()
				switch num(c, "top", 0, 12) {
				case 0:
					cs.SetFont("/"+font, a)
					ops = append(ops, cop{op: "Tf", name: font, n: r4(a)})
				case 1:
					cs.SetTextPosition(a, b)
					add("Td", a, b)
				case 2:
					cs.SetTextMatrix(a, b, d, e, 3, 4)
					add("Tm", a, b, d, e, 3, 4)
				case 3:
					cs.MoveTextPosition(a, b)
					add("TD", a, b)
				case 4:
					cs.SetTextLeading(a).NextLine()
					add("TL", a)
					add("T*")
				case 5:
					t := text()
					cs.ShowTextNextLine(t)
					ops = append(ops, cop{op: "'", s: [][]byte{[]byte(t)}})
				case 6:
					t, u := text(), text()
					cs.ShowTextArray([]interface{}{t, -50, 12.5, u})
					ops = append(ops, cop{op: "TJ", s: [][]byte{[]byte(t), []byte(u)}})
				case 7:
					t := text()
					cs.ShowTextHex(fmt.Sprintf("%x", t))
					ops = append(ops, cop{op: "Tj", s: [][]byte{[]byte(t)}})
				case 8:
					cs.SetCharSpacing(a).SetWordSpacing(b).SetTextRise(d).SetTextRenderMode(2)
					add("Tc", a)
					add("Tw", b)
					add("Ts", d)
				default:
					t := text()
					cs.ShowText(t)
					ops = append(ops, cop{op: "Tj", s: [][]byte{[]byte(t)}})
				}
			}
			cs.EndText()
			add("ET")
		}
	}
	return ops
}
