package props

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"verif/harness/hx"
	"verif/harness/ref"

	"github.com/benedoc-inc/pdfer/core/parse"
	"github.com/benedoc-inc/pdfer/core/write"
	"github.com/benedoc-inc/pdfer/forms"
	"github.com/benedoc-inc/pdfer/forms/acroform"
	"github.com/benedoc-inc/pdfer/types"
)

// C16: form fields are reported as the document defines them. C17: filling sets exactly the named fields.

// mwidget is a widget annotation of a field.
type mwidget struct {
	ref    ref.Ref
	page   int
	rect   []float64
	states []string // names in /AP /N
}

// mfield is the model of one form field.
type mfield struct {
	ref     ref.Ref
	parent  *mfield
	kids    []*mfield
	t, tu   string
	tm      string
	ft      string
	ff      int
	q       int
	maxLen  int
	da      string
	v, dv   interface{} // own values, nil when not set here
	opt     []interface{}
	ti      int
	i       []int
	widgets []mwidget
	d       ref.Dict
}

func (m *mfield) name() string {
	if m.parent != nil {
		return m.parent.name() + "." + m.t
	}
	return m.t
}

func (m *mfield) value() interface{} {
	for ; m != nil; m = m.parent {
		if m.v != nil {
			return m.v
		}
	}
	return nil
}

func (m *mfield) defValue() interface{} {
	for ; m != nil; m = m.parent {
		if m.dv != nil {
			return m.dv
		}
	}
	return nil
}

// mform is the model of a document with a form.
type mform struct {
	f        *fd
	b        []byte
	pw       []byte
	pages    int
	roots    []*mfield
	needApp  bool
	xfa      bool
	maxDepth int
	nested   bool
}

func (m *mform) all() []*mfield {
	var out []*mfield
	var visit func(fs []*mfield)
	visit = func(fs []*mfield) {
		for _, f := range fs {
			out = append(out, f)
			visit(f.kids)
		}
	}
	visit(m.roots)
	return out
}

func (m *mform) terminals() []*mfield {
	var out []*mfield
	for _, f := range m.all() {
		if len(f.kids) == 0 {
			out = append(out, f)
		}
	}
	return out
}

const (
	ffReadOnly = 1 << 0
	ffRequired = 1 << 1
	ffNoExport = 1 << 2
	ffMulti    = 1 << 12
	ffPassword = 1 << 13
	ffNoToggle = 1 << 14
	ffRadio    = 1 << 15
	ffPush     = 1 << 16
	ffCombo    = 1 << 17
	ffEdit     = 1 << 18
	ffSort     = 1 << 19
	ffMultiSel = 1 << 21
)

var stateNames = []string{"Yes", "On", "1", "Choice A", "a/b", "é", "No", "x(y)", "Off ", "R", "A#B"}

// fieldFlags draws flags that go with a field type.
func fieldFlags(c *hx.C, ft string) int {
	ff := 0
	for _, b := range []int{ffReadOnly, ffRequired, ffNoExport} {
		if oneIn(c, "flag", 4) {
			ff |= b
		}
	}
	switch ft {
	case "Tx":
		ff |= pick(c, "txflag", 0, 0, ffMulti, ffPassword, 1<<20, 1<<22, 1<<23, 1<<24, ffMulti|1<<22)
	case "Btn":
		ff |= pick(c, "btnflag", 0, 0, ffRadio, ffRadio|ffNoToggle, ffPush, 1<<25|ffRadio)
	case "Ch":
		ff |= pick(c, "chflag", 0, ffCombo, ffCombo|ffEdit, ffMultiSel, ffSort, ffCombo|ffSort, 1<<26, ffEdit)
	}
	return ff
}

// fieldPDFValue draws a value for a field type: the object and what it is to read as.
func (m *mform) fieldPDFValue(c *hx.C, ft string, opt []interface{}) (ref.Obj, interface{}) {
	text := func() (ref.Obj, string) {
		s, want := foreignText(c, "val")
		return s, want
	}
	switch ft {
	case "Btn":
		s := pick(c, "state", append([]string{"Off"}, stateNames...)...)
		return m.f.ind(ref.Name(s)), s
	case "Ch":
		one := func() (ref.Obj, string) {
			if len(opt) > 0 && !oneIn(c, "custom", 4) {
				v := optValue(opt[num(c, "which", 0, len(opt)-1)])
				return ref.Str{B: utf16Mark(v)}, v
			}
			return text()
		}
		if oneIn(c, "list", 3) {
			arr, want := ref.Arr{}, []interface{}{}
			for i, n := 0, num(c, "nvals", 0, 3); i < n; i++ {
				o, s := one()
				arr, want = append(arr, m.f.ind(o)), append(want, s)
			}
			return m.f.ind(arr), want
		}
		o, s := one()
		return m.f.ind(o), s
	}
	o, s := text()
	if oneIn(c, "txstream", 6) {
		return m.f.stream(ref.Dict{}, o.(ref.Str).B), s
	}
	return m.f.ind(o), s
}

// utf16Mark encodes text as UTF-16BE with its mark.
func utf16Mark(s string) []byte {
	b := []byte{0xfe, 0xff}
	for _, r := range s {
		if r >= 0x10000 {
			r -= 0x10000
			hi, lo := 0xd800+r>>10, 0xdc00+r&0x3ff
			b = append(b, byte(hi>>8), byte(hi), byte(lo>>8), byte(lo))
			continue
		}
		b = append(b, byte(r>>8), byte(r))
	}
	return b
}

func optValue(o interface{}) string {
	if p, ok := o.([]interface{}); ok {
		return p[0].(string)
	}
	return o.(string)
}

func optLabel(o interface{}) string {
	if p, ok := o.([]interface{}); ok {
		return p[1].(string)
	}
	return o.(string)
}

func (m *mform) genOptions(c *hx.C) (ref.Obj, []interface{}) {
	arr, want := ref.Arr{}, []interface{}{}
	seen := map[string]bool{}
	for i, n := 0, count(c, "opts", 1, 4, 80); i < n; i++ {
		o, s := foreignText(c, "opt")
		if seen[s] {
			continue
		}
		seen[s] = true
		if oneIn(c, "optpair", 3) {
			l, ls := foreignText(c, "optlabel")
			arr = append(arr, m.f.ind(ref.Arr{o, m.f.ind(l)}))
			want = append(want, []interface{}{s, ls})
			continue
		}
		arr, want = append(arr, m.f.ind(o)), append(want, s)
	}
	return m.f.ind(arr), want
}

func (m *mform) genWidget(c *hx.C, d ref.Dict, r ref.Ref, ft string, pages []pageSpec, annots []ref.Arr) (ref.Dict, mwidget) {
	w := mwidget{ref: r}
	x, y := num(c, "wx", -5, 500), num(c, "wy", 0, 700)
	rect := ref.Arr{}
	for _, n := range []int{x, y, x + num(c, "ww", 1, 200), y + num(c, "wh", 1, 50)} {
		if oneIn(c, "wreal", 4) {
			rect = append(rect, m.f.ind(ref.Real(fmt.Sprintf("%d.25", n))))
			if n < 0 {
				w.rect = append(w.rect, float64(n)-0.25)
			} else {
				w.rect = append(w.rect, float64(n)+0.25)
			}
			continue
		}
		rect = append(rect, n)
		w.rect = append(w.rect, float64(n))
	}
	d = append(d, ref.KV{K: "Subtype", V: ref.Name("Widget")}, ref.KV{K: "Rect", V: m.f.ind(rect)})
	if flip(c, "wtype") {
		d = append(d, ref.KV{K: "Type", V: ref.Name("Annot")})
	}
	w.page = spread(c, "wpage", len(pages))
	listed := !oneIn(c, "unlisted", 8)
	if !listed || flip(c, "hasP") {
		d = append(d, ref.KV{K: "P", V: pages[w.page].ref})
	}
	if listed {
		annots[w.page] = append(annots[w.page], r)
	}
	if ft == "Btn" && !oneIn(c, "noap", 3) {
		ap := ref.Dict{}
		for _, s := range []string{pick(c, "apstate", stateNames...), "Off"} {
			if s == "Off" && oneIn(c, "nooff", 3) {
				continue
			}
			w.states = append(w.states, s)
			ap = append(ap, ref.KV{K: s, V: m.f.stream(ref.Dict{{K: "Subtype", V: ref.Name("Form")}, {K: "BBox", V: ref.Arr{0, 0, 9, 9}}}, []byte("0 g "+s))})
		}
		d = append(d, ref.KV{K: "AP", V: m.f.ind(ref.Dict{{K: "N", V: m.f.ind(ap)}})})
		if flip(c, "hasAS") {
			d = append(d, ref.KV{K: "AS", V: ref.Name(pick(c, "as", w.states...))})
		}
	}
	if oneIn(c, "mk", 4) {
		d = append(d, ref.KV{K: "MK", V: ref.Dict{{K: "CA", V: ref.Str{B: nastyBytes(c, "ca", 2)}}, {K: "T", V: ref.Str{B: []byte("trap")}}, {K: "Kids", V: ref.Arr{}}}})
	}
	return d, w
}

// genForm draws a document with a form: fields flat or nested, their own widget, with several
// or with none, attributes at the field or inherited.
func genForm(c *hx.C, tag string, plain bool) *mform {
	f := newFD(c)
	m := &mform{f: f}
	if !plain && oneIn(c, "encrypt", 4) {
		f.user, f.owner = []byte("user"), []byte("owner")
		m.pw = pick(c, "bywhom", f.user, f.owner)
	}
	m.pages = count(c, "pages", 1, 4, 30)
	root, pages := f.pageTree(m.pages, func(i int) (ref.Dict, ref.Dict) {
		return ref.Dict{{K: "Contents", V: f.stream(nil, []byte(fmt.Sprintf("BT (%s %d) Tj ET", tag, i)))}},
			ref.Dict{{K: "MediaBox", V: ref.Arr{0, 0, 612, 792}}, {K: "Resources", V: ref.Dict{}}}
	})
	annots := make([]ref.Arr, m.pages)
	for i := range annots {
		for j, n := 0, num(c, "otherannots", 0, 1); j < n; j++ {
			annots[i] = append(annots[i], f.ind(ref.Dict{{K: "Type", V: ref.Name("Annot")}, {K: "Subtype", V: ref.Name("Text")}, {K: "Rect", V: ref.Arr{1, 2, 3, 4}}, {K: "Contents", V: ref.Str{B: nastyBytes(c, "note", 2)}}, {K: "T", V: ref.Str{B: []byte("not a field")}}}))
		}
	}
	form := ref.Dict{}
	formDA, formQ := "", 0
	if flip(c, "formDA") {
		formDA = pick(c, "fda", "/Helv 0 Tf 0 g", "/F(1 12 Tf")
		form = append(form, ref.KV{K: "DA", V: f.ind(ref.Str{B: []byte(formDA), Hex: flip(c, "dahex")})})
	}
	if oneIn(c, "formQ", 3) {
		formQ = num(c, "fq", 1, 2)
		form = append(form, ref.KV{K: "Q", V: f.ind(formQ)})
	}
	if flip(c, "needapp") {
		m.needApp = flip(c, "needappval")
		form = append(form, ref.KV{K: "NeedAppearances", V: f.ind(m.needApp)})
	}
	if oneIn(c, "sigflags", 4) {
		form = append(form, ref.KV{K: "SigFlags", V: 3})
	}
	if oneIn(c, "dr", 3) {
		form = append(form, ref.KV{K: "DR", V: f.ind(ref.Dict{{K: "Font", V: ref.Dict{}}, {K: "Fields", V: ref.Arr{root}}})})
	}
	if oneIn(c, "xfa", 8) {
		m.xfa = true
		form = append(form, ref.KV{K: "XFA", V: f.ind(f.stream(ref.Dict{}, []byte("<xdp/>")))})
	}
	budget := num(c, "budget", 1, 9)
	var build func(parent *mfield, names map[string]bool, depth int, ft string) *mfield
	build = func(parent *mfield, names map[string]bool, depth int, ft string) *mfield {
		if budget <= 0 {
			return nil
		}
		to, t := foreignText(c, "t")
		t2 := strings.ReplaceAll(t, ".", "")
		if t2 != t || names[t] {
			// no periods and no name twice
			t = fmt.Sprintf("%d%s", len(names), t2)
			to = ref.Str{B: utf16Mark(t)}
		}
		names[t] = true
		budget--
		x := &mfield{ref: f.reserve(), parent: parent, t: t}
		d := ref.Dict{{K: "T", V: f.ind(to)}}
		if parent == nil {
			x.q, x.da = formQ, formDA
		} else {
			x.q, x.da, x.ff, x.maxLen, x.ft = parent.q, parent.da, parent.ff, parent.maxLen, parent.ft
			if !oneIn(c, "noparent", 8) {
				d = append(d, ref.KV{K: "Parent", V: parent.ref})
			}
		}
		group := depth > 0 && oneIn(c, "group", 3)
		own := func(label string) bool {
			return group && oneIn(c, "grp"+label, 3) || !group && flip(c, "own"+label)
		}
		if own("FT") || (!group && x.ft == "") || (x.ft != "" && own("FTagain")) {
			x.ft = ft
			d = append(d, ref.KV{K: "FT", V: f.ind(ref.Name(ft))})
		}
		if own("Ff") {
			x.ff = fieldFlags(c, ft)
			d = append(d, ref.KV{K: "Ff", V: f.ind(x.ff)})
		}
		if own("Q") {
			x.q = num(c, "q", 0, 2)
			d = append(d, ref.KV{K: "Q", V: f.ind(x.q)})
		}
		if own("DA") {
			s, _ := ref.Str{B: []byte(pick(c, "da", "/Helv 12 Tf 0 g", "/He#20lv 9 Tf (x\\) 0 0 1 rg", "0 g"))}, 0
			x.da = string(s.B)
			d = append(d, ref.KV{K: "DA", V: f.ind(s)})
		}
		if ft == "Tx" && own("MaxLen") {
			x.maxLen = pick(c, "maxlen", 1, 2, 5, 80, 1000)
			d = append(d, ref.KV{K: "MaxLen", V: f.ind(x.maxLen)})
		}
		if flip(c, "tu") {
			o, s := foreignText(c, "tuv")
			x.tu = s
			d = append(d, ref.KV{K: "TU", V: f.ind(o)})
		}
		if oneIn(c, "tm", 3) {
			o, s := foreignText(c, "tmv")
			x.tm = s
			d = append(d, ref.KV{K: "TM", V: o})
		}
		if ft == "Ch" && !group && !oneIn(c, "noopt", 4) {
			var o ref.Obj
			o, x.opt = m.genOptions(c)
			d = append(d, ref.KV{K: "Opt", V: o})
			if oneIn(c, "ti", 3) {
				x.ti = num(c, "tiv", 0, len(x.opt)-1)
				d = append(d, ref.KV{K: "TI", V: x.ti})
			}
		}
		if ft != "Sig" && x.ft != "" && own("V") {
			var o ref.Obj
			o, x.v = m.fieldPDFValue(c, ft, x.opt)
			d = append(d, ref.KV{K: "V", V: o})
		} else if oneIn(c, "nullV", 8) {
			d = append(d, ref.KV{K: "V", V: ref.Null{}})
		}
		if ft != "Sig" && x.ft != "" && own("DV") {
			var o ref.Obj
			o, x.dv = m.fieldPDFValue(c, ft, x.opt)
			d = append(d, ref.KV{K: "DV", V: o})
		}
		if x.opt != nil && flip(c, "hasI") {
			// the indices of the values, when there are such
			vals, ok := x.value().([]interface{})
			if !ok && x.value() != nil {
				vals = []interface{}{x.value()}
			}
			arr := ref.Arr{}
			for i, o := range x.opt {
				for _, v := range vals {
					if v == optValue(o) {
						arr = append(arr, i)
						x.i = append(x.i, i)
						break
					}
				}
			}
			d = append(d, ref.KV{K: "I", V: arr})
		}
		if oneIn(c, "aa", 6) {
			d = append(d, ref.KV{K: "AA", V: ref.Dict{{K: "K", V: ref.Dict{{K: "S", V: ref.Name("JavaScript")}, {K: "JS", V: ref.Str{B: nastyBytes(c, "js", 3)}}, {K: "V", V: ref.Str{B: []byte("trap")}}}}}})
		}
		if oneIn(c, "extra", 5) {
			d = append(d, ref.KV{K: "PieceInfo", V: ref.Dict{{K: "T", V: ref.Str{B: []byte("trap")}}, {K: "V", V: ref.Str{B: []byte("trap")}}, {K: "FT", V: ref.Name("Ch")}, {K: "Kids", V: ref.Arr{x.ref}}}})
		}
		kids := ref.Arr{}
		if group {
			sub := map[string]bool{}
			for i, n := 0, count(c, "kids", 1, 3, 40); i < n; i++ {
				kft := ft
				if x.ft == "" {
					kft = pick(c, "kft", "Tx", "Btn", "Ch", "Tx", "Sig")
				}
				if k := build(x, sub, depth-1, kft); k != nil {
					x.kids = append(x.kids, k)
					kids = append(kids, k.ref)
				}
			}
			if len(x.kids) > 0 {
				m.nested = true
				if oneIn(c, "cycle", 6) {
					p := x
					for p.parent != nil && flip(c, "higher") {
						p = p.parent
					}
					at := num(c, "cycleat", 0, len(kids))
					kids = append(kids[:at:at], append(ref.Arr{p.ref}, kids[at:]...)...)
				}
			} else if x.ft == "" {
				x.ft = ft
				d = append(d, ref.KV{K: "FT", V: ref.Name(ft)})
			}
		}
		if len(x.kids) == 0 {
			switch k := num(c, "widgets", 0, 4); {
			case k == 4:
			case k == 3:
				for i, n := 0, count(c, "nw", 1, 3, 15); i < n; i++ {
					r := f.reserve()
					wd, w := m.genWidget(c, ref.Dict{{K: "Parent", V: x.ref}}, r, ft, pages, annots)
					f.set(r, wd)
					x.widgets = append(x.widgets, w)
					kids = append(kids, r)
				}
			default:
				var w mwidget
				d, w = m.genWidget(c, d, x.ref, ft, pages, annots)
				x.widgets = append(x.widgets, w)
			}
		}
		if len(kids) > 0 {
			d = append(d, ref.KV{K: "Kids", V: f.ind(kids)})
		}
		if flip(c, "revd") {
			for i, j := 0, len(d)-1; i < j; i, j = i+1, j-1 {
				d[i], d[j] = d[j], d[i]
			}
		}
		x.d = d
		f.set(x.ref, d)
		return x
	}
	fields := ref.Arr{}
	names := map[string]bool{}
	depth := pick(c, "depth", 0, 1, 2, 3, 12)
	for budget > 0 {
		x := build(nil, names, depth, pick(c, "ft", "Tx", "Btn", "Ch", "Tx", "Sig"))
		m.roots = append(m.roots, x)
		fields = append(fields, x.ref)
		if oneIn(c, "dup", 10) {
			fields = append(fields, fields[num(c, "dupof", 0, len(fields)-1)])
		}
	}
	for i, p := range pages {
		if len(annots[i]) > 0 {
			d := f.objs[p.ref.N].(ref.Dict)
			f.set(p.ref, append(append(ref.Dict{}, d...), ref.KV{K: "Annots", V: f.ind(annots[i])}))
		}
	}
	form = append(form, ref.KV{K: "Fields", V: f.ind(fields)})
	cat := ref.Dict{{K: "Type", V: ref.Name("Catalog")}, {K: "Pages", V: root}, {K: "AcroForm", V: f.ind(form)}}
	if flip(c, "misc") {
		cat = append(cat, ref.KV{K: "Names", V: ref.Dict{{K: "AcroForm", V: ref.Dict{{K: "Fields", V: ref.Arr{}}}}}})
	}
	if flip(c, "catrev") {
		cat[0], cat[2] = cat[2], cat[0]
	}
	f.trailer = ref.Dict{{K: "Root", V: f.add(cat)}}
	if flip(c, "info") {
		f.trailer = append(f.trailer, ref.KV{K: "Info", V: f.add(ref.Dict{{K: "Title", V: ref.Str{B: []byte("/AcroForm << /Fields [] >>")}}})})
	}
	m.b = f.emit()
	return m
}

func sameFloats(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if d := a[i] - b[i]; d > 1e-6 || d < -1e-6 {
			return false
		}
	}
	return true
}

// wantType is the response type a field's type and flags stand for.
func wantType(ft string, ff int) types.ResponseType {
	switch ft {
	case "Tx":
		if ff&ffMulti != 0 {
			return types.ResponseTypeTextarea
		}
		return types.ResponseTypeText
	case "Btn":
		if ff&ffPush != 0 {
			return types.ResponseTypeButton
		}
		if ff&ffRadio != 0 {
			return types.ResponseTypeRadio
		}
		return types.ResponseTypeCheckbox
	case "Ch":
		return types.ResponseTypeSelect
	case "Sig":
		return types.ResponseTypeSignature
	}
	return types.ResponseTypeUnknown
}

// check compares what the library reports about the form of a document with the model.
func (m *mform) check(af *acroform.AcroForm) error {
	var level func(want []*mfield, got []*acroform.Field, parent *acroform.Field, path string) error
	level = func(want []*mfield, got []*acroform.Field, parent *acroform.Field, path string) error {
		if len(want) != len(got) {
			var names []string
			for _, g := range got {
				names = append(names, g.T)
			}
			return fmt.Errorf("%s: %d fields %q, want %d", path, len(got), names, len(want))
		}
		for i, w := range want {
			g := got[i]
			at := fmt.Sprintf("%s[%d] %q", path, i, w.t)
			if g.ObjectNum != w.ref.N || g.Parent != parent {
				return fmt.Errorf("%s: object %d, want %d (or wrong parent)", at, g.ObjectNum, w.ref.N)
			}
			for _, e := range []struct {
				k    string
				g, w interface{}
			}{
				{"T", g.T, w.t}, {"full name", g.GetFullName(), w.name()}, {"TU", g.TU, w.tu}, {"TM", g.TM, w.tm},
				{"FT", g.FT, w.ft}, {"Ff", g.Ff, w.ff}, {"Q", g.Q, w.q}, {"MaxLen", g.MaxLen, w.maxLen},
				{"DA", g.DA, w.da}, {"TI", g.TI, w.ti},
			} {
				if e.g != e.w {
					return fmt.Errorf("%s: %s is %#v, want %#v", at, e.k, e.g, e.w)
				}
			}
			if w.ft != "Sig" {
				if !sameValue(g.V, w.value()) {
					return fmt.Errorf("%s: value %#v, want %#v", at, g.V, w.value())
				}
				if !sameValue(g.DV, w.defValue()) {
					return fmt.Errorf("%s: default %#v, want %#v", at, g.DV, w.defValue())
				}
			}
			if len(w.opt) != len(g.Opt) || len(w.opt) > 0 && !reflect.DeepEqual(w.opt, g.Opt) {
				return fmt.Errorf("%s: options %#v, want %#v", at, g.Opt, w.opt)
			}
			if len(w.i) != len(g.I) || len(w.i) > 0 && !reflect.DeepEqual(w.i, g.I) {
				return fmt.Errorf("%s: selected %v, want %v", at, g.I, w.i)
			}
			if len(w.widgets) > 0 {
				if !sameFloats(g.Rect, w.widgets[0].rect) || g.Page != w.widgets[0].page {
					return fmt.Errorf("%s: at %v on page %d, want %v on page %d", at, g.Rect, g.Page, w.widgets[0].rect, w.widgets[0].page)
				}
			} else if len(g.Rect) != 0 {
				return fmt.Errorf("%s: at %v, but it has no widget", at, g.Rect)
			}
			if err := level(w.kids, g.Kids, g, at); err != nil {
				return err
			}
		}
		return nil
	}
	if err := level(m.roots, af.Fields, nil, "fields"); err != nil {
		return err
	}
	if af.NeedAppearances != m.needApp || af.XFA != m.xfa {
		return fmt.Errorf("NeedAppearances %v, XFA %v; want %v, %v", af.NeedAppearances, af.XFA, m.needApp, m.xfa)
	}
	sigs, values := map[int]bool{}, map[string]interface{}{}
	for _, w := range m.terminals() {
		if w.ft == "Sig" {
			sigs[w.ref.N] = true
		} else if v := w.value(); v != nil {
			values[w.name()] = v
		}
	}
	seen := map[int]bool{}
	for _, n := range af.SignatureFields {
		if !sigs[n] || seen[n] {
			// a group of signature fields may be listed too
			ok := false
			for _, w := range m.all() {
				ok = ok || w.ref.N == n && w.ft == "Sig" && !seen[n]
			}
			if !ok {
				return fmt.Errorf("signature fields %v", af.SignatureFields)
			}
		}
		seen[n] = true
		delete(sigs, n)
	}
	if len(sigs) > 0 {
		return fmt.Errorf("signature fields %v: missing %v", af.SignatureFields, sigs)
	}
	got := af.GetFieldValues()
	if len(got) != len(values) {
		return fmt.Errorf("%d values %v, want %v", len(got), got, values)
	}
	for k, v := range values {
		if !sameValue(got[k], v) {
			return fmt.Errorf("value of %q is %#v, want %#v", k, got[k], v)
		}
	}
	for _, w := range m.all() {
		g := af.FindFieldByName(w.name())
		if g == nil || g.ObjectNum != w.ref.N {
			return fmt.Errorf("finding %q gives %+v, want object %d", w.name(), g, w.ref.N)
		}
	}
	if g := af.FindFieldByName("no such.field"); g != nil {
		return fmt.Errorf("finding an absent name gives %q", g.GetFullName())
	}
	return m.checkSchema(af.ToFormSchema())
}

func (m *mform) checkSchema(s *types.FormSchema) error {
	ts := m.terminals()
	if s == nil || len(s.Questions) != len(ts) {
		return fmt.Errorf("schema %+v, want %d questions", s, len(ts))
	}
	if s.Metadata.TotalPages != m.pages {
		return fmt.Errorf("schema has %d pages, want %d", s.Metadata.TotalPages, m.pages)
	}
	ids := map[string]bool{}
	for i, w := range ts {
		q := s.Questions[i]
		at := fmt.Sprintf("question %d %q", i, w.name())
		if ids[q.ID] {
			return fmt.Errorf("%s: id %q twice", at, q.ID)
		}
		ids[q.ID] = true
		for _, e := range []struct {
			k    string
			g, w interface{}
		}{
			{"name", q.Name, w.name()}, {"label", q.Label, w.tu}, {"type", q.Type, wantType(w.ft, w.ff)},
			{"required", q.Required, w.ff&ffRequired != 0}, {"read-only", q.ReadOnly, w.ff&ffReadOnly != 0},
		} {
			if e.g != e.w {
				return fmt.Errorf("%s: %s is %#v, want %#v", at, e.k, e.g, e.w)
			}
		}
		if w.ft != "Sig" && !sameValue(q.Default, w.defValue()) {
			return fmt.Errorf("%s: default %#v, want %#v", at, q.Default, w.defValue())
		}
		maxLen := 0
		if q.Validation != nil && q.Validation.MaxLength != nil {
			maxLen = *q.Validation.MaxLength
		}
		if maxLen != w.maxLen {
			return fmt.Errorf("%s: maximum length %d, want %d", at, maxLen, w.maxLen)
		}
		if len(q.Options) != len(w.opt) {
			return fmt.Errorf("%s: options %+v, want %v", at, q.Options, w.opt)
		}
		vals, ok := w.value().([]interface{})
		if !ok {
			vals = []interface{}{w.value()}
		}
		for j, o := range w.opt {
			sel := false
			for _, v := range vals {
				sel = sel || v == optValue(o)
			}
			if g := q.Options[j]; g.Value != optValue(o) || g.Label != optLabel(o) || g.Selected != sel {
				return fmt.Errorf("%s: option %d is %+v, want %v selected %v", at, j, g, o, sel)
			}
		}
		if len(w.widgets) > 0 {
			r := w.widgets[0].rect
			if g, _ := q.Properties["rect"].([]float64); !sameFloats(g, r) {
				return fmt.Errorf("%s: rect %v, want %v", at, q.Properties["rect"], r)
			}
			if q.PageNumber != w.widgets[0].page+1 {
				return fmt.Errorf("%s: page %d, want %d", at, q.PageNumber, w.widgets[0].page+1)
			}
		}
	}
	return nil
}

// sameValue compares field values.
func sameValue(a, b interface{}) bool {
	if la, ok := a.([]interface{}); ok {
		lb, ok := b.([]interface{})
		return ok && len(la) == len(lb) && (len(la) == 0 || reflect.DeepEqual(la, lb))
	}
	return a == b || reflect.DeepEqual(a, b)
}

// report runs every way to read the form of a document against the model.
func (m *mform) report(b, pw []byte) error {
	af, err := acroform.ExtractAcroForm(b, pw, false)
	if err != nil {
		return fmt.Errorf("ExtractAcroForm: %v", err)
	}
	if err := m.check(af); err != nil {
		return fmt.Errorf("ExtractAcroForm: %v", err)
	}
	pdf, err := parse.OpenWithOptions(b, parse.ParseOptions{Password: pw})
	if err != nil {
		return fmt.Errorf("open: %v", err)
	}
	af, err = acroform.ParseAcroForm(b, pdf.Encryption(), false)
	if err != nil {
		return fmt.Errorf("ParseAcroForm: %v", err)
	}
	if err := m.check(af); err != nil {
		return fmt.Errorf("ParseAcroForm: %v", err)
	}
	s, err := acroform.ExtractFormSchema(b, pw, false)
	if err != nil {
		return fmt.Errorf("ExtractFormSchema: %v", err)
	}
	if err := m.checkSchema(s); err != nil {
		return fmt.Errorf("ExtractFormSchema: %v", err)
	}
	if k, err := forms.Detect(b, pw, false); err != nil || k != forms.FormTypeAcroForm {
		return fmt.Errorf("Detect: %v, %v", k, err)
	}
	form, err := forms.Extract(b, pw, false)
	if err != nil || form.Type() != forms.FormTypeAcroForm {
		return fmt.Errorf("Extract: %v", err)
	}
	if err := m.checkSchema(form.Schema()); err != nil {
		return fmt.Errorf("Extract: %v", err)
	}
	if g, w := form.GetValues(), af.GetFieldValues(); !reflect.DeepEqual(g, w) {
		return fmt.Errorf("GetValues %v, want %v", g, w)
	}
	return nil
}

func (m *mform) key() string {
	var sb strings.Builder
	for _, f := range m.all() {
		fmt.Fprintf(&sb, "%q %s %d %v %v %v %d;", f.name(), f.ft, f.ff, f.v, f.dv, f.opt, len(f.widgets))
	}
	return sb.String() + m.f.form
}

// bfield is a field made with the form builder.
type bfield struct {
	kind, name string
	rect       []float64
	page, ff   int
	v, dv      interface{}
	wv, wdv    interface{}
	opt        []string
	maxLen     int
}

// builtValue draws a value for a built field: as given and as it is to read back.
func builtValue(c *hx.C, kind string, opt []string) (interface{}, interface{}) {
	switch kind {
	case "check", "radio", "button":
		if flip(c, "boolval") {
			if flip(c, "on") {
				return true, "Yes"
			}
			return false, "Off"
		}
		s := pick(c, "bstate", append([]string{"Off"}, stateNames...)...)
		return s, s
	case "choice":
		one := func() string {
			if len(opt) > 0 && flip(c, "isopt") {
				return opt[num(c, "whichopt", 0, len(opt)-1)]
			}
			return genText(c, "chval")
		}
		switch num(c, "chform", 0, 3) {
		case 0:
			l, w := []string{}, []interface{}{}
			for i, n := 0, num(c, "nch", 0, 3); i < n; i++ {
				s := one()
				l, w = append(l, s), append(w, s)
			}
			return l, w
		case 1:
			l := []interface{}{}
			for i, n := 0, num(c, "nch", 0, 3); i < n; i++ {
				l = append(l, one())
			}
			return l, l
		}
		s := one()
		return s, s
	}
	switch num(c, "txform", 0, 5) {
	case 0:
		n := num(c, "txint", -5, 100000)
		return n, fmt.Sprint(n)
	case 1:
		return 2.5, "2.5"
	case 2:
		return "", ""
	}
	s := genText(c, "txval")
	return s, s
}

func builderForm(c *hx.C) {
	sb := write.NewSimplePDFBuilder()
	np := count(c, "pages", 1, 4, 30)
	before := num(c, "pagesbefore", 0, np)
	addPage := func(i int) {
		p := sb.AddPage(write.PageSizeLetter)
		if flip(c, "text") {
			f := p.AddStandardFont("Helvetica")
			p.Content().BeginText().SetFont(f, 12).ShowText(fmt.Sprint("page ", i)).EndText()
		}
		sb.FinalizePage(p)
	}
	for i := 0; i < before; i++ {
		addPage(i)
	}
	fb := acroform.NewFormBuilder(sb)
	var want []bfield
	names := map[string]bool{}
	for i, n := 0, count(c, "fields", 1, 6, 60); i < n; i++ {
		x := bfield{kind: pick(c, "kind", "text", "check", "radio", "choice", "button"), name: genText(c, "name"), page: spread(c, "page", np)}
		x.name = strings.ReplaceAll(x.name, ".", "")
		if names[x.name] {
			x.name = fmt.Sprintf("%s%d", x.name, i)
		}
		names[x.name] = true
		for j := 0; j < 4; j++ {
			v := float64(num(c, "coord", -20, 800))
			if oneIn(c, "frac", 3) {
				v += pick(c, "fracv", 0.5, 0.125, 1.0/3, 0.001)
			}
			x.rect = append(x.rect, v)
		}
		x.rect[2], x.rect[3] = x.rect[0]+1+float64(num(c, "w", 0, 300)), x.rect[1]+1+float64(num(c, "h", 0, 300))
		var d *acroform.FieldDef
		switch x.kind {
		case "text":
			d = fb.AddTextField(x.name, held(c, x.rect), x.page)
			if flip(c, "hasmax") {
				x.maxLen = num(c, "max", 1, 500)
				d.SetMaxLength(x.maxLen)
			}
		case "check":
			d = fb.AddCheckbox(x.name, held(c, x.rect), x.page)
		case "radio":
			d = fb.AddRadioButton(x.name, held(c, x.rect), x.page)
			x.ff = ffRadio
		case "choice":
			for j, m := 0, num(c, "nopt", 0, 4); j < m; j++ {
				x.opt = append(x.opt, genText(c, "opt"))
			}
			d = fb.AddChoiceField(x.name, held(c, x.rect), x.page, held(c, x.opt))
			if flip(c, "chflags") {
				x.ff = fieldFlags(c, "Ch")
				d.Flags = x.ff
			}
		case "button":
			d = fb.AddButton(x.name, x.rect, x.page)
			x.ff = ffPush
		}
		if flip(c, "req") {
			on := !oneIn(c, "reqoff", 3)
			if d.SetRequired(on); on {
				x.ff |= ffRequired
			} else {
				x.ff &^= ffRequired
			}
		}
		if flip(c, "ro") {
			on := !oneIn(c, "rooff", 3)
			if d.SetReadOnly(on); on {
				x.ff |= ffReadOnly
			} else {
				x.ff &^= ffReadOnly
			}
		}
		if flip(c, "hasv") {
			x.v, x.wv = builtValue(c, x.kind, x.opt)
			d.SetValue(x.v)
		}
		if flip(c, "hasdv") {
			x.dv, x.wdv = builtValue(c, x.kind, x.opt)
			d.SetDefault(x.dv)
		}
		want = append(want, x)
	}
	late := flip(c, "formlast")
	if late {
		for i := before; i < np; i++ {
			addPage(i)
		}
	}
	if _, err := fb.BuildForm(); err != nil {
		c.Fail("BuildForm: %v", err)
	}
	if !late {
		for i := before; i < np; i++ {
			addPage(i)
		}
	}
	b, err := sb.Bytes()
	if err != nil {
		c.Fail("Bytes: %v", err)
	}
	c.Emits("built.pdf", b, sb.Bytes)
	c.NT(fmt.Sprint(want))
	c.ClassIf(np > 1, "several pages")
	c.ClassIf(before < np, "pages after the fields")
	d := strictDoc(c, b, nil, nil)
	ps, err := d.Pages()
	if err != nil || len(ps) != np {
		c.Fail("%d pages, want %d (%v)", len(ps), np, err)
	}
	form, err := forms.Extract(b, nil, false)
	if err != nil {
		c.Fail("Extract: %v", err)
	}
	af, err := acroform.ExtractAcroForm(b, nil, false)
	if err != nil {
		c.Fail("ExtractAcroForm: %v", err)
	}
	qs := form.Schema().Questions
	if len(af.Fields) != len(want) || len(qs) != len(want) {
		c.Fail("%d fields and %d questions, want %d", len(af.Fields), len(qs), len(want))
	}
	vals := form.GetValues()
	nv := 0
	for i, x := range want {
		g, q := af.Fields[i], qs[i]
		ft := map[string]string{"text": "Tx", "choice": "Ch"}[x.kind]
		if ft == "" {
			ft = "Btn"
		}
		if g.T != x.name || g.GetFullName() != x.name || g.FT != ft || g.Ff != x.ff || g.MaxLen != x.maxLen || g.Page != x.page || !sameFloats(g.Rect, x.rect) {
			c.Fail("field %d is %+v, want %+v", i, *g, x)
		}
		if !sameValue(g.V, x.wv) || !sameValue(g.DV, x.wdv) {
			c.Fail("field %d %q: value %#v, default %#v; want %#v, %#v", i, x.name, g.V, g.DV, x.wv, x.wdv)
		}
		if len(g.Opt) != len(x.opt) || len(q.Options) != len(x.opt) {
			c.Fail("field %d %q: options %v, want %v", i, x.name, g.Opt, x.opt)
		}
		for j, o := range x.opt {
			if g.Opt[j] != o || q.Options[j].Value != o || q.Options[j].Label != o {
				c.Fail("field %d %q: option %d is %v / %+v, want %q", i, x.name, j, g.Opt[j], q.Options[j], o)
			}
		}
		if q.Name != x.name || q.Type != wantType(ft, x.ff) || q.Required != (x.ff&ffRequired != 0) || q.ReadOnly != (x.ff&ffReadOnly != 0) || q.PageNumber != x.page+1 || !sameValue(q.Default, x.wdv) {
			c.Fail("question %d is %+v, want %+v", i, q, x)
		}
		if x.wv != nil {
			nv++
		}
		if x.wv != nil && !sameValue(vals[x.name], x.wv) {
			c.Fail("value of %q is %#v, want %#v", x.name, vals[x.name], x.wv)
		}
		// the independent reader sees the field on its page
		fd, err := d.Dict(ref.Ref{N: g.ObjectNum})
		if err != nil {
			c.Fail("field %d: %v", i, err)
		}
		if s, err := textOf(fd.Get("T")); err != nil || s != x.name {
			c.Fail("field %d: /T %v, want %q", i, fd.Get("T"), x.name)
		}
		if fd.Get("Subtype") != ref.Obj(ref.Name("Widget")) || fd.Get("FT") != ref.Obj(ref.Name(ft)) {
			c.Fail("field %d: %s", i, ref.Canon(fd))
		}
		annots, _ := d.Resolve(ps[x.page].D.Get("Annots"))
		n := 0
		arr, _ := annots.(ref.Arr)
		for _, a := range arr {
			if r, ok := a.(ref.Ref); ok && r.N == g.ObjectNum {
				n++
			}
		}
		if n != 1 {
			c.Fail("field %d %q (object %d) is listed %d times in the annotations %v of page %d", i, x.name, g.ObjectNum, n, annots, x.page)
		}
	}
	if len(vals) != nv {
		c.Fail("%d values %v, want %d", len(vals), vals, nv)
	}
	cat, err := d.Catalog()
	if err != nil {
		c.Fail("catalog: %v", err)
	}
	fdict, err := d.Dict(cat.Get("AcroForm"))
	if err != nil {
		c.Fail("AcroForm: %v", err)
	}
	if a, _ := fdict.Get("Fields").(ref.Arr); len(a) != len(want) {
		c.Fail("/Fields %v", fdict.Get("Fields"))
	}
}

func init() {
	hx.Reg("C16", "documents", 3000, "A document with a form of 1 to 9 fields, flat or nested, each its own widget, with several widgets or none, attributes at the field or inherited, names, labels, values and options in PDFDocEncoding, UTF-16 or UTF-8, direct or indirect, in object streams, encrypted, with entries listed twice and cycles; every way to read the form is compared with the model. Non-trivial: at least 2 fields.", func(c *hx.C) {
		m := genForm(c, "doc", false)
		c.Dump("form.pdf", m.b)
		if len(m.all()) > 1 {
			c.NT(m.key())
		}
		c.ClassIf(m.nested, "nested")
		c.ClassIf(m.pw != nil, "encrypted")
		c.ClassIf(strings.Contains(m.f.form, "stream"), "cross-reference stream")
		for _, f := range m.terminals() {
			c.Class(f.ft)
			c.ClassIf(len(f.widgets) > 1, "several widgets")
			c.ClassIf(f.v == nil && f.value() != nil, "inherited value")
		}
		if err := m.report(m.b, m.pw); err != nil {
			c.Fail("%v", err)
		}
	})
	hx.Reg("C16", "builder", 2000, "1 to 6 fields made with the form builder on 1 to 4 pages, added before, after or between the pages, with any properties; read back by the library and by the independent reader. Non-trivial: every case.", builderForm)
	hx.Reg("C16", "no-form", 300, "Documents without a form are reported as such. Non-trivial: every case.", func(c *hx.C) {
		f := newFD(c)
		root, _ := f.pageTree(1, func(int) (ref.Dict, ref.Dict) { return nil, ref.Dict{{K: "MediaBox", V: ref.Arr{0, 0, 9, 9}}} })
		trap := ref.Dict{{K: "AcroForm", V: ref.Dict{{K: "Fields", V: ref.Arr{root}}}}}
		cat := ref.Dict{{K: "Type", V: ref.Name("Catalog")}, {K: "Pages", V: root}}
		switch num(c, "trap", 0, 3) {
		case 0:
			cat = append(cat, ref.KV{K: "PieceInfo", V: trap})
		case 1:
			f.add(append(trap, ref.KV{K: "Type", V: ref.Name("Catalog")}))
		case 2:
			f.stream(nil, []byte("/AcroForm 1 0 R << /AcroForm << /Fields [1 0 R] >> >>"))
		}
		if flip(c, "null") {
			cat = append(cat, ref.KV{K: "AcroForm", V: ref.Null{}})
		}
		f.trailer = ref.Dict{{K: "Root", V: f.add(cat)}}
		b := f.emit()
		c.Dump("noform.pdf", b)
		c.NT(string(b))
		if af, err := acroform.ExtractAcroForm(b, nil, false); err == nil {
			c.Fail("ExtractAcroForm gives %d fields", len(af.Fields))
		}
		if k, err := forms.Detect(b, nil, false); err == nil {
			c.Fail("Detect gives %v", k)
		}
		if _, err := forms.Extract(b, nil, false); err == nil {
			c.Fail("Extract gives a form")
		}
	})
}

func sortedNames(m map[string]*mfield) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
