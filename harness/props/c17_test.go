package props

import (
	"bytes"
	"fmt"
	"sort"

	"verif/harness/hx"
	"verif/harness/ref"

	"github.com/benedoc-inc/pdfer/core/parse"
	"github.com/benedoc-inc/pdfer/core/write"
	"github.com/benedoc-inc/pdfer/forms"
	"github.com/benedoc-inc/pdfer/forms/acroform"
	"github.com/benedoc-inc/pdfer/types"
)

// fillValue draws a value to fill a field with, and what the field is to read as afterwards
// (nil: as if it had no value of its own).
func fillValue(c *hx.C, x *mfield) (interface{}, interface{}) {
	if oneIn(c, "nilval", 12) {
		return nil, nil
	}
	text := func(label string) string {
		switch num(c, label+"kind", 0, 5) {
		case 0:
			return string(nastyBytes(c, label+"nasty", 4))
		case 1:
			s := genText(c, label)
			for len(s) < 3000 {
				s += s
			}
			return s
		case 2:
			var rs []rune
			for i, n := 0, num(c, label+"n", 1, 12); i < n; i++ {
				r := rune(num(c, label+"r", 1, 0x10ffff))
				if r >= 0xd800 && r < 0xe000 {
					r -= 0x800
				}
				rs = append(rs, r)
			}
			return string(rs)
		}
		return genText(c, label)
	}
	switch x.ft {
	case "Btn":
		var states []string
		for _, w := range x.widgets {
			states = append(states, w.states...)
		}
		switch num(c, "btnval", 0, 3) {
		case 0:
			return false, "Off"
		case 1:
			for _, s := range states {
				if s != "Off" {
					return true, s
				}
			}
			return true, "Yes"
		case 2:
			if len(states) > 0 {
				s := states[num(c, "whichstate", 0, len(states)-1)]
				return s, s
			}
		}
		s := pick(c, "newstate", append([]string{"Off"}, stateNames...)...)
		return s, s
	case "Ch":
		one := func() string {
			if len(x.opt) > 0 && !oneIn(c, "notopt", 3) {
				return optValue(x.opt[num(c, "whichopt", 0, len(x.opt)-1)])
			}
			return text("chtext")
		}
		switch num(c, "chform", 0, 3) {
		case 0:
			l, w := []string{}, []interface{}{}
			for i, n := 0, num(c, "nch", 0, 3); i < n; i++ {
				s := one()
				l, w = append(l, s), append(w, s)
			}
			return l, w
		case 1:
			l := []interface{}{}
			for i, n := 0, num(c, "nch", 0, 3); i < n; i++ {
				l = append(l, one())
			}
			return l, l
		}
		s := one()
		return s, s
	}
	switch num(c, "txval", 0, 7) {
	case 0:
		n := num(c, "txint", -100000, 1<<40)
		return n, fmt.Sprint(n)
	case 1:
		f := pick(c, "txfloat", 2.5, -0.125, 1e21, 123456789.25)
		return f, map[float64]string{2.5: "2.5", -0.125: "-0.125", 1e21: "1000000000000000000000", 123456789.25: "123456789.25"}[f]
	case 2:
		if flip(c, "txbool") {
			return true, "true"
		}
		return false, "false"
	case 3:
		return "", ""
	}
	s := text("tx")
	return s, s
}

// sameElse checks that a document equals another but for the objects whose differences may says
// are allowed (given both values).
func sameElse(before, after *ref.Doc, changed map[int]func(was, is ref.Obj) error) error {
	skip := func(o ref.Obj) bool {
		st, ok := o.(*ref.Stream)
		return ok && (st.D.Get("Type") == ref.Obj(ref.Name("ObjStm")) || st.D.Get("Type") == ref.Obj(ref.Name("XRef")))
	}
	use, now := before.InUse(), after.InUse()
	for _, n := range sortedKeys(use) {
		was, err := before.Get(n)
		if err != nil {
			return fmt.Errorf("source object %d: %v", n, err)
		}
		if skip(was) {
			continue
		}
		if !now[n] {
			return fmt.Errorf("object %d is gone", n)
		}
		is, err := after.Get(n)
		if err != nil {
			return fmt.Errorf("object %d: %v", n, err)
		}
		if f := changed[n]; f != nil {
			if err := f(was, is); err != nil {
				return fmt.Errorf("object %d: %v", n, err)
			}
			continue
		}
		if err := sameWhole(was, is); err != nil {
			return fmt.Errorf("object %d changed: %v", n, err)
		}
	}
	for _, n := range sortedKeys(now) {
		if use[n] {
			continue
		}
		o, err := after.Get(n)
		if err != nil {
			return fmt.Errorf("new object %d: %v", n, err)
		}
		if !skip(o) {
			return fmt.Errorf("new object %d: %s", n, ref.Canon(o))
		}
	}
	for _, k := range []string{"Root", "Info", "Encrypt"} {
		if a, b := canonOrNone(before.Trailer.Get(k)), canonOrNone(after.Trailer.Get(k)); a != b {
			return fmt.Errorf("trailer /%s is %s, was %s", k, b, a)
		}
	}
	if after.Version < before.Version {
		return fmt.Errorf("version %v, was %v", after.Version, before.Version)
	}
	return nil
}

// dictLess compares dictionaries but for some entries.
func dictLess(was, is ref.Obj, keys ...string) error {
	a, ok := was.(ref.Dict)
	b, ok2 := is.(ref.Dict)
	if !ok || !ok2 {
		return fmt.Errorf("%s, was %s", ref.Canon(is), ref.Canon(was))
	}
	for _, k := range keys {
		a, b = a.Without(k), b.Without(k)
	}
	if x, y := ref.Canon(a), ref.Canon(b); x != y {
		return fmt.Errorf("%s, was %s", y, x)
	}
	return nil
}

// fillOnce fills the form of a document with some values in some way and moves the model on.
func (m *mform) fillOnce(c *hx.C) {
	byName := map[string]*mfield{}
	for _, x := range m.terminals() {
		if x.ft != "Sig" && x.ft != "" {
			byName[x.name()] = x
		}
	}
	names := sortedNames(byName)
	data := types.FormData{}
	want := map[string]interface{}{}
	for _, n := range names {
		if flip(c, "fillit") {
			data[n], want[n] = fillValue(c, byName[n])
		}
	}
	c.ClassIf(len(data) == 0, "no values")
	c.Class(fmt.Sprintf("%d values", min(len(data), 4)))
	before := strictDoc(c, m.b, m.pw, nil)
	var out []byte
	var err error
	how := pick(c, "how", "FillForm", "FillFormFields", "FillFormFieldsWithStreams", "Form.Fill", "ExtractAndFill", "FillFormFromSchema", "FillFieldValue")
	if how != "FillFieldValue" {
		// names of no field that can have a value change nothing
		for _, x := range m.terminals() {
			if p := x.parent; p != nil && byName[p.name()] == nil && oneIn(c, "parent", 4) {
				data[p.name()] = "of a group"
				c.Class("value for a group")
			}
		}
		if oneIn(c, "nosuch", 5) {
			data["no such field"] = "x"
		}
	}
	c.Keep("data", data)
	switch how {
	case "FillForm":
		out, err = acroform.FillForm(m.b, data, m.pw, false)
	case "FillFormFields":
		out, err = acroform.FillFormFields(m.b, data, m.pw, false)
	case "FillFormFieldsWithStreams":
		out, err = acroform.FillFormFieldsWithStreams(m.b, data, m.pw, false)
	case "Form.Fill":
		form, e := forms.Extract(m.b, m.pw, false)
		if e != nil {
			c.Fail("Extract: %v", e)
		}
		out, err = form.Fill(m.b, data, m.pw, false)
	case "ExtractAndFill":
		out, err = acroform.ExtractAndFill(m.b, data, m.pw, false)
	case "FillFormFromSchema":
		s, e := acroform.ExtractFormSchema(m.b, m.pw, false)
		if e != nil {
			c.Fail("ExtractFormSchema: %v", e)
		}
		out, err = acroform.FillFormFromSchema(m.b, s, data, m.pw, false)
	case "FillFieldValue":
		out = m.b
		var keys []string
		for n := range data {
			keys = append(keys, n)
		}
		sort.Strings(keys)
		for _, n := range keys {
			pdf, e := parse.OpenWithOptions(out, parse.ParseOptions{Password: m.pw})
			if e != nil {
				c.Fail("after filling: %v", e)
			}
			af, e := acroform.ParseAcroForm(out, pdf.Encryption(), false)
			if e != nil {
				c.Fail("ParseAcroForm after filling: %v", e)
			}
			if out, err = acroform.FillFieldValue(out, af.FindFieldByName(n), data[n], pdf.Encryption(), false); err != nil {
				break
			}
		}
	}
	if err != nil {
		c.Fail("%s(%v): %v", how, data, err)
	}
	c.Dump("filled.pdf", out)
	after, err := strictErr(out, m.pw, nil)
	if err != nil {
		c.Fail("%s(%#v): the result is not valid: %v", how, data, err)
	}
	changed := map[int]func(was, is ref.Obj) error{}
	for n, v := range want {
		x := byName[n]
		x.v = v
		x.i = nil
		for _, w := range x.widgets {
			w := w
			changed[w.ref.N] = func(was, is ref.Obj) error {
				if x.ft != "Btn" || x.ff&ffPush != 0 {
					return sameWhole(was, is)
				}
				if err := dictLess(was, is, "AS"); err != nil {
					return err
				}
				return w.checkState(is.(ref.Dict), v)
			}
		}
		changed[x.ref.N] = func(was, is ref.Obj) error {
			keys := []string{"V"}
			if x.ft == "Ch" {
				keys = append(keys, "I")
			}
			if x.ft == "Btn" {
				keys = append(keys, "AS")
			}
			if err := dictLess(was, is, keys...); err != nil {
				return err
			}
			for _, w := range x.widgets {
				if w.ref == x.ref && x.ft == "Btn" && x.ff&ffPush == 0 {
					if err := w.checkState(is.(ref.Dict), v); err != nil {
						return err
					}
				}
			}
			// the independent reader agrees on the value
			return sameStored(after, is.(ref.Dict).Get("V"), v)
		}
	}
	if err := sameElse(before, after, changed); err != nil {
		c.Fail("%s(%#v): %v", how, data, err)
	}
	if err := m.report(out, m.pw); err != nil {
		c.Fail("after %s(%#v): %v", how, data, err)
	}
	m.b = out
}

// checkState checks the appearance a button widget is set to against the field's value.
func (w *mwidget) checkState(d ref.Dict, v interface{}) error {
	as, ok := d.Get("AS").(ref.Name)
	if !ok || v == nil {
		return nil
	}
	want := "Off"
	for _, s := range w.states {
		if s == v {
			want = s
		}
	}
	if string(as) != want {
		return fmt.Errorf("shows state %q for the value %q (it has %q)", string(as), v, w.states)
	}
	return nil
}

// sameStored compares a stored value with what it is to be.
func sameStored(d *ref.Doc, o ref.Obj, want interface{}) error {
	o, err := d.Resolve(o)
	if err != nil {
		return err
	}
	switch w := want.(type) {
	case nil:
		if _, null := o.(ref.Null); o != nil && !null {
			return fmt.Errorf("/V is %s, want none", ref.Canon(o))
		}
	case []interface{}:
		a, ok := o.(ref.Arr)
		if !ok || len(a) != len(w) {
			return fmt.Errorf("/V is %s, want %q", ref.Canon(o), w)
		}
		for i := range a {
			if err := sameStored(d, a[i], w[i]); err != nil {
				return err
			}
		}
	case string:
		if n, ok := o.(ref.Name); ok && string(n) == w {
			return nil
		}
		if s, err := textOf(o); err != nil || s != w {
			return fmt.Errorf("/V is %s, want %q (%v)", ref.Canon(o), w, err)
		}
	}
	return nil
}

func init() {
	hx.Reg("C17", "fill", 1600, "A document with a form (as for C16) filled 1 to 3 times, each time in one of seven ways with values for any of its fields: any characters, long, empty, numbers, lists, states of buttons, none at all. After each fill the result is read strictly; every object but the filled fields is as before, the filled fields differ in their value only, and all fields are reported as the model has them. Non-trivial: at least one value is filled.", func(c *hx.C) {
		m := genForm(c, "doc", false)
		c.Dump("form.pdf", m.b)
		key := m.key()
		for i, n := 0, count(c, "fills", 1, 3, 10); i < n; i++ {
			m.fillOnce(c)
		}
		if k := m.key(); k != key {
			c.NT(k)
		}
		c.ClassIf(m.pw != nil, "encrypted")
		c.ClassIf(m.nested, "nested")
		c.Class(m.f.form[:5])
	})
	hx.Reg("C17", "built", 1500, "Forms made with the form builder and filled 1 to 3 times. Non-trivial: every case.", func(c *hx.C) {
		sb := write.NewSimplePDFBuilder()
		for i, n := 0, count(c, "pages", 1, 3, 25); i < n; i++ {
			sb.FinalizePage(sb.AddPage(write.PageSizeLetter))
		}
		fb := acroform.NewFormBuilder(sb)
		m := &mform{f: newFD(c), pages: 1, needApp: true}
		byName := map[string]*mfield{}
		for i, n := 0, count(c, "fields", 1, 5, 60); i < n; i++ {
			x := &mfield{t: fmt.Sprintf("%s%d", pick(c, "name", "a", "Field ", "é(", "x\\", "日本"), i), ft: pick(c, "ft", "Tx", "Btn", "Ch")}
			r := []float64{1, 2, 30, 40}
			switch x.ft {
			case "Tx":
				fb.AddTextField(x.t, r, 0)
			case "Btn":
				fb.AddCheckbox(x.t, r, 0)
			case "Ch":
				fb.AddChoiceField(x.t, r, 0, []string{"a", "b)"})
				x.opt = []interface{}{"a", "b)"}
			}
			byName[x.t] = x
			m.roots = append(m.roots, x)
		}
		if _, err := fb.BuildForm(); err != nil {
			c.Fail("BuildForm: %v", err)
		}
		b, err := sb.Bytes()
		if err != nil {
			c.Fail("Bytes: %v", err)
		}
		c.Emits("form.pdf", b, sb.Bytes)
		want := map[string]interface{}{}
		for i, n := 0, count(c, "fills", 1, 3, 10); i < n; i++ {
			data := types.FormData{}
			for _, k := range sortedNames(byName) {
				if flip(c, "fillit") {
					v, w := fillValue(c, byName[k])
					data[k] = v
					if delete(want, k); w != nil {
						want[k] = w
					}
				}
			}
			c.Keep("data", data)
			if b, err = acroform.FillForm(b, data, nil, false); err != nil {
				c.Fail("FillForm(%#v): %v", data, err)
			}
			c.Dump("filled.pdf", b)
			strictDoc(c, b, nil, nil)
			af, err := acroform.ExtractAcroForm(b, nil, false)
			if err != nil {
				c.Fail("ExtractAcroForm: %v", err)
			}
			got := af.GetFieldValues()
			if len(got) != len(want) {
				c.Fail("values %#v, want %#v", got, want)
			}
			for k, w := range want {
				if !sameValue(got[k], w) {
					c.Fail("value of %q is %#v, want %#v", k, got[k], w)
				}
			}
		}
		c.NT(fmt.Sprint(want))
	})
	hx.Reg("C17", "objects", 1000, "Documents of pages, annotations, fonts and images in which 1 to 3 objects are replaced through ReplaceFieldObject or RebuildObjectStream; the new values read back and every other object is as before. Non-trivial: every case.", func(c *hx.C) {
		f, b := genPageDoc(c, "doc", 3)
		c.Dump("source.pdf", b)
		pw := f.user
		if pw != nil && flip(c, "byowner") {
			pw = f.owner
		}
		for round, n := 0, count(c, "rounds", 1, 3, 12); round < n; round++ {
			before := strictDoc(c, b, pw, f.dangling(b, pw))
			pdf, err := parse.OpenWithOptions(b, parse.ParseOptions{Password: pw})
			if err != nil {
				c.Fail("open: %v", err)
			}
			var cand []int
			for _, k := range sortedKeys(before.InUse()) {
				o, err := before.Get(k)
				if err != nil {
					c.Fail("object %d: %v", k, err)
				}
				if _, ok := o.(*ref.Stream); !ok && k != before.CryptNo && !hasType(o, "Catalog", "Pages", "Page") {
					cand = append(cand, k)
				}
			}
			if len(cand) == 0 {
				break
			}
			news := map[int]ref.Obj{}
			fm := genFmt(c)
			for i, k := 0, num(c, "nrepl", 1, 3); i < k; i++ {
				news[cand[spread(c, "repl", len(cand))]] = genNoRefs(c, 3)
			}
			changed := map[int]func(was, is ref.Obj) error{}
			for k, o := range news {
				o := o
				changed[k] = func(_, is ref.Obj) error { return sameWhole(o, is) }
			}
			var out []byte
			if flip(c, "rebuild") {
				var ups []acroform.StreamObjectUpdate
				for _, k := range sortedKeys(news) {
					ups = append(ups, acroform.StreamObjectUpdate{ObjNum: k, NewContent: fm.Bytes(news[k])})
				}
				out, err = acroform.RebuildObjectStream(held(c, b), 0, held(c, ups), pdf.Encryption(), false)
			} else {
				out = b
				for _, k := range sortedKeys(news) {
					if out, err = acroform.ReplaceFieldObject(held(c, out), k, 0, held(c, fm.Bytes(news[k])), pdf.Encryption(), false); err != nil {
						break
					}
				}
			}
			if err != nil {
				c.Fail("replace %v: %v", sortedKeys(news), err)
			}
			c.Dump("replaced.pdf", out)
			after, err := strictErr(out, pw, f.dangling(b, pw))
			if err != nil {
				c.Fail("the result is not valid: %v", err)
			}
			if err := sameElse(before, after, changed); err != nil {
				c.Fail("%v", err)
			}
			got, err := parse.OpenWithOptions(out, parse.ParseOptions{Password: pw})
			if err != nil {
				c.Fail("the result does not open: %v", err)
			}
			for _, k := range sortedKeys(news) {
				o, err := libObj(got, k)
				if err == nil {
					err = sameWhole(news[k], o)
				}
				if err != nil {
					c.Fail("object %d: %v", k, err)
				}
			}
			if !bytes.Equal(b, out) {
				c.NT(string(out))
			}
			b = out
		}
		c.ClassIf(pw != nil, "encrypted")
	})
}

// dangling lists the references of a document that lead nowhere.
func (f *fd) dangling(b, pw []byte) map[int]bool {
	d, err := openRef(b, pw)
	if err != nil {
		return nil
	}
	m, _ := danglingRefs(d)
	return m
}

func hasType(o ref.Obj, names ...string) bool {
	d, ok := o.(ref.Dict)
	if !ok {
		return false
	}
	for _, n := range names {
		if d.Get("Type") == ref.Obj(ref.Name(n)) {
			return true
		}
	}
	return false
}
