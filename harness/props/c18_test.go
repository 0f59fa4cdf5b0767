package props

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"verif/harness/hx"

	"github.com/benedoc-inc/pdfer/forms"
	"github.com/benedoc-inc/pdfer/forms/acroform"
	"github.com/benedoc-inc/pdfer/types"
)

// C18: validation accepts exactly the values the field rules allow.

var runesOf = []rune{'a', 'Z', '7', ' ', 'é', '日', '😀', '\n', '.', '-', '€', '\u0301'}

// textOfLen draws a text of n characters.
func textOfLen(c *hx.C, n int) string {
	var sb strings.Builder
	one := flip(c, "onerune")
	r := runesOf[spread(c, "rune", len(runesOf))]
	for i := 0; i < n; i++ {
		if !one {
			r = runesOf[spread(c, "rune", len(runesOf))]
		}
		sb.WriteRune(r)
	}
	return sb.String()
}

// near draws a number at or beside a bound.
func nearBound(c *hx.C, bound int) int {
	n := bound + pick(c, "near", 0, 1, -1, 5, -5, 100)
	if n < 0 {
		return 0
	}
	return n
}

func emptyVal(v interface{}) bool {
	switch x := v.(type) {
	case nil:
		return true
	case string:
		return x == ""
	case []string:
		return len(x) == 0
	case []interface{}:
		return len(x) == 0
	}
	return false
}

func itemsOf(v interface{}) []string {
	switch x := v.(type) {
	case []string:
		return x
	case []interface{}:
		var out []string
		for _, e := range x {
			out = append(out, storedText(e))
		}
		return out
	}
	return []string{storedText(v)}
}

// storedText is the text of a value as filling stores it: a number in digits.
func storedText(v interface{}) string {
	if f, ok := v.(float64); ok {
		return strconv.FormatFloat(f, 'f', -1, 64)
	}
	return fmt.Sprint(v)
}

// genNumber draws a number whose digits are not what fmt prints for it, among others.
func genNumber(c *hx.C, label string) interface{} {
	return pick[interface{}](c, label, 7, 12345, -3, 2.5, int64(99), 1234567.0, 1e21, 1e20, 123456789.25, -1e6, 1e-5, 1e-9, 0.0, math.MaxFloat64, int64(1)<<40, true)
}

// fieldOK is the model of the rules of a form field.
func fieldOK(ft string, ff, maxLen int, opt []interface{}, v interface{}) bool {
	if emptyVal(v) {
		return ff&ffRequired == 0
	}
	in := func(s string) bool {
		for _, o := range opt {
			if s == optValue(o) || s == optLabel(o) {
				return true
			}
		}
		return false
	}
	switch ft {
	case "Tx":
		return maxLen <= 0 || utf8.RuneCountInString(storedText(v)) <= maxLen
	case "Btn":
		if ff&ffRadio == 0 || ff&ffPush != 0 || len(opt) == 0 || v == false || v == "Off" {
			return true
		}
		return in(storedText(v))
	case "Ch":
		if len(opt) == 0 {
			return true
		}
		items := itemsOf(v)
		if len(items) > 1 && ff&ffMultiSel == 0 {
			return false
		}
		if ff&ffCombo != 0 && ff&ffEdit != 0 {
			return true
		}
		for _, s := range items {
			if !in(s) {
				return false
			}
		}
	}
	return true
}

// valueFor draws a value for a field, often at the edge of its rules.
func valueFor(c *hx.C, ft string, maxLen int, opt []interface{}) interface{} {
	switch num(c, "empty", 0, 11) {
	case 0:
		return nil
	case 1:
		return ""
	case 2:
		if ft == "Ch" {
			if flip(c, "emptykind") {
				return []string{}
			}
			return []interface{}{}
		}
	}
	switch ft {
	case "Ch", "Btn":
		if ft == "Btn" && oneIn(c, "btnbool", 3) {
			if len(opt) > 0 {
				return false
			}
			return flip(c, "btnon")
		}
		one := func() string {
			if len(opt) == 0 {
				return genText(c, "freeval")
			}
			o := opt[num(c, "vopt", 0, len(opt)-1)]
			s := optValue(o)
			switch num(c, "vkind", 0, 7) {
			case 0:
				return optLabel(o)
			case 1:
				return s + " "
			case 2:
				return s[:len(s)-1]
			case 3:
				return strings.ToUpper(s)
			case 4:
				return genText(c, "otherval")
			}
			return s
		}
		if ft == "Ch" && oneIn(c, "multi", 3) {
			n := num(c, "nmulti", 1, 3)
			if flip(c, "strs") {
				l := []string{}
				for i := 0; i < n; i++ {
					l = append(l, one())
				}
				return l
			}
			l := []interface{}{}
			for i := 0; i < n; i++ {
				l = append(l, one())
			}
			return l
		}
		s := one()
		if ft == "Btn" && oneIn(c, "btnoff", 6) {
			s = "Off"
		}
		return s
	}
	if oneIn(c, "numval", 5) {
		return genNumber(c, "nv")
	}
	if maxLen > 0 {
		return textOfLen(c, nearBound(c, maxLen))
	}
	return textOfLen(c, num(c, "len", 1, 30))
}

// namesIn lists the fields the errors are about; each must be about one.
func namesIn(errs []error, unknown map[string]bool) ([]string, error) {
	var out []string
	for _, e := range errs {
		if e == nil {
			return nil, fmt.Errorf("nil among the errors")
		}
		var ve *acroform.ValidationError
		if errors.As(e, &ve) {
			out = append(out, ve.FieldName)
			continue
		}
		found := ""
		for n := range unknown {
			if strings.Contains(e.Error(), "'"+n+"'") || strings.Contains(e.Error(), n) && found == "" {
				found = n
			}
		}
		if found == "" {
			return nil, fmt.Errorf("error names no field: %v", e)
		}
		out = append(out, found)
	}
	sort.Strings(out)
	return out, nil
}

// sameOffenders compares reported fields with those that break a rule.
func sameOffenders(c *hx.C, what string, errs []error, want []string, unknown map[string]bool) {
	got, err := namesIn(errs, unknown)
	if err != nil {
		c.Fail("%s: %v", what, err)
	}
	sort.Strings(want)
	set := map[string]bool{}
	var uniq []string
	for _, n := range got {
		if !set[n] {
			uniq = append(uniq, n)
		}
		set[n] = true
	}
	if len(uniq) != len(want) || len(want) > 0 && !reflect.DeepEqual(uniq, want) {
		c.Fail("%s reports %q (%v), want %q", what, uniq, errs, want)
	}
}

var patterns = []struct {
	re string
	ok func(s string) bool
}{
	{`^[0-9]+$`, func(s string) bool { return s != "" && strings.Trim(s, "0123456789") == "" }},
	{`^\d{3}-\d{4}$`, func(s string) bool {
		if len(s) != 8 || s[3] != '-' {
			return false
		}
		return strings.Trim(s[:3]+s[4:], "0123456789") == ""
	}},
	{`^[A-Z][a-z]*$`, func(s string) bool {
		return s != "" && s[0] >= 'A' && s[0] <= 'Z' && strings.Trim(s[1:], "abcdefghijklmnopqrstuvwxyz") == ""
	}},
	{`@`, func(s string) bool { return strings.Contains(s, "@") }},
	{`^.{2,3}$`, func(s string) bool {
		n := utf8.RuneCountInString(s)
		return n >= 2 && n <= 3 && !strings.Contains(s, "\n")
	}},
	{`^(yes|no)$`, func(s string) bool { return s == "yes" || s == "no" }},
	{`\p{Lu}`, func(s string) bool { return strings.IndexFunc(s, unicode.IsUpper) >= 0 }},
	{`^[^\s]+$`, func(s string) bool {
		return s != "" && strings.IndexFunc(s, func(r rune) bool { return strings.ContainsRune("\t\n\f\r ", r) }) < 0
	}},
}

var patternTexts = []string{"123", "12a", "555-1234", "555-12345", "Xyz", "XyZ", "a@b", "@", "ab", "日本", "abcd", "yes", "no", "yes ", "yesno", "É", "no space", "nospace", "1", "Z", "\n1", "12\n", "éa", "x"}

type mquestion struct {
	q   types.Question
	pat int // index of the pattern, -1 none
}

// genQuestion draws a question with any combination of the rules that go with its type.
func genQuestion(c *hx.C, name string) *mquestion {
	m := &mquestion{pat: -1}
	m.q = types.Question{ID: "id " + name, Name: name, Required: flip(c, "required"), ReadOnly: oneIn(c, "readonly", 5), Properties: map[string]interface{}{}}
	m.q.Type = pick(c, "qtype", types.ResponseTypeText, types.ResponseTypeTextarea, types.ResponseTypeSelect, types.ResponseTypeRadio, types.ResponseTypeNumber, types.ResponseTypeEmail, types.ResponseTypeDate)
	switch m.q.Type {
	case types.ResponseTypeSelect, types.ResponseTypeRadio:
		for i, n := 0, count(c, "nopts", 0, 4, 60); i < n; i++ {
			v := fmt.Sprintf("%s%d", genText(c, "optv"), i)
			l := v
			if flip(c, "label") {
				l = fmt.Sprintf("%s label %d", genText(c, "optl"), i)
			}
			m.q.Options = append(m.q.Options, types.Option{Value: v, Label: l})
		}
		if m.q.Type == types.ResponseTypeSelect && oneIn(c, "editable", 4) {
			m.q.Properties["editable"] = true
		}
		return m
	}
	if oneIn(c, "norules", 5) {
		return m
	}
	r := &types.ValidationRules{}
	if m.q.Type == types.ResponseTypeNumber {
		lo := float64(num(c, "minv", -1000, 1000))
		if oneIn(c, "fracmin", 3) {
			lo += 0.5
		}
		hi := lo + float64(num(c, "range", 0, 500))
		if k := num(c, "bounds", 0, 3); k != 1 {
			if k != 2 {
				r.MinValue = &lo
			}
			if k != 0 {
				r.MaxValue = &hi
			}
		} else {
			r.MaxValue = &hi
		}
	} else {
		lo := num(c, "minl", 0, 12)
		hi := lo + num(c, "span", 0, 12)
		if flip(c, "hasmin") {
			r.MinLength = &lo
		}
		if flip(c, "hasmax") {
			r.MaxLength = &hi
		}
		if oneIn(c, "haspat", 3) {
			m.pat = num(c, "pat", 0, len(patterns)-1)
			r.Pattern = patterns[m.pat].re
			if flip(c, "msg") {
				r.ErrorMessage = "please"
			}
		}
	}
	m.q.Validation = r
	return m
}

// value draws a value for the question, often at the edge of its rules.
func (m *mquestion) value(c *hx.C) interface{} {
	r := m.q.Validation
	strict := r != nil && (r.MinLength != nil || r.Pattern != "")
	// an absent value of an optional question with such rules is left open
	if oneIn(c, "emptyq", 6) && (m.q.Required || !strict) {
		if flip(c, "nilq") {
			return nil
		}
		return ""
	}
	switch m.q.Type {
	case types.ResponseTypeSelect, types.ResponseTypeRadio:
		var opt []interface{}
		for _, o := range m.q.Options {
			opt = append(opt, []interface{}{o.Value, o.Label})
		}
		ft := "Ch"
		if m.q.Type == types.ResponseTypeRadio {
			ft = "Btn"
		}
		for {
			v := valueFor(c, ft, 0, opt)
			if !emptyVal(v) || m.q.Required {
				return v
			}
		}
	case types.ResponseTypeNumber:
		base := float64(num(c, "numbase", -1500, 1500))
		if r != nil && r.MinValue != nil && flip(c, "atmin") {
			base = *r.MinValue
		} else if r != nil && r.MaxValue != nil && flip(c, "atmax") {
			base = *r.MaxValue
		}
		base += pick(c, "numdelta", 0.0, 0.0, 1, -1, 0.25, -0.25, 1e-9, -1e-9, 1e6, -1e6)
		switch num(c, "numform", 0, 5) {
		case 0:
			return int(base)
		case 1:
			return fmt.Sprintf("%v", base)
		case 2:
			return fmt.Sprintf("%e", base)
		case 3:
			if r != nil && (r.MinValue != nil || r.MaxValue != nil) {
				return pick(c, "notnum", "abc", "12x", "1 2", "--1", "NaN", "é", "1,5")
			}
		case 4:
			return int64(base)
		}
		return base
	}
	if r != nil && r.Pattern != "" && !oneIn(c, "anytext", 3) {
		return pick(c, "pattext", patternTexts...)
	}
	if r != nil && r.MaxLength != nil && flip(c, "nearmax") {
		if n := nearBound(c, *r.MaxLength); n > 0 {
			return textOfLen(c, n)
		}
	}
	if r != nil && r.MinLength != nil {
		if n := nearBound(c, *r.MinLength); n > 0 {
			return textOfLen(c, n)
		}
	}
	if oneIn(c, "intval", 6) {
		return num(c, "int", 0, 1000000)
	}
	if oneIn(c, "numqval", 5) {
		return genNumber(c, "nqv")
	}
	return textOfLen(c, num(c, "len", 1, 30))
}

func (m *mquestion) ok(v interface{}) bool {
	if emptyVal(v) {
		return !m.q.Required
	}
	switch m.q.Type {
	case types.ResponseTypeRadio:
		if v == false || v == "Off" {
			return true
		}
		fallthrough
	case types.ResponseTypeSelect:
		if len(m.q.Options) == 0 || m.q.Properties["editable"] == true {
			return true
		}
		for _, s := range itemsOf(v) {
			in := false
			for _, o := range m.q.Options {
				in = in || s == o.Value || s == o.Label
			}
			if !in {
				return false
			}
		}
		return true
	}
	r := m.q.Validation
	if r == nil {
		return true
	}
	if m.q.Type == types.ResponseTypeNumber {
		if r.MinValue == nil && r.MaxValue == nil {
			return true
		}
		var f float64
		switch x := v.(type) {
		case int:
			f = float64(x)
		case int64:
			f = float64(x)
		case float64:
			f = x
		case string:
			if json.Unmarshal([]byte(x), &f) != nil {
				return false
			}
		}
		return (r.MinValue == nil || f >= *r.MinValue) && (r.MaxValue == nil || f <= *r.MaxValue)
	}
	s := storedText(v)
	n := utf8.RuneCountInString(s)
	if r.MinLength != nil && n < *r.MinLength || r.MaxLength != nil && n > *r.MaxLength {
		return false
	}
	return m.pat < 0 || patterns[m.pat].ok(s)
}

func init() {
	hx.Reg("C18", "field", 20000, "One field (text with a maximum length, choice with options of any form and flags, button) and one value, often at the edge of a rule or empty, through ValidateField, against the model of the rules. Non-trivial: the field has a rule.", func(c *hx.C) {
		m := &mform{f: newFD(c)}
		parent := &acroform.Field{T: genText(c, "parent")}
		f := &acroform.Field{T: genText(c, "name"), FT: pick(c, "ft", "Tx", "Ch", "Btn")}
		name := f.T
		if flip(c, "nested") {
			f.Parent = parent
			name = parent.T + "." + f.T
		}
		f.Ff = fieldFlags(c, f.FT)
		switch f.FT {
		case "Tx":
			f.MaxLen = pick(c, "maxlen", 0, 1, 2, 5, 8, 12, 22, 80)
		case "Ch":
			if !oneIn(c, "noopts", 5) {
				_, f.Opt = m.genOptions(c)
				if oneIn(c, "numopts", 4) {
					f.Opt = append(f.Opt, "7", "1234567", []interface{}{"100000000000000000000", "many"})
				}
			}
		case "Btn":
			if f.Ff&ffRadio != 0 && flip(c, "radioopts") {
				_, f.Opt = m.genOptions(c)
			}
		}
		v := valueFor(c, f.FT, f.MaxLen, f.Opt)
		if f.FT == "Ch" && oneIn(c, "numchoice", 6) {
			v = pick[interface{}](c, "chnum", 7, 7.0, int64(7), 1234567.0, 1e20, 1e21, []interface{}{1234567.0, 7})
		}
		want := fieldOK(f.FT, f.Ff, f.MaxLen, f.Opt, v)
		c.Keep("field", f)
		c.Keep("value", v)
		err := acroform.ValidateField(f, v)
		c.See("verdict", err)
		if (err == nil) != want {
			c.Fail("ValidateField(%+v, %#v) = %v, want valid %v", *f, v, err, want)
		}
		if err != nil {
			var ve *acroform.ValidationError
			if !errors.As(err, &ve) || ve.FieldName != name {
				c.Fail("ValidateField(%q, %#v) = %#v: names another field", name, v, err)
			}
		}
		if f.Ff&ffRequired != 0 || f.MaxLen > 0 || len(f.Opt) > 0 {
			c.NT(fmt.Sprintf("%+v %#v", *f, v))
		}
		c.Class(fmt.Sprintf("%s valid %v", f.FT, want))
	})
	hx.Reg("C18", "form-data", 1500, "A document with a form (as for C16) and values for any of its fields, often at the edge of a rule, and names that are no fields; ValidateFormData and Form.Validate report exactly the fields that break a rule, missing required ones included. Non-trivial: at least one value and one rule.", func(c *hx.C) {
		m := genForm(c, "doc", true)
		c.Dump("form.pdf", m.b)
		data := types.FormData{}
		var want []string
		rules := 0
		for _, x := range m.terminals() {
			if x.ff&ffRequired != 0 || x.maxLen > 0 || len(x.opt) > 0 {
				rules++
			}
			if !flip(c, "give") {
				if x.ff&ffRequired != 0 {
					want = append(want, x.name())
				}
				continue
			}
			v := valueFor(c, x.ft, x.maxLen, x.opt)
			data[x.name()] = v
			if !fieldOK(x.ft, x.ff, x.maxLen, x.opt, v) {
				want = append(want, x.name())
			}
		}
		unknown := map[string]bool{}
		if oneIn(c, "unknown", 3) {
			n := "no such field"
			unknown[n] = true
			data[n] = "x"
			want = append(want, n)
		}
		af, err := acroform.ExtractAcroForm(m.b, nil, false)
		if err != nil {
			c.Fail("ExtractAcroForm: %v", err)
		}
		c.Keep("form", af)
		c.Keep("data", data)
		c.See("verdict", acroform.ValidateFormData(af, data))
		sameOffenders(c, "ValidateFormData", acroform.ValidateFormData(af, data), append([]string(nil), want...), unknown)
		form, err := forms.Extract(m.b, nil, false)
		if err != nil {
			c.Fail("Extract: %v", err)
		}
		sameOffenders(c, "Form.Validate", form.Validate(data), append([]string(nil), want...), unknown)
		if rules > 0 && len(data) > 0 {
			c.NT(fmt.Sprintf("%s %#v", m.key(), data))
		}
		c.Class(fmt.Sprintf("%d offenders", min(len(want), 4)))
	})
	hx.Reg("C18", "question", 20000, "One question with any combination of rules (required, lengths, pattern, range, options) and a value, often at an edge, through ValidateFieldValue, against the model. Non-trivial: the question has a rule.", func(c *hx.C) {
		m := genQuestion(c, genText(c, "name"))
		v := m.value(c)
		want := m.ok(v)
		q := m.q
		c.Keep("question", q)
		c.Keep("value", v)
		err := acroform.ValidateFieldValue(&q, v)
		c.See("verdict", err)
		desc, _ := json.Marshal(m.q)
		if (err == nil) != want {
			c.Fail("ValidateFieldValue(%s, %#v) = %v, want valid %v", desc, v, err, want)
		}
		if err != nil {
			var ve *acroform.ValidationError
			if !errors.As(err, &ve) || ve.FieldName != m.q.Name {
				c.Fail("ValidateFieldValue(%q, %#v) = %#v: names another field", m.q.Name, v, err)
			}
		}
		if m.q.Required || m.q.Validation != nil || len(m.q.Options) > 0 {
			c.NT(fmt.Sprintf("%s %#v", desc, v))
		}
		c.Class(fmt.Sprintf("%s valid %v", m.q.Type, want))
	})
	hx.Reg("C18", "schema", 5000, "A schema of 1 to 8 questions and values for some of them and for names that are no questions; ValidateFormSchema reports exactly the offending ones, missing required ones included. Non-trivial: at least two questions.", func(c *hx.C) {
		s := &types.FormSchema{}
		data := types.FormData{}
		var want []string
		unknown := map[string]bool{}
		for i, n := 0, count(c, "questions", 1, 8, 80); i < n; i++ {
			m := genQuestion(c, fmt.Sprintf("%s#%d", genText(c, "name"), i))
			s.Questions = append(s.Questions, m.q)
			if !flip(c, "give") {
				if m.q.Required {
					want = append(want, m.q.Name)
				}
				continue
			}
			v := m.value(c)
			data[m.q.Name] = v
			if !m.ok(v) {
				want = append(want, m.q.Name)
			}
		}
		if oneIn(c, "unknown", 3) {
			n := pick(c, "unknownname", "no such field", "other")
			unknown[n] = true
			data[n] = 1
			want = append(want, n)
		}
		c.Keep("schema", s)
		c.Keep("data", data)
		verdict := acroform.ValidateFormSchema(s, data)
		c.See("verdict", verdict)
		sameOffenders(c, "ValidateFormSchema", verdict, append([]string(nil), want...), unknown)
		if len(s.Questions) > 1 {
			desc, _ := json.Marshal(s)
			c.NT(fmt.Sprintf("%s %#v", desc, data))
		}
		c.Class(fmt.Sprintf("%d offenders", min(len(want), 4)))
	})
}
