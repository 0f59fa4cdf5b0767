package props

import (
	"encoding/xml"
	"fmt"
	"io"
	"maps"
	"math"
	"reflect"
	"slices"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/benedoc-inc/pdfer/core/parse"
	"github.com/benedoc-inc/pdfer/forms/xfa"
	"github.com/benedoc-inc/pdfer/types"

	"verif/harness/hx"
)

// show renders a value with its dynamic types, leaving out what is empty.
func show(v any) string {
	var out strings.Builder
	var walk func(v reflect.Value, indent string)
	walk = func(v reflect.Value, indent string) {
		switch v.Kind() {
		case reflect.Pointer, reflect.Interface:
			if v.IsNil() {
				out.WriteString("nil\n")
				return
			}
			if v.Kind() == reflect.Interface {
				fmt.Fprintf(&out, "(%s) ", v.Elem().Type())
			} else {
				out.WriteString("& ")
			}
			walk(v.Elem(), indent)
		case reflect.Struct:
			out.WriteString("\n")
			for i := 0; i < v.NumField(); i++ {
				f := v.Field(i)
				if f.IsZero() || (f.Kind() == reflect.Map || f.Kind() == reflect.Slice) && f.Len() == 0 {
					continue
				}
				out.WriteString(indent + v.Type().Field(i).Name + ": ")
				walk(f, indent+"  ")
			}
		case reflect.Slice:
			out.WriteString("\n")
			for i := 0; i < v.Len(); i++ {
				fmt.Fprintf(&out, "%s[%d] ", indent, i)
				walk(v.Index(i), indent+"  ")
			}
		case reflect.Map:
			out.WriteString("\n")
			keys := v.MapKeys()
			sort.Slice(keys, func(i, j int) bool { return keys[i].String() < keys[j].String() })
			for _, k := range keys {
				fmt.Fprintf(&out, "%s%q: ", indent, k)
				walk(v.MapIndex(k), indent+"  ")
			}
		default:
			fmt.Fprintf(&out, "%#v\n", v.Interface())
		}
	}
	walk(reflect.ValueOf(v), "")
	return out.String()
}

// xmlDigest counts the elements of a well-formed document with one root of the given name.
func xmlDigest(s, root string) (int, error) {
	d := xml.NewDecoder(strings.NewReader(s))
	n, depth := 0, 0
	for {
		t, err := d.Token()
		if err == io.EOF {
			break
		}
		if err != nil {
			return 0, err
		}
		switch t := t.(type) {
		case xml.StartElement:
			if n == 0 && t.Name.Local != root || depth == 0 && n > 0 {
				return 0, fmt.Errorf("root element %s, want %s alone", t.Name.Local, root)
			}
			seen := map[xml.Name]bool{}
			for _, a := range t.Attr {
				if seen[a.Name] {
					return 0, fmt.Errorf("element %s has attribute %s twice", t.Name.Local, a.Name.Local)
				}
				seen[a.Name] = true
			}
			n++
			depth++
		case xml.EndElement:
			depth--
		case xml.CharData:
			if depth == 0 && strings.TrimSpace(string(t)) != "" {
				return 0, fmt.Errorf("text outside the root element")
			}
		}
	}
	if n == 0 {
		return 0, fmt.Errorf("no element")
	}
	return n, nil
}

// rerender writes the same document in another way: other quotes, attribute
// orders, white space between elements, comments, CDATA, character references.
func rerender(c *hx.C, s string) string {
	type node struct {
		start xml.StartElement
		text  string
		kids  []*node
	}
	d := xml.NewDecoder(strings.NewReader(s))
	top := &node{}
	stack := []*node{top}
	for {
		t, err := d.Token()
		if err != nil {
			break
		}
		cur := stack[len(stack)-1]
		switch t := t.(type) {
		case xml.StartElement:
			n := &node{start: t.Copy()}
			cur.kids = append(cur.kids, n)
			stack = append(stack, n)
		case xml.EndElement:
			stack = stack[:len(stack)-1]
		case xml.CharData:
			cur.text += string(t)
		}
	}
	// groups that mean nothing for the fields in them
	var nest func(n *node, depth int)
	nest = func(n *node, depth int) {
		for i := 0; i < len(n.kids); i++ {
			k := n.kids[i]
			if k.start.Name.Local != "field" {
				nest(k, depth)
				continue
			}
			end := i + 1
			for end < len(n.kids) && n.kids[end].start.Name.Local == "field" {
				end++
			}
			if depth < 4 && oneIn(c, "nest", 4) {
				group := &node{start: xml.StartElement{Name: xml.Name{Local: pick(c, "group", "subform", "subform", "subform", "area", "exclGroup", "subformSet")}}}
				if flip(c, "groupnamed") {
					group.start.Attr = []xml.Attr{{Name: xml.Name{Local: "name"}, Value: pick(c, "groupname", "page1", "g", "subform", "a b", "")}}
				}
				end = num(c, "groupend", i, end)
				group.kids = append(group.kids, n.kids[i:end]...)
				n.kids = append(n.kids[:i:i], append([]*node{group}, n.kids[end:]...)...)
				nest(group, depth+1)
			}
		}
	}
	if top.kids != nil && top.kids[0].start.Name.Local == "template" {
		nest(top, 0)
	}
	var out strings.Builder
	ws := func(label string) string {
		return pick(c, label, "", "", "\n", "  ", "\r\n\t", "<!-- x -->", "<!--<field name='a'/>-->", "<?pi x?>")
	}
	var write func(n *node)
	write = func(n *node) {
		out.WriteString("<" + n.start.Name.Local)
		attrs := n.start.Attr
		if flip(c, "revattrs") {
			for i := len(attrs) - 1; i >= 0; i-- {
				attrs = append(attrs, attrs[i])
			}
			attrs = attrs[len(n.start.Attr):]
		}
		for _, a := range attrs {
			q := pick(c, "aq", byte('"'), byte('\''))
			fmt.Fprintf(&out, "%s%s=%c%s%c", pick(c, "asp", " ", "  ", "\n"), a.Name.Local, q, esc(c, "aesc", a.Value, q), q)
		}
		if len(n.kids) == 0 && n.text == "" && flip(c, "selfclose") {
			out.WriteString(pick(c, "sp", "", " ") + "/>")
			return
		}
		out.WriteString(pick(c, "sp2", "", "", " ") + ">")
		if len(n.kids) == 0 {
			pad := pick(c, "tpad", "", "", " ", "\n  ")
			out.WriteString(pad)
			if strings.Contains(n.text, " ") && oneIn(c, "splittext", 4) {
				a, b, _ := strings.Cut(n.text, " ")
				out.WriteString(esc(c, "tesc1", a, 0) + "<!-- c -->" + esc(c, "tesc2", " "+b, 0))
			} else {
				out.WriteString(esc(c, "tesc", n.text, 0))
			}
			out.WriteString(pad)
		}
		for _, k := range n.kids {
			out.WriteString(ws("kws"))
			write(k)
		}
		if len(n.kids) > 0 {
			out.WriteString(ws("kws2"))
		}
		out.WriteString("</" + n.start.Name.Local + pick(c, "esp", "", "", " ") + ">")
	}
	out.WriteString(pick(c, "prolog", "", "", `<?xml version="1.0" encoding="UTF-8"?>`+"\n", "<!-- x -->\n"))
	write(top.kids[0])
	out.WriteString(pick(c, "epilog", "", "\n", "<!-- end -->"))
	return out.String()
}

// roundTrip checks one value: generated twice alike, well formed, left alone,
// read back as it was, also from another rendering of the same document.
func roundTrip[T any](c *hx.C, root string, v *T, gen func(*T, bool) (string, error), parse func(string, bool) (*T, error)) string {
	want := show(v)
	c.Keep("value", v)
	out, err := gen(v, false)
	if err != nil {
		c.Fail("generating: %v\n%s", err, want)
	}
	c.Dump("generated.xml", []byte(out))
	if show(v) != want {
		c.Fail("generating changed the value to %s", show(v))
	}
	for i := 0; i < 2; i++ {
		if again, err := gen(v, false); err != nil || again != out {
			c.Fail("generated again: %v\n%s\nfirst:\n%s", err, again, out)
		}
	}
	if _, err := xmlDigest(out, root); err != nil {
		c.Fail("not well formed: %v\n%s", err, out)
	}
	back, err := parse(out, false)
	c.See("parsed", back)
	if err != nil {
		c.Fail("parsing: %v\n%s", err, out)
	}
	if is := show(back); is != want {
		c.Fail("parsed back as\n%swant\n%sfrom\n%s", is, want, out)
	}
	other := rerender(c, out)
	c.Dump("rendered.xml", []byte(other))
	back, err = parse(other, false)
	c.See("parsed", back)
	if err != nil {
		c.Fail("parsing: %v\n%s", err, other)
	}
	if is := show(back); is != want {
		c.Fail("parsed from another rendering as\n%swant\n%sfrom\n%s", is, want, other)
	}
	return want
}

// attrText draws text for an attribute: any that XML can hold.
func attrText(c *hx.C, label string) string {
	s := xmlText(c, label)
	if oneIn(c, label+"pad", 6) {
		s = " " + s + "\n"
	}
	return s
}

// maybe draws an attribute text or none.
func maybe(c *hx.C, label string) string {
	if flip(c, label+"has") {
		return attrText(c, label)
	}
	return ""
}

// elemText draws non-empty text of an element.
func elemText(c *hx.C, label string) string {
	if s := xmlText(c, label); s != "" {
		return s
	}
	return "x"
}

// plainText draws element text that does not look like a number or boolean.
func plainText(c *hx.C, label string) string {
	s := elemText(c, label)
	if _, err := strconv.ParseFloat(s, 64); err == nil || s == "true" || s == "false" {
		s = "n: " + s
	}
	return s
}

// propKeys draws distinct element names that mean nothing else in a packet.
func propKeys(c *hx.C, label string, max int) []string {
	var keys []string
	for i, n := 0, num(c, label+"n", 0, max); i < n; i++ {
		k := pick(c, label+"k", "alpha", "Beta", "x1", "my-prop", "_p", "a.b", "größe", "timeoutMs", "renderAs", "zeta", "k2", "cacheMode", "名前") + pick(c, label+"ks", "", "", "2", "Z")
		for _, o := range keys {
			if o == k {
				k += "_" + strconv.Itoa(i)
			}
		}
		keys = append(keys, k)
	}
	return keys
}

func genFloat(c *hx.C, label string) float64 {
	switch num(c, label+"fk", 0, 4) {
	case 0:
		return pick(c, label+"f", 0.5, -2.25, 12, 1e-7, 1e21, 123456789.125, -1, 0.1, math.MaxFloat64, 5e-324)
	default:
		return float64(num(c, label+"fi", -5000, 5000)) / pick(c, label+"fd", 1.0, 8, 10, 1000)
	}
}

func genLocales(c *hx.C) *types.XFALocaleSet {
	v := &types.XFALocaleSet{Default: maybe(c, "default")}
	prec := func(label string) int { return pick(c, label, 0, 1, 2, 3, 15) }
	for i, n := 0, count(c, "locales", 0, 4, 40); i < n; i++ {
		l := types.XFALocale{Code: maybe(c, "code"), Name: maybe(c, "name")}
		if flip(c, "cal") {
			l.Calendar = &types.XFACalendar{Symbols: maybe(c, "sym"), FirstDay: maybe(c, "first"), Weekend: maybe(c, "weekend")}
			for j, m := 0, num(c, "holidays", 0, 3); j < m; j++ {
				l.Calendar.Holidays = append(l.Calendar.Holidays, pick(c, "holpre", "", "", "holiday ")+elemText(c, "holiday"))
			}
		}
		if flip(c, "cur") {
			l.Currency = &types.XFACurrency{Symbol: maybe(c, "cursym"), Name: maybe(c, "curname"), Precision: prec("curprec")}
		}
		if flip(c, "dp") {
			l.DatePattern = &types.XFADatePattern{Format: maybe(c, "dpf"), Symbol: maybe(c, "dps")}
		}
		if flip(c, "tp") {
			l.TimePattern = &types.XFATimePattern{Format: maybe(c, "tpf"), Symbol: maybe(c, "tps")}
		}
		if flip(c, "np") {
			l.NumberPattern = &types.XFANumberPattern{Format: maybe(c, "npf"), Symbol: maybe(c, "nps"), Grouping: maybe(c, "npg"), Decimal: maybe(c, "npd"), Precision: prec("npp")}
		}
		if flip(c, "text") {
			l.Text = &types.XFAText{Direction: maybe(c, "dir"), Encoding: maybe(c, "enc")}
		}
		v.Locales = append(v.Locales, l)
	}
	return v
}

func genConfig(c *hx.C) *types.XFAConfig {
	v := &types.XFAConfig{}
	script := func(label string) *types.XFAConfigScript {
		return &types.XFAConfigScript{ContentType: maybe(c, label+"ct"), RunAt: maybe(c, label+"run")}
	}
	if flip(c, "present") {
		p := &types.XFAConfigPresent{RenderPolicy: maybe(c, "render"), EffectiveOutputPolicy: maybe(c, "eop")}
		if flip(c, "pdf") {
			p.PDF = &types.XFAConfigPDF{Version: maybe(c, "pdfv"), Compression: maybe(c, "pdfc"), Linearized: flip(c, "lin"), Encryption: maybe(c, "pdfe"), EmbedFonts: flip(c, "embed"), Tagged: flip(c, "tagged"), Accessibility: flip(c, "acc")}
		}
		if flip(c, "xdp") {
			p.XDP = &types.XFAConfigXDP{Version: maybe(c, "xdpv")}
		}
		if flip(c, "print") {
			p.Print = &types.XFAConfigPrint{PrinterName: maybe(c, "pn"), PrinterCap: maybe(c, "pc")}
		}
		if flip(c, "inter") {
			p.Interactive = &types.XFAConfigInteractive{CurrentPage: pick(c, "page", 0, 1, 7, 1<<30), Zoom: maybe(c, "zoom"), ViewMode: maybe(c, "view")}
		}
		if flip(c, "pscript") {
			p.Script = script("ps")
		}
		v.Present = p
	}
	if flip(c, "validate") {
		v.Validate = &types.XFAConfigValidate{ScriptTest: maybe(c, "st"), NullTest: maybe(c, "nt"), FormatTest: maybe(c, "ft")}
	}
	if flip(c, "submit") {
		v.Submit = &types.XFAConfigSubmit{Format: maybe(c, "sf"), Target: maybe(c, "starget"), Method: maybe(c, "sm"), EmbedPDF: flip(c, "se"), XDPContent: maybe(c, "sx"), TextEncoding: maybe(c, "ste"), Properties: map[string]string{}}
		for _, k := range propKeys(c, "sprop", 3) {
			v.Submit.Properties[k] = attrText(c, "sprop")
		}
	}
	if flip(c, "dest") {
		v.Destination = &types.XFAConfigDestination{Type: maybe(c, "dt"), Target: maybe(c, "dta")}
	}
	if flip(c, "acrobat") {
		v.Acrobat = &types.XFAConfigAcrobat{AutoSave: flip(c, "as"), AutoSaveTime: pick(c, "ast", 0, 1, 300), FormType: maybe(c, "aft"), Version: maybe(c, "av")}
	}
	if flip(c, "common") {
		v.Common = &types.XFAConfigCommon{DataPrefix: maybe(c, "cdp"), TimeStamp: maybe(c, "cts")}
	}
	if flip(c, "output") {
		v.Output = &types.XFAConfigOutput{Format: maybe(c, "of"), Destination: maybe(c, "od")}
	}
	if flip(c, "script") {
		v.Script = script("s")
	}
	if flip(c, "trace") {
		v.Trace = &types.XFAConfigTrace{Enabled: flip(c, "te"), Level: maybe(c, "tl")}
	}
	v.Properties = map[string]interface{}{}
	for _, k := range propKeys(c, "prop", 4) {
		v.Properties[k] = elemText(c, "prop")
	}
	return v
}

func genConnections(c *hx.C) *types.XFAConnectionSet {
	v := &types.XFAConnectionSet{}
	for i, n := 0, count(c, "conns", 0, 4, 60); i < n; i++ {
		x := types.XFAConnection{Name: maybe(c, "name"), Type: maybe(c, "type"), Properties: map[string]interface{}{}}
		known := []string{"uri", "wsdl", "operation", "soapAction", "user", "password", "dsn", "query"}
		for _, k := range known {
			if oneIn(c, "has"+k, 3) {
				x.Properties[k] = elemText(c, k)
			}
		}
		for _, k := range propKeys(c, "cprop", 3) {
			x.Properties[k] = elemText(c, "cprop")
		}
		if flip(c, "desc") {
			x.DataDescription = &types.XFADataDescription{Ref: maybe(c, "ref"), Schema: maybe(c, "schema"), Namespace: maybe(c, "ns"), Properties: map[string]interface{}{}}
			for _, k := range propKeys(c, "dprop", 3) {
				x.DataDescription.Properties[k] = elemText(c, "dprop")
			}
			if oneIn(c, "same", 3) {
				x.DataDescription.Properties[pick(c, "samek", known...)] = elemText(c, "dknown")
			}
		}
		v.Connections = append(v.Connections, x)
	}
	return v
}

func genStyles(c *hx.C) *types.XFAStylesheet {
	v := &types.XFAStylesheet{}
	side := func(label string) float64 {
		if oneIn(c, label+"zero", 3) {
			return 0
		}
		return genFloat(c, label)
	}
	for i, n := 0, count(c, "styles", 0, 4, 60); i < n; i++ {
		s := types.XFAStyle{Name: maybe(c, "name"), Type: maybe(c, "type"), Properties: map[string]interface{}{}}
		if flip(c, "font") {
			s.Properties["font"] = &types.XFAStyleFont{Family: maybe(c, "ff"), Size: side("fs"), Weight: maybe(c, "fw"), Style: maybe(c, "fst"), Color: maybe(c, "fc"), Decoration: maybe(c, "fd")}
		}
		if flip(c, "border") {
			s.Properties["border"] = &types.XFAStyleBorder{Width: side("bw"), Style: maybe(c, "bs"), Color: maybe(c, "bc"), Radius: side("br")}
		}
		if flip(c, "margin") {
			s.Properties["margin"] = &types.XFAMargin{Top: side("mt"), Right: side("mr"), Bottom: side("mb"), Left: side("ml")}
		}
		if flip(c, "padding") {
			s.Properties["padding"] = &types.XFAPadding{Top: side("pt"), Right: side("pr"), Bottom: side("pb"), Left: side("pl")}
		}
		if flip(c, "position") {
			s.Properties["position"] = &types.XFAPosition{X: side("px"), Y: side("py")}
		}
		if flip(c, "size") {
			s.Properties["size"] = &types.XFASize{Width: side("sw"), Height: side("sh")}
		}
		for _, k := range propKeys(c, "sprop", 4) {
			switch num(c, "spk", 0, 3) {
			case 0:
				s.Properties[k] = flip(c, "spb")
			case 1:
				s.Properties[k] = genFloat(c, "spf")
			default:
				s.Properties[k] = plainText(c, "sps")
			}
		}
		v.Styles = append(v.Styles, s)
	}
	return v
}

func genDatasets(c *hx.C) *types.XFADatasets {
	value := func() interface{} {
		switch num(c, "vk", 0, 5) {
		case 0:
			return flip(c, "vb")
		case 1:
			if i := pick(c, "vi", 2, -1, 10, 1990, -45, 1<<40, math.MaxInt64, math.MinInt64); i != 0 {
				return i
			}
		case 2:
			if f := genFloat(c, "vf"); f != math.Trunc(f) {
				return f
			}
		case 3:
			return ""
		}
		return plainText(c, "vs")
	}
	fields := func() map[string]interface{} {
		m := map[string]interface{}{}
		for i, n := 0, count(c, "fields", 0, 4, 60); i < n; i++ {
			name := pick(c, "fname", "a", "b", "First Name", "form1[0].x", "Größe", "a&b", "x<y", "q\"q", "data", "value", " padded ") + pick(c, "fsuf", "", "1", "2")
			m[name] = value()
		}
		return m
	}
	var groups func(depth int) []types.XFAFieldGroup
	groups = func(depth int) []types.XFAFieldGroup {
		var out []types.XFAFieldGroup
		if depth == 0 {
			return nil
		}
		for i, n := 0, count(c, "groups", 0, 3, 40); i < n; i++ {
			out = append(out, types.XFAFieldGroup{
				// the same name may be a sibling's, the parent's and the child's
				Name:   pick(c, "gname", "group", "form1", "address", "sub-form", "G_1", "group"),
				Fields: fields(), Groups: groups(depth - 1),
			})
		}
		return out
	}
	return &types.XFADatasets{Fields: fields(), Groups: groups(3)}
}

// ownID reports if the parser makes a name the identifier as it is.
func ownID(name string) bool {
	for i, r := range name {
		if r != '_' && (r < 'a' || r > 'z') && (r < 'A' || r > 'Z') && (i == 0 || r < '0' || r > '9') {
			return false
		}
	}
	return true
}

func parseForm(s string, verbose bool) (*types.FormSchema, error) {
	v, err := xfa.ParseXFAForm(s, verbose)
	if err == nil {
		for i := range v.Questions {
			q := &v.Questions[i]
			if q.ID == "" {
				return nil, fmt.Errorf("question %q has no identifier", q.Name)
			}
			if !ownID(q.Name) {
				q.ID = "" // made up by the parser
			}
		}
	}
	return v, err
}

func genFormSchema(c *hx.C) *types.FormSchema {
	v := &types.FormSchema{Metadata: types.FormMetadata{FormType: "XFA", TotalPages: 1, Title: maybe(c, "title"), Description: maybe(c, "fdesc"), Version: maybe(c, "fver")}}
	used := map[string]bool{}
	rule := 0
	for i, n := 0, count(c, "questions", 0, 5, 60); i < n; i++ {
		q := types.Question{Name: pick(c, "qname", "name", "q_1", "Field", "city", "Z9", "value", "items", "a b", "Größe", "a&b", "<x>", "form1[0].x", " pad ", "q\"'", "1st")}
		if used[q.Name] {
			q.Name += fmt.Sprint("_", i)
		}
		used[q.Name] = true
		if ownID(q.Name) {
			q.ID = q.Name
		}
		q.Label = xmlText(c, "label")
		q.Description = xmlText(c, "qdesc")
		q.Type = pick(c, "qtype", types.ResponseTypeText, types.ResponseTypeTextarea, types.ResponseTypeRadio, types.ResponseTypeCheckbox, types.ResponseTypeSelect, types.ResponseTypeNumber, types.ResponseTypeDate, types.ResponseTypeEmail, types.ResponseTypeButton, types.ResponseTypeSignature)
		for j, m := 0, count(c, "options", -2, 4, 80); j < m; j++ {
			o := types.Option{Value: pick(c, "optk", xmlText(c, "opt"), elemText(c, "opt"))}
			o.Label = o.Value
			if oneIn(c, "labelled", 3) {
				o.Label = elemText(c, "optl")
			}
			if o.Label == "" {
				o.Label = o.Value
			}
			q.Options = append(q.Options, o)
		}
		if flip(c, "valid") {
			val := &types.ValidationRules{Pattern: xmlText(c, "pattern"), CustomScript: maybe(c, "vscript"), ErrorMessage: maybe(c, "vmsg")}
			if flip(c, "minl") {
				x := num(c, "minlv", 0, 100)
				val.MinLength = &x
			}
			if flip(c, "maxl") {
				x := num(c, "maxlv", 0, 100)
				val.MaxLength = &x
			}
			if flip(c, "minv") {
				x := genFloat(c, "minvv")
				val.MinValue = &x
			}
			if flip(c, "maxv") {
				x := genFloat(c, "maxvv")
				val.MaxValue = &x
			}
			q.Validation = val
		}
		if flip(c, "dflt") {
			q.Default = elemText(c, "dfltv")
		}
		q.Required = flip(c, "req")
		switch num(c, "access", 0, 2) {
		case 0:
			q.ReadOnly = true
		case 1:
			q.Hidden = true
		}
		q.PageNumber = pick(c, "page", 1, 1, 2, 17)
		q.Properties = map[string]interface{}{}
		for _, k := range []string{"x", "y", "w", "h"} {
			if oneIn(c, "has"+k, 3) {
				if q.Properties[k] = genFloat(c, "layout"); oneIn(c, "unit", 4) {
					q.Properties[k] = pick(c, "measure", "10mm", "0.5in", "a<b", "1pt")
				}
			}
		}
		v.Questions = append(v.Questions, q)
		for j, m := 0, count(c, "rules", -3, 2, 30); j < m; j++ {
			rule++
			r := types.Rule{ID: fmt.Sprintf("rule_%d", rule), Source: q.Name, Type: pick(c, "rtype", types.RuleTypeCalculate, types.RuleTypeValidate, types.RuleTypeSetValue)}
			if flip(c, "action") {
				s := elemText(c, "rscript")
				r.Actions = []types.Action{{Type: types.ActionTypeExecute, Script: s, Expression: s}}
			}
			v.Rules = append(v.Rules, r)
		}
	}
	return v
}

// otherwise returns the same form with other values of the same meaning: pages among the properties,
// scripts as expressions or in several actions, rules that name their questions by identifiers.
func otherwise(c *hx.C, v *types.FormSchema) types.FormSchema {
	w := *v
	w.Questions, w.Rules = slices.Clone(v.Questions), slices.Clone(v.Rules)
	for i := range w.Rules {
		r := &w.Rules[i]
		if len(r.Actions) == 0 {
			continue
		}
		a := r.Actions[0]
		switch num(c, "action", 0, 3) {
		case 0:
			a.Script = ""
			r.Actions = []types.Action{a}
		case 1:
			a.Expression = ""
			r.Actions = []types.Action{a}
		case 2:
			b := a
			at := num(c, "split", 0, len(a.Script))
			for at < len(a.Script) && !utf8.RuneStart(a.Script[at]) {
				at++
			}
			a.Script, b.Script = a.Script[:at], a.Script[at:]
			a.Expression, b.Expression = "", ""
			if flip(c, "expr") {
				b.Script, b.Expression = "", b.Script
			}
			r.Actions = []types.Action{a, b}
		}
	}
	for i := range w.Questions {
		q := &w.Questions[i]
		if flip(c, "pageprop") {
			q.Properties = maps.Clone(q.Properties)
			q.Properties["page_number"] = q.PageNumber
			q.PageNumber = 0
		}
		if !ownID(q.Name) && flip(c, "byid") {
			q.ID = fmt.Sprintf("question %d", i+1)
			for j := range w.Rules {
				if w.Rules[j].Source == q.Name {
					w.Rules[j].Source = q.ID
				}
			}
		}
	}
	return w
}

// nastyTexts puts arbitrary characters, also those XML cannot hold, in all texts of a value.
func nastyTexts(c *hx.C, v reflect.Value) {
	text := func() string {
		if flip(c, "keep") {
			return pick(c, "nasty", "\x00", "a\x01b", "\xff\xfe", "\ufffe", "a\u0000<", "]]>\x1b", "\x0b&", "\xc3", "\ud7ff\uffff", "--><x>", "'\"><y/>", "\u2028")
		}
		return string(nastyBytes(c, "nastyb", 12))
	}
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			nastyTexts(c, v.Elem())
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type() == reflect.TypeOf(types.XFAFieldGroup{}) && v.Type().Field(i).Name == "Name" {
				continue // an element name
			}
			nastyTexts(c, v.Field(i))
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			nastyTexts(c, v.Index(i))
		}
	case reflect.Map:
		for _, k := range sortedValues(v) {
			if e := v.MapIndex(k); e.Kind() == reflect.String || e.Kind() == reflect.Interface && e.Elem().Kind() == reflect.String {
				v.SetMapIndex(k, reflect.ValueOf(text()))
			}
		}
	case reflect.String:
		if v.Type() == reflect.TypeOf("") && v.String() != "" {
			v.SetString(text())
		}
	}
}

func sortedValues(m reflect.Value) []reflect.Value {
	keys := m.MapKeys()
	sort.Slice(keys, func(i, j int) bool { return keys[i].String() < keys[j].String() })
	return keys
}

func init() {
	reg := func(name string, n int, rule string, fn func(c *hx.C) string) {
		hx.Reg("C20", name, n, rule, func(c *hx.C) {
			if want := fn(c); len(want) > 60 {
				c.NT(want)
			}
		})
	}
	const how = ": generated XML is well formed, the same on every call, and read back, also in other renderings of the same document, as exactly the value. Non-trivial: values with some content."
	reg("form", 4000, "Form schemas with any questions, options, validation rules, layout, defaults, events, texts with markup characters and line ends"+how, func(c *hx.C) string {
		v := genFormSchema(c)
		c.ClassIf(len(v.Rules) > 0, "rules")
		given := *v
		if flip(c, "written otherwise") {
			given = otherwise(c, v)
		}
		before := show(given)
		return roundTrip(c, "template", v, func(_ *types.FormSchema, verbose bool) (string, error) {
			out, err := xfa.FormToXFA(&given, verbose)
			if after := show(given); after != before {
				c.Fail("generating changed the value to %s", after)
			}
			return out, err
		}, parseForm)
	})
	reg("fields", 2500, "Templates of the same form schemas, in any rendering, read as a list of fields: it has exactly the questions' names, types, defaults, labels, layout and flags, in order. Non-trivial: schemas with some content.", func(c *hx.C) string {
		v := genFormSchema(c)
		out, err := xfa.FormToXFA(v, false)
		if err != nil {
			c.Fail("FormToXFA: %v", err)
		}
		if flip(c, "other") {
			out = rerender(c, out)
		}
		c.Dump("template.xml", []byte(out))
		got, err := parse.ParseXFAFields(out, false)
		c.See("fields", got)
		if err != nil || len(got) != len(v.Questions) {
			c.Fail("%d fields (%v), want %d", len(got), err, len(v.Questions))
		}
		for i, q := range v.Questions {
			want := types.FormField{ID: q.ID, Name: q.Name, FullName: q.Name, Type: string(q.Type), DefaultValue: q.Default, Required: q.Required, ReadOnly: q.ReadOnly, Properties: map[string]interface{}{}}
			if q.ID == "" { // made from the name
				want.ID = got[i].ID
			}
			for k, x := range q.Properties {
				want.Properties[k] = fmt.Sprint(x)
			}
			if q.Label != "" {
				want.Properties["label"] = q.Label
			}
			if is, want := show(got[i]), show(want); is != want {
				c.Fail("field %d is\n%swant\n%s", i, is, want)
			}
		}
		return show(v)
	})
	reg("datasets", 4000, "Data sets with fields of any name and value (booleans, numbers, texts), groups nested up to three deep and repeating names"+how, func(c *hx.C) string {
		v := genDatasets(c)
		c.ClassIf(len(v.Groups) > 0 && len(v.Groups[0].Groups) > 0, "nested groups")
		return roundTrip(c, "data", v, xfa.DatasetsToXFA, xfa.ParseXFADatasets)
	})
	reg("config", 4000, "Configurations with any subset of all sections, attributes and properties"+how, func(c *hx.C) string {
		return roundTrip(c, "config", genConfig(c), xfa.ConfigToXFA, xfa.ParseXFAConfig)
	})
	reg("locale", 4000, "Locale sets of up to four locales with any subset of members and holidays"+how, func(c *hx.C) string {
		return roundTrip(c, "localeSet", genLocales(c), xfa.LocaleSetToXFA, xfa.ParseXFALocaleSet)
	})
	reg("connection", 4000, "Connection sets of up to four connections with data descriptions, known and other properties"+how, func(c *hx.C) string {
		return roundTrip(c, "connectionSet", genConnections(c), xfa.ConnectionSetToXFA, xfa.ParseXFAConnectionSet)
	})
	reg("stylesheet", 4000, "Stylesheets of up to four styles with fonts, borders, boxes and other properties, numbers of either sign"+how, func(c *hx.C) string {
		return roundTrip(c, "stylesheet", genStyles(c), xfa.StylesheetToXFA, xfa.ParseXFAStylesheet)
	})
	hx.Reg("C20", "wellformed", 3000, "Values of every packet kind with arbitrary bytes in their texts, also those XML cannot hold: generation fails or gives well-formed XML of the same structure as for harmless texts. Non-trivial: every case.", func(c *hx.C) {
		var v any
		var gen func() (string, error)
		root := pick(c, "kind", "template", "data", "config", "localeSet", "connectionSet", "stylesheet")
		switch root {
		case "template":
			x := genFormSchema(c)
			for i := range x.Rules {
				x.Rules[i].Source = "" // at the end of the template, whatever the questions are named
			}
			v, gen = x, func() (string, error) { return xfa.FormToXFA(x, false) }
		case "data":
			x := genDatasets(c)
			v, gen = x, func() (string, error) { return xfa.DatasetsToXFA(x, false) }
		case "config":
			x := genConfig(c)
			v, gen = x, func() (string, error) { return xfa.ConfigToXFA(x, false) }
		case "localeSet":
			x := genLocales(c)
			v, gen = x, func() (string, error) { return xfa.LocaleSetToXFA(x, false) }
		case "connectionSet":
			x := genConnections(c)
			v, gen = x, func() (string, error) { return xfa.ConnectionSetToXFA(x, false) }
		default:
			x := genStyles(c)
			v, gen = x, func() (string, error) { return xfa.StylesheetToXFA(x, false) }
		}
		nastyTexts(c, reflect.ValueOf(v))
		out, err := gen()
		if err != nil {
			return
		}
		c.Dump("generated.xml", []byte(out))
		if _, err := xmlDigest(out, root); err != nil {
			c.Fail("not well formed: %v\n%q\nfor %s", err, out, show(v))
		}
		c.NT(show(v))
		c.Class(root)
	})
	hx.Reg("C20", "update", 3000, "XML with fields in any rendering, some of whose values are updated: the result differs in the first field of each given name only. Non-trivial: at least one value is set.", func(c *hx.C) {
		scoped := flip(c, "scoped")
		_, render, names := genFieldXML(c, scoped)
		data, want := genFieldData(c, names)
		before := show(map[string]interface{}(data))
		c.Keep("data", data)
		src := render(nil)
		var out string
		var err error
		if scoped || flip(c, "values") {
			out, err = xfa.UpdateXFAValues(src, data, false)
		} else {
			out, err = xfa.UpdateXFAFieldValues(src, data, false)
		}
		if err != nil {
			c.Fail("updating: %v\n%s", err, src)
		}
		c.See("updated.xml", []byte(out))
		if show(map[string]interface{}(data)) != before {
			c.Fail("updating changed the values it was given")
		}
		if err := sameXML(out, render(want)); err != nil {
			c.Fail("updating %#v in\n%s\ngives\n%s\n%v", data, src, out, err)
		}
		if len(want) > 0 {
			c.NT(src)
		} else if out != src {
			c.Fail("updating nothing in\n%s\ngives\n%s", src, out)
		}
	})
}
