package props

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"io"
	"sort"
	"strings"

	"verif/harness/hx"
	"verif/harness/ref"

	"github.com/benedoc-inc/pdfer/core/parse"
	"github.com/benedoc-inc/pdfer/core/write"
	"github.com/benedoc-inc/pdfer/forms"
	"github.com/benedoc-inc/pdfer/forms/xfa"
	"github.com/benedoc-inc/pdfer/types"
)

var packetNames = []string{"template", "datasets", "config", "localeSet", "connectionSet", "stylesheet", "xmp", "signature", "sourceSet"}

// packetOf returns the member of the structure a packet is reported in.
func packetOf(s *xfa.XFAStreams, name string) **xfa.XFAStreamInfo {
	switch name {
	case "template":
		return &s.Template
	case "datasets":
		return &s.Datasets
	case "config":
		return &s.Config
	case "localeSet":
		return &s.LocaleSet
	case "connectionSet":
		return &s.ConnectionSet
	case "stylesheet":
		return &s.Stylesheet
	case "xmp":
		return &s.XMP
	case "signature":
		return &s.Signature
	}
	return &s.SourceSet
}

// genPacket draws the contents of a packet: any bytes.
func genPacket(c *hx.C, label string) []byte {
	switch num(c, label+"kind", 0, 6) {
	case 0:
		return []byte{}
	case 1:
		return nastyBytes(c, label+"n", 6)
	case 2:
		return blob(c, label+"b", num(c, label+"l", 0, 200))
	case 3:
		return bytes.Repeat([]byte("<subform name=\"s\">\r\n</subform>"), num(c, label+"rep", 1, 4000))
	case 4: // looks compressed itself
		return ref.Deflate([]byte("<template/>"))
	case 5:
		return []byte(pick(c, label+"end", "\n", "\r", "\r\n", " ", "x\r", "x\n", "\nendstream", "a\nendstream\nendobj\n"))
	}
	return []byte("<" + pick(c, label, "template", "xfa:datasets", "config") + ">" + genText(c, label+"t") + "</x>")
}

type xpacket struct {
	name string
	ref  ref.Ref
	data []byte
}

// mxfa is a document with XFA packets.
type mxfa struct {
	f       *fd
	b, pw   []byte
	packets []xpacket
	filters map[string]bool
}

func genXFADoc(c *hx.C, contents func(name string) []byte, need ...string) *mxfa {
	return genXFADocFor(c, func(f *fd) (pw []byte) {
		if oneIn(c, "encrypt", 3) {
			f.user, f.owner = []byte("user"), []byte("owner")
			if oneIn(c, "nouserpw", 3) {
				f.user = []byte{}
			}
			pw = pick(c, "bywhom", f.user, f.owner)
		}
		return pw
	}, contents, need...)
}

// genXFADocFor draws a document whose encryption the given function sets, which
// returns the password to open it with.
func genXFADocFor(c *hx.C, encrypt func(f *fd) []byte, contents func(name string) []byte, need ...string) *mxfa {
	f := newFD(c)
	m := &mxfa{f: f, filters: map[string]bool{}}
	m.pw = encrypt(f)
	root, _ := f.pageTree(count(c, "pages", 1, 2, 25), func(i int) (ref.Dict, ref.Dict) {
		return ref.Dict{{K: "Contents", V: f.stream(nil, []byte(fmt.Sprintf("BT (page %d) Tj ET", i)))}},
			ref.Dict{{K: "MediaBox", V: ref.Arr{0, 0, 612, 792}}, {K: "Resources", V: ref.Dict{}}}
	})
	names := append([]string{}, packetNames...)
	names = append(names, "preamble", "postamble", "form", "xdp:xdp", "Größe", "a(b")
	drop := func(name string) {
		for i, n := range names {
			if n == name {
				names = append(names[:i], names[i+1:]...)
				return
			}
		}
	}
	for _, n := range need {
		drop(n)
	}
	for i, n := 0, num(c, "packets", 1-min(1, len(need)), 8); i < n && len(names) > 0; i++ {
		name := names[num(c, "packet", 0, len(names)-1)]
		drop(name)
		m.packets = append(m.packets, xpacket{name: name})
	}
	for _, n := range need {
		at := num(c, "needat", 0, len(m.packets))
		m.packets = append(m.packets[:at:at], append([]xpacket{{name: n}}, m.packets[at:]...)...)
	}
	arr := ref.Arr{}
	for i := range m.packets {
		p := &m.packets[i]
		p.data = contents(p.name)
		d := ref.Dict{}
		if flip(c, "ptype") {
			d = append(d, ref.KV{K: "Type", V: ref.Name("EmbeddedFile")})
		}
		if oneIn(c, "pparams", 3) {
			d = append(d, ref.KV{K: "Params", V: ref.Dict{{K: "Length", V: 7}, {K: "S", V: ref.Str{B: nastyBytes(c, "param", 2)}}}})
		}
		p.ref = f.stream(d, p.data)
		m.filters[p.name] = f.objs[p.ref.N].(*ref.Stream).D.Has("Filter")
		var s ref.Str
		switch num(c, "namestr", 0, 3) {
		case 0:
			s = ref.Str{B: utf16Mark(p.name)}
		case 1:
			s = ref.Str{B: []byte(p.name), Hex: true}
		default:
			s = ref.Str{B: []byte(p.name)}
		}
		if p.name == "Größe" {
			s.B = utf16Mark(p.name)
		}
		arr = append(arr, f.ind(s), p.ref)
	}
	form := ref.Dict{{K: "Fields", V: f.ind(ref.Arr{})}, {K: "DA", V: ref.Str{B: []byte("/XFA [(template) 1 0 R]")}}}
	at := num(c, "xfaat", 0, len(form))
	form = append(form[:at:at], append(ref.Dict{{K: "XFA", V: f.ind(arr)}}, form[at:]...)...)
	cat := ref.Dict{{K: "Type", V: ref.Name("Catalog")}, {K: "Pages", V: root}}
	at = num(c, "format", 0, len(cat))
	cat = append(cat[:at:at], append(ref.Dict{{K: "AcroForm", V: f.ind(form)}}, cat[at:]...)...)
	f.trailer = ref.Dict{{K: "Root", V: f.add(cat)}}
	if oneIn(c, "info", 3) {
		f.trailer = append(f.trailer, ref.KV{K: "Info", V: f.add(ref.Dict{{K: "Title", V: ref.Str{B: []byte("/AcroForm 1 0 R /Root 1 0 R")}}})})
	}
	m.b = f.emit()
	c.Dump("xfa.pdf", m.b)
	return m
}

// encInfo opens the document for its encryption, as callers of the XFA functions do.
func encInfo(c *hx.C, b, pw []byte) *types.PDFEncryption {
	c.Helper()
	if pw == nil {
		return nil
	}
	pdf, err := parse.OpenWithOptions(b, parse.ParseOptions{Password: pw})
	if err != nil {
		c.Fail("Open: %v", err)
	}
	return pdf.Encryption()
}

// check compares the packets reported with those of the model.
func (m *mxfa) check(b []byte, enc *types.PDFEncryption) (*xfa.XFAStreams, error) {
	s, err := xfa.ExtractAllXFAStreams(b, enc, false)
	if err != nil {
		return nil, fmt.Errorf("ExtractAllXFAStreams: %v", err)
	}
	want := map[string]xpacket{}
	for _, p := range m.packets {
		want[p.name] = p
	}
	for _, name := range packetNames {
		info := *packetOf(s, name)
		p, ok := want[name]
		if !ok {
			if info != nil {
				return nil, fmt.Errorf("reports a packet %s, there is none", name)
			}
			continue
		}
		if info == nil {
			return nil, fmt.Errorf("reports no packet %s", name)
		}
		if !bytes.Equal(info.Data, p.data) {
			return nil, fmt.Errorf("packet %s is %d bytes %.80q, want %d bytes %.80q", name, len(info.Data), info.Data, len(p.data), p.data)
		}
		if info.ObjectNumber != p.ref.N {
			return nil, fmt.Errorf("packet %s is object %d, want %d", name, info.ObjectNumber, p.ref.N)
		}
		if info.Compressed != m.filters[name] {
			return nil, fmt.Errorf("packet %s: compressed %v, want %v", name, info.Compressed, m.filters[name])
		}
	}
	data, num, err := xfa.FindXFADatasetsStream(b, enc, false)
	if p, ok := want["datasets"]; ok {
		if err != nil || num != p.ref.N || !bytes.Equal(data, p.data) {
			return nil, fmt.Errorf("FindXFADatasetsStream: %d bytes of object %d (%v), want %d of %d", len(data), num, err, len(p.data), p.ref.N)
		}
	} else if err == nil {
		return nil, fmt.Errorf("FindXFADatasetsStream finds object %d, there is none", num)
	}
	return s, nil
}

func (m *mxfa) key() string {
	var k strings.Builder
	for _, p := range m.packets {
		fmt.Fprintf(&k, "%s %d %x;", p.name, p.ref.N, fnvb(p.data))
	}
	return k.String()
}

// replaced checks an updated document: the packets changed hold the data of the model, all else
// is as it was.
func (m *mxfa) replaced(before *ref.Doc, out []byte, names map[string]bool) error {
	after, err := strictErr(out, m.pw, nil)
	if err != nil {
		return fmt.Errorf("the result is not valid: %v", err)
	}
	changed := map[int]func(was, is ref.Obj) error{}
	for _, p := range m.packets {
		p := p
		if !names[p.name] {
			continue
		}
		changed[p.ref.N] = func(was, is ref.Obj) error {
			st, ok := is.(*ref.Stream)
			if !ok {
				return fmt.Errorf("no longer a stream")
			}
			data, err := ref.Decode(st)
			if err != nil {
				return err
			}
			if !bytes.Equal(data, p.data) {
				return fmt.Errorf("packet %s holds %d bytes %.80q, want %d bytes %.80q", p.name, len(data), data, len(p.data), p.data)
			}
			return dictLess(was.(*ref.Stream).D, st.D, "Filter", "DecodeParms", "Length")
		}
	}
	return sameElse(before, after, changed)
}

// xmlText draws text an XML document can hold, with no white space around it.
func xmlText(c *hx.C, label string) string {
	s := genText(c, label)
	if flip(c, label+"mark") {
		s += pick(c, label+"m", "<b>", "a & b", "&amp;", "]]>", "\"q\" 'p'", "<!--", "</value>", "</field>", "a\nb", "a\tb", "a\r\nb", "x>y", "&#65;", "<![CDATA[", "${1}", "\\1")
	}
	s = strings.Map(func(r rune) rune {
		if r == '\t' || r == '\n' || r == '\r' || r >= ' ' && r != 0xfffd && r != 0xfffe && r != 0xffff {
			return r
		}
		return -1
	}, s)
	return strings.TrimSpace(s)
}

// esc escapes text for XML in one of several ways.
func esc(c *hx.C, label, s string, attr byte) string {
	if attr == 0 && s != "" && !strings.Contains(s, "]]>") && !strings.Contains(s, "\r") && oneIn(c, label+"cdata", 4) {
		return "<![CDATA[" + s + "]]>"
	}
	hex := oneIn(c, label+"num", 3)
	var out strings.Builder
	for _, r := range s {
		switch {
		case r == '<' || r == '&' || r == '\r' || r == '>' || r == '"' && attr == '"' || r == '\'' && attr == '\'' || attr != 0 && (r == '\n' || r == '\t'):
			named := map[rune]string{'<': "&lt;", '&': "&amp;", '>': "&gt;", '"': "&quot;", '\'': "&apos;"}[r]
			if named == "" || hex {
				named = fmt.Sprintf("&#x%X;", r)
			}
			out.WriteString(named)
		default:
			out.WriteRune(r)
		}
	}
	return out.String()
}

// xmlNode is an element of a parsed document.
type xmlNode struct {
	name  xml.Name
	attrs []string
	text  string
	kids  []*xmlNode
}

// parseXML reads a document into a tree; white space between elements and comments do not count.
func parseXML(s string) (*xmlNode, error) {
	d := xml.NewDecoder(strings.NewReader(s))
	top := &xmlNode{}
	stack := []*xmlNode{top}
	for {
		t, err := d.Token()
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}
		cur := stack[len(stack)-1]
		switch t := t.(type) {
		case xml.StartElement:
			n := &xmlNode{name: t.Name}
			for _, a := range t.Attr {
				n.attrs = append(n.attrs, fmt.Sprintf("%s:%s=%q", a.Name.Space, a.Name.Local, a.Value))
			}
			sort.Strings(n.attrs)
			cur.kids = append(cur.kids, n)
			stack = append(stack, n)
		case xml.EndElement:
			if len(cur.kids) > 0 {
				cur.text = strings.TrimSpace(cur.text)
			}
			stack = stack[:len(stack)-1]
		case xml.CharData:
			cur.text += string(t)
		}
	}
	if len(stack) != 1 {
		return nil, fmt.Errorf("unclosed elements")
	}
	top.text = strings.TrimSpace(top.text)
	return top, nil
}

// canon renders the tree, with a field's value before its other parts.
func (n *xmlNode) canon(indent string) string {
	var out strings.Builder
	fmt.Fprintf(&out, "%s%s %s %q\n", indent, n.name, n.attrs, n.text)
	kids := append([]*xmlNode{}, n.kids...)
	if n.name.Local == "field" {
		sort.SliceStable(kids, func(i, j int) bool { return kids[i].name.Local == "value" && kids[j].name.Local != "value" })
	}
	for _, k := range kids {
		out.WriteString(k.canon(indent + " "))
	}
	return out.String()
}

// xfield is a field of a generated data packet.
type xfield struct {
	name  string
	value *string // nil: none
	slot  string  // where it is in the packet
	data  bool    // in the data element
}

// genFieldXML draws a packet with fields and renders it for given values.
func genFieldXML(c *hx.C, scoped bool) (fields []*xfield, render func(map[string]string) string, names []string) {
	type part struct {
		text string
		f    *xfield
		full [2]string // the text around the value, when there is or must be one
	}
	var parts []part
	put := func(s string) { parts = append(parts, part{text: s}) }
	ws := func(label string) string { return pick(c, label, "", "", "\n", "\n  ", " ", "\r\n\t") }
	seen := map[string]bool{}
	newName := func() string {
		n := pick(c, "fname", "a", "b", "field", "First Name", "a.b", "form1[0].x", "Größe", "日本", "a&b", "x<y", "q\"q", "p'p", "value", "data", "$1", "ab")
		for seen[n] {
			n += "x"
		}
		seen[n] = true
		return n
	}
	field := func(name string, inData bool) {
		f := &xfield{name: name, data: inData}
		fields = append(fields, f)
		q := pick(c, "quote", byte('"'), byte('\''))
		attr := fmt.Sprintf("name%s=%s%c%s%c", pick(c, "eqa", "", "", " "), pick(c, "eqb", "", "", "\n"), q, esc(c, "nameesc", name, q), q)
		other := pick(c, "oattr", "", "", ` w="1"`, ` xml:lang="en"`, ` title="name='x'"`)
		if flip(c, "attrfirst") {
			attr = strings.TrimLeft(other, " ") + " " + attr
		} else {
			attr += other
		}
		attr = " " + strings.TrimSpace(attr)
		pre := pick(c, "pre", "", "", ws("prews"), "<label>value</label>", "<!-- <value>no</value> -->", "<items><text>a</text></items>", "<ui><value>0</value></ui>", "<ui><x:value xmlns:x='x'/></ui>")
		post := pick(c, "post", "", "", ws("postws"), "<desc>x</desc>", "<!--</field>-->", "<bind match='none'/>")
		switch num(c, "fform", 0, 4) {
		case 0: // no value
			if flip(c, "selfclosed") {
				parts = append(parts, part{text: "<field" + attr + "/>", f: f, full: [2]string{"<field" + attr + "><value>", "</value></field>"}})
				return
			}
			parts = append(parts, part{text: "<field" + attr + ">" + pre + "</field>", f: f, full: [2]string{"<field" + attr + ">" + pre + "<value>", "</value></field>"}})
			return
		case 1:
			put("<field" + attr + ">" + pre)
			el := pick(c, "valueelem", "value", "value", "xfa:value")
			sp := pick(c, "valuesp", "", " ", " x='/'")
			parts = append(parts, part{text: "<" + el + sp + "/>", f: f, full: [2]string{"<" + el + sp + ">", "</" + el + ">"}})
			put(post + "</field>")
			e := ""
			f.value = &e
			return
		}
		put("<field" + attr + ">" + pre)
		v := xmlText(c, "oldv")
		f.value = &v
		vattr := pick(c, "vattr", "", "", " xml:space=\"preserve\"", " ")
		parts = append(parts, part{text: "<value" + vattr + ">" + esc(c, "oldesc", v, 0) + "</value>", f: f, full: [2]string{"<value" + vattr + ">", "</value>"}})
		put(post + "</field>")
	}
	decoys := func(label string) {
		switch num(c, label, 0, 7) {
		case 0:
			put(`<!-- <field name="a"><value>no</value></field> -->`)
		case 1:
			put(`<note><![CDATA[<field name="b"><value>no</value></field>]]></note>`)
		case 2:
			put(`<fields name="a"><value>no</value></fields>`)
		case 3:
			put(`<x field="a"><value>no</value></x>`)
		case 4:
			put(ws(label + "ws"))
		}
	}
	var group func(depth int, inData bool)
	group = func(depth int, inData bool) {
		for i, n := 0, count(c, "members", 1, 3, 60); i < n; i++ {
			decoys("decoy")
			if depth > 0 && oneIn(c, "nest", 3) {
				g := pick(c, "gname", "group", "form1", "xfa:grp", "sub-form", "G_1", "datax")
				if inData && oneIn(c, "gdata", 5) {
					g = pick(c, "gdataname", "data", "xfa:data")
				}
				put("<" + g + ">" + ws("gws"))
				group(depth-1, inData)
				put("</" + g + ">" + ws("gws2"))
				continue
			}
			if len(names) > 0 && oneIn(c, "again", 8) {
				field(names[num(c, "which", 0, len(names)-1)], inData) // only the first of a name is set
			} else {
				name := newName()
				names = append(names, name)
				field(name, inData)
			}
			put(ws("fws"))
		}
	}
	put(pick(c, "prolog", "", "", `<?xml version="1.0" encoding="UTF-8"?>`+"\n", "<!-- <data> -->"))
	if scoped {
		put(`<xfa:datasets xmlns:xfa="http://www.xfa.org/schema/xfa-data/1.0/">` + ws("dws"))
		if oneIn(c, "outside", 3) {
			// a description outside the data, with a field of a name that is also in the data
			put("<dd:dataDescription xmlns:dd=\"http://ns.adobe.com/data-description/\">")
			field("a", false)
			put("</dd:dataDescription>")
		}
		d := pick(c, "dataelem", "data", "xfa:data")
		put("<" + d + pick(c, "dattr", "", " xfa:dataNode=\"dataGroup\"") + ">")
		group(2, true)
		put("</" + d + ">")
		if oneIn(c, "after", 3) {
			// a field after the data, of a name in the data or not
			put("<dd:dataDescription xmlns:dd=\"http://ns.adobe.com/data-description/\">")
			name := names[num(c, "aftername", 0, len(names)-1)]
			if flip(c, "afternew") {
				name = newName()
				names = append(names, name)
			}
			field(name, false)
			put("</dd:dataDescription>")
		}
		put(ws("dws2") + "</xfa:datasets>")
	} else {
		put(`<form xmlns:xfa="x">`)
		group(2, false)
		put("</form>")
	}
	used := map[string]bool{}
	for _, f := range fields {
		if f.data == scoped && !used[f.name] {
			used[f.name] = true
			f.slot = f.name
		}
	}
	render = func(values map[string]string) string {
		var out strings.Builder
		for _, p := range parts {
			v, ok := "", false
			if p.f != nil && p.f.slot != "" {
				v, ok = values[p.f.slot]
			}
			if !ok {
				out.WriteString(p.text)
				continue
			}
			var e strings.Builder
			xml.EscapeText(&e, []byte(v))
			out.WriteString(p.full[0] + e.String() + p.full[1])
		}
		return out.String()
	}
	return fields, render, names
}

// genFieldData draws new values for some of the names, and one that no field has.
func genFieldData(c *hx.C, names []string) (types.FormData, map[string]string) {
	data, want := types.FormData{}, map[string]string{}
	for _, n := range names {
		if !flip(c, "setit") {
			continue
		}
		switch num(c, "vkind", 0, 5) {
		case 0:
			i := num(c, "vint", -1000, 1<<40)
			data[n], want[n] = i, fmt.Sprint(i)
		case 1:
			b := flip(c, "vbool")
			data[n], want[n] = b, fmt.Sprint(b)
		case 2:
			x := pick(c, "vfloat", 2.5, -0.125, 100.0)
			data[n], want[n] = x, map[float64]string{2.5: "2.5", -0.125: "-0.125", 100.0: "100"}[x]
		case 3:
			data[n], want[n] = "", ""
		default:
			s := xmlText(c, "newv")
			data[n], want[n] = s, s
		}
	}
	if flip(c, "unknown") {
		data["no such field"] = "x"
	}
	return data, want
}

// sameXML compares two documents by their elements, attributes and texts.
func sameXML(is, want string) error {
	a, err := parseXML(is)
	if err != nil {
		return fmt.Errorf("not well formed: %v\n%s", err, is)
	}
	b, err := parseXML(want)
	if err != nil {
		return fmt.Errorf("harness: %v\n%s", err, want)
	}
	if x, y := a.canon(""), b.canon(""); x != y {
		return fmt.Errorf("has\n%swant\n%s", x, y)
	}
	return nil
}

func init() {
	hx.Reg("C19", "extract", 1500, "Documents with 1 to 8 XFA packets in any order (known kinds and others), with any contents, compressed in several ways or not, names and arrays written in all forms, plain and encrypted, in any file form: the packets reported are those embedded, byte for byte. Non-trivial: at least two packets.", func(c *hx.C) {
		m := genXFADoc(c, func(name string) []byte { return genPacket(c, name) })
		same := guard(m.b)
		if _, err := m.check(m.b, encInfo(c, m.b, m.pw)); err != nil {
			c.Fail("%v", err)
		}
		if !same() {
			c.Fail("the input was modified")
		}
		if len(m.packets) > 1 {
			c.NT(m.key())
		}
		c.ClassIf(m.pw != nil, "encrypted")
		c.Class(m.f.form[:5])
	})
	hx.Reg("C19", "rebuild", 1000, "The same documents with some packets replaced by others of any size, 1 to 3 times. After each the file is read strictly: the packets replaced hold what was supplied, all other objects are as before, and the packets reported are those of the model. Non-trivial: at least one packet is replaced.", func(c *hx.C) {
		m := genXFADoc(c, func(name string) []byte { return genPacket(c, name) })
		key := ""
		for i, n := 0, count(c, "rounds", 1, 3, 10); i < n; i++ {
			enc := encInfo(c, m.b, m.pw)
			s, err := m.check(m.b, enc)
			if err != nil {
				c.Fail("%v", err)
			}
			if flip(c, "sparse") {
				s = &xfa.XFAStreams{}
			}
			names := map[string]bool{}
			for j := range m.packets {
				p := &m.packets[j]
				known := false
				for _, k := range packetNames {
					known = known || k == p.name
				}
				if !known || !flip(c, "change") {
					continue
				}
				p.data = genPacket(c, "new")
				names[p.name] = true
				*packetOf(s, p.name) = &xfa.XFAStreamInfo{Data: append([]byte{}, p.data...), ObjectNumber: p.ref.N, Compressed: flip(c, "saycomp")}
			}
			before := strictDoc(c, m.b, m.pw, nil)
			same := guard(m.b)
			c.Keep("streams", s)
			out, err := xfa.RebuildPDFFromXFAStreams(m.b, s, enc, false)
			if err != nil {
				c.Fail("RebuildPDFFromXFAStreams: %v", err)
			}
			if !same() {
				c.Fail("the input was modified")
			}
			c.Dump("rebuilt.pdf", out)
			if err := m.replaced(before, out, names); err != nil {
				c.Fail("rebuilt: %v", err)
			}
			m.b = out
			// a replaced packet may be stored compressed or not
			after := strictDoc(c, out, m.pw, nil)
			for _, p := range m.packets {
				if names[p.name] {
					o, _ := after.Get(p.ref.N)
					m.filters[p.name] = o.(*ref.Stream).D.Has("Filter")
				}
			}
			if _, err := m.check(m.b, encInfo(c, m.b, m.pw)); err != nil {
				c.Fail("rebuilt: %v", err)
			}
			if len(names) > 0 {
				key = m.key()
			}
		}
		if key != "" {
			c.NT(key)
		}
		c.ClassIf(m.pw != nil, "encrypted")
		c.Class(m.f.form[:5])
	})
	hx.Reg("C19", "build", 1000, "New documents from sets of packets, through either builder: the file is valid, its XFA array has the packets in order with their names and contents, and extracting gives the packets back. Non-trivial: at least two packets.", func(c *hx.C) {
		var list []xpacket
		names := append([]string{}, packetNames...)
		free := flip(c, "free")
		if free {
			names = append(names, "preamble", "postamble", "a)b(", "back\\", "日本", "x y")
		}
		for i, n := 0, count(c, "packets", 1, 6, 9); i < n; i++ {
			j := num(c, "packet", 0, len(names)-1)
			list = append(list, xpacket{name: names[j], data: genPacket(c, "data")})
			names = append(names[:j], names[j+1:]...)
		}
		var b []byte
		var err error
		if free {
			var in []write.XFAStreamData
			for _, p := range list {
				in = append(in, write.XFAStreamData{Name: p.name, Data: append([]byte{}, p.data...), Compress: flip(c, "compress")})
			}
			b, err = write.NewXFABuilder(false).BuildFromXFA(held(c, in))
		} else {
			s := &xfa.XFAStreams{}
			for _, p := range list {
				*packetOf(s, p.name) = &xfa.XFAStreamInfo{Data: append([]byte{}, p.data...)}
			}
			b, err = xfa.BuildPDFFromXFAStreams(held(c, s), false)
		}
		if err != nil {
			c.Fail("building: %v", err)
		}
		c.Dump("built.pdf", b)
		d := strictDoc(c, b, nil, nil)
		cat, err := d.Catalog()
		if err != nil {
			c.Fail("catalog: %v", err)
		}
		if _, err := d.Pages(); err != nil {
			c.Fail("pages: %v", err)
		}
		form, err := d.Dict(cat.Get("AcroForm"))
		if err != nil {
			c.Fail("AcroForm: %v", err)
		}
		o, err := d.Resolve(form.Get("XFA"))
		arr, ok := o.(ref.Arr)
		if err != nil || !ok || len(arr) != 2*len(list) {
			c.Fail("XFA is %s (%v), want %d packets", canonOrNone(o), err, len(list))
		}
		byName := map[string][]byte{}
		for i := 0; i < len(arr); i += 2 {
			name, err := textOf(arr[i])
			if err != nil {
				c.Fail("packet name %s: %v", ref.Canon(arr[i]), err)
			}
			if free && name != list[i/2].name {
				c.Fail("packet %d is %q, want %q", i/2, name, list[i/2].name)
			}
			so, err := d.Resolve(arr[i+1])
			st, ok := so.(*ref.Stream)
			if err != nil || !ok {
				c.Fail("packet %q is no stream (%v)", name, err)
			}
			if byName[name], err = ref.Decode(st); err != nil {
				c.Fail("packet %q: %v", name, err)
			}
		}
		s, err := xfa.ExtractAllXFAStreams(b, nil, false)
		if err != nil {
			c.Fail("ExtractAllXFAStreams: %v", err)
		}
		key := ""
		for _, p := range list {
			if got, ok := byName[p.name]; !ok || !bytes.Equal(got, p.data) {
				c.Fail("packet %q holds %.80q, want %.80q", p.name, got, p.data)
			}
			key += fmt.Sprintf("%s %x;", p.name, fnvb(p.data))
		}
		for _, n := range packetNames {
			info := *packetOf(s, n)
			data, ok := byName[n]
			if (info != nil) != ok || ok && !bytes.Equal(info.Data, data) {
				c.Fail("extracted packet %s is %+v, want %v %.80q", n, info, ok, data)
			}
		}
		if len(list) > 1 {
			c.NT(key)
		}
		c.ClassIf(free, "BuildFromXFA")
	})
	hx.Reg("C19", "update", 1200, "Documents with a data packet whose fields are updated through UpdateXFAInPDF or the form interface: the packet differs in the named values only, everything else in the file is as before. Non-trivial: at least one value is set.", func(c *hx.C) {
		var render func(map[string]string) string
		var names []string
		viaForm := flip(c, "viaform")
		need := []string{"datasets"}
		if viaForm {
			need = append(need, "template")
		}
		m := genXFADoc(c, func(name string) []byte {
			if name != "datasets" {
				if name == "template" && viaForm {
					return []byte(`<template><field name="t"><value>v</value></field></template>`)
				}
				return genPacket(c, name)
			}
			_, render, names = genFieldXML(c, true)
			return []byte(render(nil))
		}, need...)
		data, want := genFieldData(c, names)
		enc := encInfo(c, m.b, m.pw)
		before := strictDoc(c, m.b, m.pw, nil)
		var out []byte
		var err error
		if viaForm {
			if kind, err := forms.Detect(m.b, m.pw, false); err != nil || kind != forms.FormTypeXFA {
				c.Fail("Detect: %v %v", kind, err)
			}
			form, err := forms.Extract(m.b, m.pw, false)
			if err != nil {
				c.Fail("Extract: %v", err)
			}
			pw := m.pw
			if flip(c, "ownpw") {
				pw = nil
			}
			if form.Type() != forms.FormTypeXFA {
				c.Fail("Type is %v", form.Type())
			}
			out, err = form.Fill(held(c, m.b), held(c, data), held(c, pw), false)
			if err != nil {
				c.Fail("Fill: %v", err)
			}
		} else {
			out, err = xfa.UpdateXFAInPDF(held(c, m.b), held(c, data), held(c, enc), false)
			if err != nil {
				c.Fail("UpdateXFAInPDF: %v", err)
			}
		}
		c.Dump("updated.pdf", out)
		s, err := xfa.ExtractAllXFAStreams(out, encInfo(c, out, m.pw), false)
		if err != nil || s.Datasets == nil {
			c.Fail("ExtractAllXFAStreams after the update: %v", err)
		}
		if err := sameXML(string(s.Datasets.Data), render(want)); err != nil {
			c.Fail("updating %#v: %v", data, err)
		}
		for i := range m.packets {
			if m.packets[i].name == "datasets" {
				m.packets[i].data = s.Datasets.Data
			}
		}
		if err := m.replaced(before, out, map[string]bool{"datasets": true}); err != nil {
			c.Fail("updated: %v", err)
		}
		if len(want) > 0 {
			c.NT(fmt.Sprintf("%x %v", fnvb(m.b), len(want)))
		}
		c.ClassIf(viaForm, "form interface")
		c.ClassIf(m.pw != nil, "encrypted")
	})
	hx.Reg("C19", "replace", 800, "The stored bytes of a stream of an unencrypted document replaced, 1 to 3 times: the stream holds exactly those bytes, all else is as before. Non-trivial: every case.", func(c *hx.C) {
		m := genXFADoc(c, func(name string) []byte { return genPacket(c, name) })
		if m.pw != nil {
			c.Class("encrypted, skipped")
			return
		}
		for i, n := 0, count(c, "rounds", 1, 3, 10); i < n; i++ {
			p := m.packets[num(c, "which", 0, len(m.packets)-1)]
			data := genPacket(c, "new")
			before := strictDoc(c, m.b, nil, nil)
			same := guard(m.b)
			out, err := xfa.ReplaceStreamInPDF(m.b, p.ref.N, append([]byte{}, data...), false)
			if err != nil {
				c.Fail("ReplaceStreamInPDF: %v", err)
			}
			if !same() {
				c.Fail("the input was modified")
			}
			c.Dump("replaced.pdf", out)
			after := strictDoc(c, out, nil, nil)
			if err := sameElse(before, after, map[int]func(was, is ref.Obj) error{p.ref.N: func(was, is ref.Obj) error {
				st, ok := is.(*ref.Stream)
				if !ok {
					return fmt.Errorf("no longer a stream")
				}
				if !bytes.Equal(st.Data, data) {
					return fmt.Errorf("holds %.80q, want %.80q", st.Data, data)
				}
				return dictLess(was.(*ref.Stream).D, st.D, "Length")
			}}); err != nil {
				c.Fail("replaced: %v", err)
			}
			m.b = out
		}
		c.NT(fmt.Sprintf("%x", fnvb(m.b)))
	})
}
