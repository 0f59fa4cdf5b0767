package props

import (
	"fmt"
	"regexp"
	"slices"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode/utf16"

	"github.com/benedoc-inc/pdfer/content/extract"
	"github.com/benedoc-inc/pdfer/core/write"
	"github.com/benedoc-inc/pdfer/types"
	"verif/harness/hx"
	"verif/harness/ref"
)

var textValues = []string{"Simple", "With (parens)", "un)balanced(", "back\\slash", "tail\\", "new\nline", "cr\rret", "tab\tstop", "/Name", "5 0 R", "for R", "naïve café", "日本語", "emoji 😀", "<<dict>>", "[arr]", "%pct", "endobj", "\\(", "\\n", "þÿ", "ÿþ", "é", "a\x00b", "\x1fctl", "D:20240101", "trailing ", " leading", "/Title (x)", "x) /Author (y", "\u200b", "€"}

func genText(c *hx.C, label string) string {
	s := pick(c, label, textValues...)
	if oneIn(c, label+"2", 4) {
		s += pick(c, label+"3", textValues...)
	}
	return s
}

// isoDate draws an accepted date input and the instant with zone it denotes.
func isoDate(c *hx.C, label string) (string, time.Time) {
	off := pick(c, label+"zone", 0, 0, 3600, -3600, 5*3600+1800, -(3*3600 + 1800), -1800, 1800, 14*3600, -12*3600, 5*3600+45*60)
	if oneIn(c, label+"anyzone", 4) {
		off = 60 * num(c, label+"zonemin", -14*60, 14*60)
	}
	t := time.Date(num(c, label+"y", 1970, 2099), time.Month(num(c, label+"m", 1, 12)), num(c, label+"d", 1, 28), num(c, label+"H", 0, 23), num(c, label+"M", 0, 59), num(c, label+"S", 0, 59), 0, time.FixedZone("", off))
	switch num(c, label+"fmt", 0, 5) {
	case 5: // already a PDF date
		zone := t.Format("-07'00")
		if off == 0 {
			zone = pick(c, label+"utc", "Z", "Z00'00'", "+00'00")
		} else {
			sign, a := '+', off
			if off < 0 {
				sign, a = '-', -off
			}
			zone = fmt.Sprintf("%c%02d'%02d", sign, a/3600, a%3600/60) + pick(c, label+"apostrophe", "", "'")
		}
		return t.Format("D:20060102150405") + zone, t
	case 0, 1:
		return t.Format("2006-01-02T15:04:05-07:00"), t
	case 2:
		u := time.Date(t.Year(), t.Month(), t.Day(), t.Hour(), t.Minute(), t.Second(), 0, time.UTC)
		return u.Format("2006-01-02T15:04:05"), u
	case 3:
		u := time.Date(t.Year(), t.Month(), t.Day(), t.Hour(), t.Minute(), t.Second(), 0, time.UTC)
		return u.Format("2006-01-02 15:04:05"), u
	default:
		u := time.Date(t.Year(), t.Month(), t.Day(), 0, 0, 0, 0, time.UTC)
		return u.Format("2006-01-02"), u
	}
}

var pdfDateRe = regexp.MustCompile(`^D:(\d{4})(\d\d)(\d\d)(\d\d)(\d\d)(\d\d)([+\-Z])(?:(\d\d)'(\d\d)'?)?$`)

func parsePDFDateStrict(s string) (time.Time, error) {
	m := pdfDateRe.FindStringSubmatch(s)
	if m == nil {
		return time.Time{}, fmt.Errorf("%q is not a PDF date", s)
	}
	n := make([]int, 10)
	for i := 1; i < 10; i++ {
		if i != 7 && m[i] != "" {
			n[i], _ = strconv.Atoi(m[i])
		}
	}
	off := n[8]*3600 + n[9]*60
	if m[7] == "-" {
		off = -off
	}
	return time.Date(n[1], time.Month(n[2]), n[3], n[4], n[5], n[6], 0, time.FixedZone("", off)), nil
}

type mdTimes struct{ creation, mod *time.Time }

// mdTimes holds the dates of the metadata records made.
var (
	mdMu    sync.Mutex
	mdDates = map[*types.DocumentMetadata]mdTimes{}
)

func timesOf(md *types.DocumentMetadata) mdTimes {
	mdMu.Lock()
	defer mdMu.Unlock()
	return mdDates[md]
}

func genMetadata(c *hx.C) *types.DocumentMetadata {
	md := &types.DocumentMetadata{}
	opt := func(label string, p *string) {
		if flip(c, "has"+label) {
			*p = genText(c, label)
		}
	}
	opt("title", &md.Title)
	opt("author", &md.Author)
	opt("subject", &md.Subject)
	opt("keywords", &md.Keywords)
	opt("creator", &md.Creator)
	opt("producer", &md.Producer)
	var dt mdTimes
	if flip(c, "hasCD") {
		s, t := isoDate(c, "cd")
		md.CreationDate, dt.creation = s, &t
	}
	if flip(c, "hasMD") {
		s, t := isoDate(c, "md")
		md.ModDate, dt.mod = s, &t
	}
	mdMu.Lock()
	if len(mdDates) > 1000 {
		clear(mdDates)
	}
	mdDates[md] = dt
	mdMu.Unlock()
	for i, n := 0, count(c, "custom", 0, 3, 40); i < n; i++ {
		if md.Custom == nil {
			md.Custom = map[string]string{}
		}
		k := pick(c, "ckey", "Department", "my key", "a/b", "Trapped2", "naïve", "X(1)", "hash#tag", "under_score", "dash-ed", "A<B>", "Title2", "Aut")
		md.Custom[k] = genText(c, "cval")
	}
	return md
}

// textOf decodes a text string by the rules of ISO 32000: BOM or PDFDocEncoding (ASCII here).
func textOf(o ref.Obj) (string, error) {
	s, ok := o.(ref.Str)
	if !ok {
		return "", fmt.Errorf("%v is not a string", o)
	}
	b := s.B
	if len(b) >= 2 && b[0] == 0xfe && b[1] == 0xff {
		if len(b)%2 != 0 {
			return "", fmt.Errorf("odd UTF-16 string %x", b)
		}
		var u []uint16
		for i := 2; i < len(b); i += 2 {
			u = append(u, uint16(b[i])<<8|uint16(b[i+1]))
		}
		return string(utf16.Decode(u)), nil
	}
	for _, x := range b {
		if x >= 0x7f || (x < ' ' && x != '\n' && x != '\r' && x != '\t') {
			return "", fmt.Errorf("string %x uses no mark but is not ASCII", b)
		}
	}
	return string(b), nil
}

func checkInfo(d *ref.Doc, md *types.DocumentMetadata) error {
	info, err := d.Dict(d.Trailer.Get("Info"))
	if err != nil {
		return err
	}
	want := map[string]string{"Title": md.Title, "Author": md.Author, "Subject": md.Subject, "Keywords": md.Keywords, "Creator": md.Creator, "Producer": md.Producer}
	for k, v := range md.Custom {
		want[k] = v
	}
	seen := 0
	for k, v := range want {
		if v == "" {
			if info.Has(k) {
				return fmt.Errorf("/%s present without a value", k)
			}
			continue
		}
		seen++
		got, err := textOf(info.Get(k))
		if err != nil || got != v {
			return fmt.Errorf("/%s is %q (%v), want %q", k, got, err, v)
		}
	}
	dt := timesOf(md)
	for k, t := range map[string]*time.Time{"CreationDate": dt.creation, "ModDate": dt.mod} {
		if t == nil && k == "CreationDate" {
			if info.Has(k) {
				return fmt.Errorf("/%s present without a value", k)
			}
			continue
		}
		seen++
		s, ok := info.Get(k).(ref.Str)
		if !ok {
			return fmt.Errorf("/%s is %v", k, info.Get(k))
		}
		got, err := parsePDFDateStrict(string(s.B))
		if err != nil {
			return fmt.Errorf("/%s: %v", k, err)
		}
		if t != nil {
			_, o1 := got.Zone()
			_, o2 := t.Zone()
			if !got.Equal(*t) || o1 != o2 {
				return fmt.Errorf("/%s is %s, want %s", k, s.B, t)
			}
		}
	}
	if len(info) != seen {
		return fmt.Errorf("info dictionary has %d entries, want %d: %s", len(info), seen, ref.Canon(info))
	}
	return nil
}

// genBookmarks draws an outline forest for the pages with the given object numbers.
func genBookmarks(c *hx.C, depth int, pages []int) []types.Bookmark {
	var out []types.Bookmark
	for i, n := 0, count(c, "bn", 1, 3, 80); i < n; i++ {
		b := types.Bookmark{Title: genText(c, "bt")}
		switch num(c, "bdest", 0, 5) {
		case 0, 1:
			b.PageNumber = num(c, "bp", 1, len(pages))
			if oneIn(c, "bboth", 6) { // the page number decides
				b.Destination = "elsewhere"
			}
		case 4: // an explicit destination
			b.Destination = fmt.Sprintf("[%d 0 R /%s]", pages[num(c, "be", 1, len(pages))-1], pick(c, "bfit", "Fit", "XYZ 0 792 null", "FitR 1 -2 3.5 4", "FitB", "XYZ 10 20 1.5"))
		case 5: // a named one
			b.Destination = pick(c, "bname", "chap.1", "Chapter (1", "a\\b)", "[not an array", "/Chapter1", "Section 1 R", "[1] 2", "12 0 R x")
		case 2:
			b.URI = pick(c, "uri", "https://example.com/", "http://x/a(b)c", "http://x/?q=\\", "mailto:a@b", "http://x/é")
		}
		if depth > 1 && oneIn(c, "bkids", 3) {
			b.Children = genBookmarks(c, depth-1, pages)
		}
		out = append(out, b)
	}
	return out
}

// readBookmarks returns the forest as it reads back: an explicit destination gives its page.
func readBookmarks(bs []types.Bookmark, pageNums []int) []types.Bookmark {
	var out []types.Bookmark
	for _, b := range bs {
		if dest, ok := explicit(b.Destination); ok && b.PageNumber == 0 {
			b.PageNumber = slices.Index(pageNums, dest[0].(ref.Ref).N) + 1
		}
		if b.PageNumber > 0 {
			b.Destination = ""
		}
		b.Children = readBookmarks(b.Children, pageNums)
		out = append(out, b)
	}
	return out
}

// explicit returns the array that a destination string holds.
func explicit(dest string) (ref.Arr, bool) {
	o, err := ref.ParseObject([]byte(dest))
	a, ok := o.(ref.Arr)
	return a, ok && err == nil && len(a) > 1
}

func countBookmarks(bs []types.Bookmark) int {
	n := len(bs)
	for _, b := range bs {
		n += countBookmarks(b.Children)
	}
	return n
}

// checkOutline verifies the outline tree strictly against the requested bookmarks.
func checkOutline(d *ref.Doc, bs []types.Bookmark, pageNums []int) error {
	cat, err := d.Catalog()
	if err != nil {
		return err
	}
	root, ok := cat.Get("Outlines").(ref.Ref)
	if !ok {
		return fmt.Errorf("catalog /Outlines is %v", cat.Get("Outlines"))
	}
	seen := map[int]bool{}
	var level func(parent ref.Ref, bs []types.Bookmark, path string) error
	level = func(parent ref.Ref, bs []types.Bookmark, path string) error {
		pd, err := d.Dict(parent)
		if err != nil {
			return err
		}
		if len(bs) == 0 {
			if pd.Has("First") || pd.Has("Last") || pd.Has("Count") {
				return fmt.Errorf("%s: leaf with child links", path)
			}
			return nil
		}
		if pd.Get("Count") != ref.Obj(countBookmarks(bs)) {
			return fmt.Errorf("%s: /Count %v, want %d", path, pd.Get("Count"), countBookmarks(bs))
		}
		cur, ok := pd.Get("First").(ref.Ref)
		if !ok {
			return fmt.Errorf("%s: /First %v", path, pd.Get("First"))
		}
		var prev ref.Obj
		for i, b := range bs {
			at := fmt.Sprintf("%s.%d", path, i)
			if seen[cur.N] {
				return fmt.Errorf("%s: item %d reached twice", at, cur.N)
			}
			seen[cur.N] = true
			it, err := d.Dict(cur)
			if err != nil {
				return fmt.Errorf("%s: %v", at, err)
			}
			title, err := textOf(it.Get("Title"))
			if err != nil || title != b.Title {
				return fmt.Errorf("%s: title %q (%v), want %q", at, title, err, b.Title)
			}
			if p, ok := it.Get("Parent").(ref.Ref); !ok || p != parent {
				return fmt.Errorf("%s: /Parent %v, want %v", at, it.Get("Parent"), parent)
			}
			if ref.Canon(it.Get("Prev")) != ref.Canon(prev) {
				return fmt.Errorf("%s: /Prev %v, want %v", at, it.Get("Prev"), prev)
			}
			dest, hasDest := it.Get("Dest").(ref.Arr)
			if b.PageNumber > 0 {
				if !hasDest || len(dest) < 2 || dest[0] != ref.Obj(ref.Ref{N: pageNums[b.PageNumber-1]}) {
					return fmt.Errorf("%s: destination %v, want page %d (object %d)", at, it.Get("Dest"), b.PageNumber, pageNums[b.PageNumber-1])
				}
			} else if b.Destination != "" {
				var want ref.Obj = ref.Str{B: []byte(b.Destination)}
				if e, ok := explicit(b.Destination); ok {
					want = e
				} else if b.Destination[0] == '/' {
					want = ref.Name(b.Destination[1:])
				}
				if ref.Canon(it.Get("Dest")) != ref.Canon(want) {
					return fmt.Errorf("%s: destination %v, want %v", at, it.Get("Dest"), want)
				}
			} else if it.Has("Dest") {
				return fmt.Errorf("%s: unexpected destination %v", at, it.Get("Dest"))
			}
			if b.URI != "" {
				ad, err := d.Dict(it.Get("A"))
				if err != nil {
					return fmt.Errorf("%s: action: %v", at, err)
				}
				u, ok := ad.Get("URI").(ref.Str)
				if !ok || string(u.B) != b.URI || ad.Get("S") != ref.Obj(ref.Name("URI")) {
					return fmt.Errorf("%s: action %s, want URI %q", at, ref.Canon(ad), b.URI)
				}
			} else if it.Has("A") {
				return fmt.Errorf("%s: unexpected action", at)
			}
			if err := level(cur, b.Children, at); err != nil {
				return err
			}
			prev = cur
			next, ok := it.Get("Next").(ref.Ref)
			if i == len(bs)-1 {
				if it.Has("Next") {
					return fmt.Errorf("%s: last item has /Next", at)
				}
				if pd.Get("Last") != ref.Obj(cur) {
					return fmt.Errorf("%s: /Last %v, want %v", path, pd.Get("Last"), cur)
				}
			} else if !ok {
				return fmt.Errorf("%s: no /Next", at)
			}
			cur = next
		}
		return nil
	}
	return level(root, bs, "outline")
}

// pdfDoc is PDFDocEncoding where it differs from Latin-1 (ISO 32000 table D.2), for characters used below.
var pdfDocSamples = []struct {
	b []byte
	s string
}{
	{[]byte("plain"), "plain"},
	{[]byte{0x80, 'x', 0x85}, "•x–"},
	{[]byte{0xA0, ' ', 0x92}, "€ ™"},
	{[]byte("caf\xe9 ole"), "café ole"},
	{[]byte{0x93, 'n', 'd'}, "ﬁnd"},
	{[]byte{'a', 0x18, 0x1F}, "a˘˜"},
	{[]byte{0xD7, 0xF7, 0xFF}, "×÷ÿ"},
	{[]byte{0x96, 'u', 'v', 'r', 'e'}, "Œuvre"},
	{[]byte("tab\tnl\n"), "tab\tnl\n"},
}

// foreignText draws a text string as other producers write it: PDFDocEncoding, UTF-16BE
// (hex or literal) or UTF-8 with a mark.
func foreignText(c *hx.C, label string) (ref.Str, string) {
	hex := flip(c, label+"hex")
	if oneIn(c, label+"pd", 3) {
		p := pick(c, label+"pds", pdfDocSamples...)
		return ref.Str{B: p.b, Hex: hex}, p.s
	}
	s := genText(c, label)
	ascii := true
	for _, r := range s {
		if r > 0x7e || r < 0x20 && r != '\n' && r != '\r' && r != '\t' {
			ascii = false
		}
	}
	switch k := num(c, label+"enc", 0, 2); {
	case k == 0 && ascii:
		return ref.Str{B: []byte(s), Hex: hex}, s
	case k == 1:
		return ref.Str{B: append([]byte{0xEF, 0xBB, 0xBF}, s...), Hex: hex}, s
	}
	b := []byte{0xfe, 0xff}
	for _, u := range utf16.Encode([]rune(s)) {
		b = append(b, byte(u>>8), byte(u))
	}
	return ref.Str{B: b, Hex: hex}, s
}

// sameBookmarks compares trees; want's Destination is "" when it is not judged.
func sameBookmarks(want, got []types.Bookmark, path string) error {
	if len(want) != len(got) {
		return fmt.Errorf("%s: %d bookmarks, want %d", path, len(got), len(want))
	}
	for i := range want {
		w, g, at := want[i], got[i], fmt.Sprintf("%s.%d", path, i)
		if w.Title != g.Title {
			return fmt.Errorf("%s: title %q, want %q", at, g.Title, w.Title)
		}
		if w.PageNumber != g.PageNumber {
			return fmt.Errorf("%s: page %d, want %d", at, g.PageNumber, w.PageNumber)
		}
		if w.URI != g.URI {
			return fmt.Errorf("%s: URI %q, want %q", at, g.URI, w.URI)
		}
		if w.Destination != "" && w.Destination != g.Destination {
			return fmt.Errorf("%s: destination %q, want %q", at, g.Destination, w.Destination)
		}
		if w.Destination == "" && w.PageNumber == 0 && g.Destination != "" {
			return fmt.Errorf("%s: destination %q, want none", at, g.Destination)
		}
		if err := sameBookmarks(w.Children, g.Children, at); err != nil {
			return err
		}
	}
	return nil
}

func sameMetadata(md *types.DocumentMetadata, dt mdTimes, got *types.DocumentMetadata, pages int) error {
	for _, f := range [][3]string{{"Title", md.Title, got.Title}, {"Author", md.Author, got.Author}, {"Subject", md.Subject, got.Subject}, {"Keywords", md.Keywords, got.Keywords}, {"Creator", md.Creator, got.Creator}, {"Producer", md.Producer, got.Producer}} {
		if f[1] != f[2] {
			return fmt.Errorf("%s is %q, want %q", f[0], f[2], f[1])
		}
	}
	for k, v := range md.Custom {
		if v != "" && got.Custom[k] != v {
			return fmt.Errorf("custom %q is %q, want %q", k, got.Custom[k], v)
		}
	}
	for k, v := range got.Custom {
		if md.Custom[k] != v {
			return fmt.Errorf("custom %q = %q never set", k, v)
		}
	}
	for _, d := range []struct {
		name string
		want *time.Time
		got  string
	}{{"CreationDate", dt.creation, got.CreationDate}, {"ModDate", dt.mod, got.ModDate}} {
		if d.want == nil {
			if d.name == "CreationDate" && d.got != "" {
				return fmt.Errorf("CreationDate %q never set", d.got)
			}
			continue
		}
		t, err := parsePDFDateStrict(d.got)
		if err != nil {
			return fmt.Errorf("%s: %v", d.name, err)
		}
		_, o1 := t.Zone()
		_, o2 := d.want.Zone()
		if !t.Equal(*d.want) || o1 != o2 {
			return fmt.Errorf("%s is %s, want %s", d.name, d.got, d.want)
		}
	}
	if got.PageCount != pages {
		return fmt.Errorf("page count %d, want %d", got.PageCount, pages)
	}
	return nil
}

func init() {
	hx.Reg("C11", "written", 2500, "metadata and an outline forest given to the writer in any file mode, read by the strict reader and by the library; non-trivial: metadata or outline present", func(c *hx.C) {
		b := write.NewSimplePDFBuilder()
		w := b.Writer()
		mode := num(c, "mode", 0, 2)
		w.UseXRefStream(mode >= 1)
		w.UseObjectStream(mode == 2)
		nPages := count(c, "pages", 1, 5, 50)
		for i := 0; i < nPages; i++ {
			p := b.AddPage(write.PageSizeA4)
			p.Content().BeginText().EndText()
			b.FinalizePage(p)
		}
		var md *types.DocumentMetadata
		infoNum := 0
		hasMD := flip(c, "md")
		if hasMD {
			md = genMetadata(c)
			if flip(c, "viaFields") {
				// the same through the map form
				fields := map[string]string{}
				put := func(k, v string) {
					if v != "" {
						fields[pick(c, "case", k, strings.ToLower(k))] = v
					}
				}
				put("Title", md.Title)
				put("Author", md.Author)
				put("Subject", md.Subject)
				put("Keywords", md.Keywords)
				put("Creator", md.Creator)
				put("Producer", md.Producer)
				put("CreationDate", md.CreationDate)
				put("ModDate", md.ModDate)
				for k, v := range md.Custom {
					fields[k] = v
				}
				if flip(c, "direct") {
					c.Keep("fields", fields)
					infoNum = w.SetMetadataFields(fields)
				} else {
					infoNum = w.SetMetadata(write.NewMetadataFromFields(fields))
				}
			} else {
				c.Keep("metadata", md)
				infoNum = w.SetMetadata(md)
			}
		}
		var bms []types.Bookmark
		if flip(c, "bm") {
			bms = genBookmarks(c, num(c, "depth", 1, 5), b.Pages())
			c.Keep("bookmarks", bms)
			if err := b.SetBookmarks(bms); err != nil {
				c.Fail("SetBookmarks: %v", err)
			}
		}
		out, err := b.Bytes()
		if err != nil {
			c.Fail("Bytes: %v", err)
		}
		c.Emits("out.pdf", out, b.Bytes)
		d := strictDoc(c, out, nil, nil)
		if len(bms) > 0 {
			if err := checkOutline(d, bms, b.Pages()); err != nil {
				c.Fail("outline: %v", err)
			}
		}
		if hasMD {
			if r, ok := d.Trailer.Get("Info").(ref.Ref); !ok || r.N != infoNum {
				c.Fail("trailer /Info %v, want %d", d.Trailer.Get("Info"), infoNum)
			}
			if err := checkInfo(d, md); err != nil {
				c.Fail("info: %v", err)
			}
		}
		doc, err := extract.ExtractContent(out, nil, false)
		if err != nil {
			c.Fail("ExtractContent: %v", err)
		}
		want, dt := &types.DocumentMetadata{}, mdTimes{}
		if hasMD {
			want, dt = md, timesOf(md)
		}
		if doc.Metadata == nil {
			c.Fail("no metadata")
		}
		if err := sameMetadata(want, dt, doc.Metadata, nPages); err != nil {
			c.Fail("metadata read back: %v", err)
		}
		if err := sameBookmarks(readBookmarks(bms, b.Pages()), doc.Bookmarks, "outline"); err != nil {
			c.Fail("bookmarks read back: %v", err)
		}
		c.ClassIf(hasMD, "metadata")
		c.ClassIf(len(bms) > 0, "outline")
		c.ClassIf(hasMD && len(md.Custom) > 0, "custom-fields")
		if hasMD || len(bms) > 0 {
			c.NT(fmt.Sprintf("mode %d pages %d md %+v bookmarks %+v", mode, nPages, md, bms))
		}
	})

	hx.Reg("C11", "foreign", 2500, "Info dictionaries and outlines as other producers write them (PDFDocEncoding, UTF-16, UTF-8; indirect values; named, explicit and action destinations; closed items; nested page trees; encrypted files), read by the library; non-trivial: some metadata or a bookmark", func(c *hx.C) {
		f := newFD(c)
		if oneIn(c, "enc", 4) {
			f.user, f.owner = []byte("user"), []byte("owner")
		}
		nPages := count(c, "pages", 1, 7, 60)
		root, pages := f.pageTree(nPages, func(i int) (ref.Dict, ref.Dict) {
			return nil, ref.Dict{{"MediaBox", ref.Arr{0, 0, 200, 300}}, {"Resources", ref.Dict{}}}
		})
		cat := ref.Dict{{"Type", ref.Name("Catalog")}, {"Pages", root}}
		md := &types.DocumentMetadata{Custom: map[string]string{}}
		var dt mdTimes
		if flip(c, "info") {
			info := ref.Dict{}
			put := func(k string, p *string) {
				if !flip(c, "has"+k) {
					return
				}
				o, s := foreignText(c, k)
				info = append(info, ref.KV{K: k, V: f.ind(o)})
				*p = s
			}
			put("Title", &md.Title)
			put("Author", &md.Author)
			put("Subject", &md.Subject)
			put("Keywords", &md.Keywords)
			put("Creator", &md.Creator)
			put("Producer", &md.Producer)
			for i, n := 0, count(c, "custom", 0, 2, 40); i < n; i++ {
				k := pick(c, "ckey", "Company", "A B", "Titlex", "xTitle", "SourceModified", "é")
				if !info.Has(k) {
					var s string
					put(k, &s)
					if s != "" {
						md.Custom[k] = s
					}
				}
			}
			date := func(k string) *time.Time {
				if !flip(c, "has"+k) {
					return nil
				}
				_, t := isoDate(c, k)
				_, off := t.Zone()
				z := "Z"
				if off != 0 {
					sign := "+"
					if off < 0 {
						sign, off = "-", -off
					}
					z = fmt.Sprintf("%s%02d'%02d'", sign, off/3600, off%3600/60)
				}
				info = append(info, ref.KV{K: k, V: f.ind(ref.Str{B: []byte(t.Format("D:20060102150405") + z)})})
				return &t
			}
			dt.creation, dt.mod = date("CreationDate"), date("ModDate")
			if flip(c, "trapped") {
				info = append(info, ref.KV{K: "Trapped", V: ref.Name("False")})
			}
			f.trailer = f.trailer.With("Info", f.add(info))
		}
		var bms []types.Bookmark
		if flip(c, "outline") {
			oroot := f.reserve()
			var level func(parent ref.Ref, depth int) ([]types.Bookmark, ref.Ref, ref.Ref)
			level = func(parent ref.Ref, depth int) ([]types.Bookmark, ref.Ref, ref.Ref) {
				n := num(c, "n", 1, 4)
				refs := make([]ref.Ref, n)
				for i := range refs {
					refs[i] = f.reserve()
				}
				var out []types.Bookmark
				for i := range refs {
					o, s := foreignText(c, "t")
					bm := types.Bookmark{Title: s}
					d := ref.Dict{{"Title", f.ind(o)}, {"Parent", parent}}
					if i > 0 {
						d = append(d, ref.KV{K: "Prev", V: refs[i-1]})
					}
					if i+1 < n {
						d = append(d, ref.KV{K: "Next", V: refs[i+1]})
					}
					p := num(c, "p", 1, nPages)
					dest := ref.Arr{pages[p-1].ref, ref.Name("Fit")}
					switch num(c, "dest", 0, 6) {
					case 1:
						d = append(d, ref.KV{K: "Dest", V: f.ind(dest)})
						bm.PageNumber = p
					case 2:
						d = append(d, ref.KV{K: "A", V: f.ind(ref.Dict{{"S", ref.Name("GoTo")}, {"D", f.ind(dest)}})})
						bm.PageNumber = p
					case 3:
						bm.URI = pick(c, "uri", "https://example.com/", "http://x/a(b)c\\", "mailto:a@b")
						d = append(d, ref.KV{K: "A", V: f.ind(ref.Dict{{"Type", ref.Name("Action")}, {"S", ref.Name("URI")}, {"URI", f.ind(ref.Str{B: []byte(bm.URI), Hex: flip(c, "urihex")})}})})
					case 4:
						bm.Destination = pick(c, "named", "chapter 1", "x(y)", "G1.2")
						d = append(d, ref.KV{K: "Dest", V: f.ind(ref.Str{B: []byte(bm.Destination)})})
					case 5:
						d = append(d, ref.KV{K: "Dest", V: ref.Name("named#1 dest")})
						bm.Destination = "/named#1 dest"
					}
					if depth > 0 && oneIn(c, "kids", 3) {
						kids, first, last := level(refs[i], depth-1)
						bm.Children = kids
						cnt := countBookmarks(kids)
						if flip(c, "closed") {
							cnt = -cnt
						}
						d = append(d, ref.KV{K: "First", V: first}, ref.KV{K: "Last", V: last}, ref.KV{K: "Count", V: cnt})
					}
					f.set(refs[i], d)
					out = append(out, bm)
				}
				return out, refs[0], refs[n-1]
			}
			var first, last ref.Ref
			bms, first, last = level(oroot, 3)
			f.set(oroot, ref.Dict{{"Type", ref.Name("Outlines")}, {"First", first}, {"Last", last}, {"Count", countBookmarks(bms)}})
			cat = append(cat, ref.KV{K: "Outlines", V: oroot})
		}
		f.trailer = f.trailer.With("Root", f.add(cat))
		b := f.emit()
		c.Dump("in.pdf", b)
		doc, err := extract.ExtractContent(b, f.user, false)
		if err != nil {
			c.Fail("ExtractContent: %v", err)
		}
		if err := sameMetadata(md, dt, doc.Metadata, nPages); err != nil {
			c.Fail("metadata: %v", err)
		}
		if dt.mod == nil && doc.Metadata.ModDate != "" {
			c.Fail("ModDate %q never set", doc.Metadata.ModDate)
		}
		if doc.Metadata.PDFVersion != f.version || doc.Metadata.Encrypted != (f.user != nil) {
			c.Fail("version %q encrypted %v, want %q %v", doc.Metadata.PDFVersion, doc.Metadata.Encrypted, f.version, f.user != nil)
		}
		if err := sameBookmarks(bms, doc.Bookmarks, "outline"); err != nil {
			c.Fail("bookmarks: %v", err)
		}
		c.ClassIf(f.user != nil, "encrypted")
		c.ClassIf(len(bms) > 0, "outline")
		if f.trailer.Has("Info") || len(bms) > 0 {
			c.NT(fmt.Sprintf("%s %+v %+v", f.form, md, bms))
		}
	})
}
