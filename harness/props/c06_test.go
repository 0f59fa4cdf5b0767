package props

import (
	"bytes"
	"compress/zlib"
	"encoding/hex"
	"fmt"
	"io"
	"sort"
	"strings"

	"github.com/benedoc-inc/pdfer/core/parse"
	"github.com/benedoc-inc/pdfer/core/write"
	"github.com/benedoc-inc/pdfer/types"
	"verif/harness/hx"
	"verif/harness/ref"
)

// leaked searches a file for a marker: as it is, in hexadecimal, as UTF-16, and inside anything that inflates.
func leaked(b []byte, markers []string) error {
	find := func(where string, hay []byte) error {
		lower := bytes.ToLower(hay)
		for _, m := range markers {
			if bytes.Contains(hay, []byte(m)) {
				return fmt.Errorf("%q appears %s", m, where)
			}
			if bytes.Contains(lower, []byte(hex.EncodeToString([]byte(m)))) {
				return fmt.Errorf("%q appears in hexadecimal %s", m, where)
			}
			var u []byte
			for i := 0; i < len(m); i++ {
				u = append(u, 0, m[i])
			}
			if bytes.Contains(hay, u) || bytes.Contains(lower, []byte(hex.EncodeToString(u))) {
				return fmt.Errorf("%q appears as UTF-16 %s", m, where)
			}
		}
		return nil
	}
	if err := find("in the file", b); err != nil {
		return err
	}
	for pos := 0; ; {
		i := bytes.Index(b[pos:], []byte("stream"))
		if i < 0 {
			return nil
		}
		pos += i + 6
		rest := bytes.TrimPrefix(bytes.TrimPrefix(b[pos:], []byte("\r")), []byte("\n"))
		zr, err := zlib.NewReader(bytes.NewReader(rest))
		if err != nil {
			continue
		}
		out, _ := io.ReadAll(io.LimitReader(zr, 1<<20))
		if err := find("in a compressed stream", out); err != nil {
			return err
		}
	}
}

func init() {
	hx.Reg("C06", "writer", 500, "2-10 writer objects and streams with marked strings and payloads (empty, block-aligned, nested, compressed, pre-encoded), metadata and bookmarks, written in any cross-reference and object-stream mode under AES-256 set up by the library before or after the content, or under caller-supplied RC4 / AES-128 / AES-256 settings; searched for the markers, opened by an independent reader and by the library with user, owner and wrong passwords; non-trivial: a string and a stream, keyed by mode and content",
		func(c *hx.C) {
			w := write.NewPDFWriter()
			w.SetVersion(pick(c, "ver", "1.6", "1.7", "2.0"))
			mode := num(c, "mode", 0, 2)
			w.UseXRefStream(mode == 1)
			if mode == 2 {
				w.UseObjectStream(true)
			}
			user, owner := genPassword(c, "user"), genPassword(c, "owner")
			encMeta := !oneIn(c, "nometa", 3)
			perms := int32(pick(c, "perms", -3904, -4, -1, 0, -44))
			alg := num(c, "alg", 0, 8)
			encNo := 0
			var crypt *ref.Crypt
			setup := func() {
				if alg >= 5 {
					c.Keep("passwords", [][]byte{user, owner})
					n, err := w.SetupEncryptionWithPasswords(user, owner, perms, encMeta)
					if err != nil {
						c.Fail("SetupEncryptionWithPasswords: %v", err)
					}
					encNo = n
					return
				}
				cfg := [][4]int{{1, 2, 5, 0}, {2, 3, num(c, "klen", 5, 16), 0}, {4, 4, 16, 0}, {4, 4, 16, 1}, {5, 6, 32, 1}}[alg]
				id := blob(c, "id", num(c, "idn", 1, 32))
				salt := uint32(num(c, "salt", 0, 1<<30))
				crypt = ref.NewCrypt(cfg[0], cfg[1], cfg[2], cfg[3] == 1, user, owner, id, perms, encMeta || cfg[0] < 4, func(n int) []byte {
					out := make([]byte, n)
					for i := range out {
						salt = salt*1664525 + 1013904223
						out[i] = byte(salt >> 24)
					}
					return out
				})
				e := &types.PDFEncryption{V: crypt.V, R: crypt.R, KeyLength: crypt.KeyLen, Filter: "Standard", O: crypt.O, U: crypt.U, UE: crypt.UE, OE: crypt.OE, Perms: crypt.Perms, P: perms, EncryptMetadata: crypt.EncMeta, EncryptKey: crypt.Key}
				m := crypt.Method("")
				if alg != 3 && alg != 1 && alg != 0 || flip(c, "explicit") {
					e.StreamMethod, e.StringMethod = m, m
				}
				encNo = w.AddObject(write.CreateEncryptionDictionary(held(c, e)))
				w.SetEncryptRef(encNo)
				w.SetEncryption(held(c, e), held(c, id))
			}
			early := flip(c, "early")
			if early {
				setup()
			}
			var markers []string
			marker := func() string {
				m := fmt.Sprintf("Marker%04dXq%07d", len(markers), num(c, "mk", 0, 9999999))
				markers = append(markers, m[:14])
				return m
			}
			str := func() string {
				m := marker()
				switch num(c, "strk", 0, 4) {
				case 0:
					return m + pick(c, "tail", "(", ")", "\\", "\n", "\r\n", "()", "\x00", "é", "12 0 R")
				case 1:
					return m[:16] // one AES block
				case 2:
					return m + strings.Repeat("x", 32-len(m))
				}
				return m
			}
			m := map[int]wobj{}
			desc := fmt.Sprintf("mode %d alg %d early %v:", mode, alg, early)
			strs, streams := 0, 0
			plainMeta := ""
			for i, n := 0, count(c, "objs", 2, 10, 120); i < n; i++ {
				switch num(c, "ok", 0, 7) {
				case 0, 1:
					s := str()
					strs++
					o := ref.Dict{{K: "S", V: ref.Str{B: []byte(s), Hex: flip(c, "hex")}}, {K: "A", V: ref.Arr{1, ref.Str{B: []byte(str())}, ref.Dict{{K: "T", V: ref.Str{B: []byte{}}}}}}, {K: "N", V: ref.Name("NotAString")}}
					m[w.AddObject(kept(c, genFmt(c).Bytes(o)))] = wobj{o: o}
					desc += " dict"
				case 2:
					strs++
					o := ref.Str{B: []byte(str()), Hex: flip(c, "hex")}
					m[w.AddObject(kept(c, genFmt(c).Bytes(o)))] = wobj{o: o}
					desc += " string"
				case 3, 4:
					streams++
					data := []byte{}
					switch num(c, "datak", 0, 4) {
					case 0:
					case 1:
						data = []byte((marker() + "0123456789abcdef")[:16*num(c, "blocks", 1, 2)])
					case 2:
						data = []byte(strings.Repeat(marker()+" ", num(c, "rep", 1, 60)))
					case 3:
						data = append(nastyBytes(c, "nst", 4), marker()...)
					case 4:
						data = append([]byte(marker()), blob(c, "bl", num(c, "bln", 0, 100))...)
					}
					s := str()
					comp := flip(c, "comp")
					n := w.AddStreamObject(write.Dictionary{"Note": s, "L": []interface{}{s}}, data, comp)
					m[n] = wobj{o: ref.Dict{{K: "Note", V: ref.Str{B: []byte(s)}}, {K: "L", V: ref.Arr{ref.Str{B: []byte(s)}}}}, data: data, stream: true}
					desc += fmt.Sprintf(" stream%d/%v", len(data), comp)
				case 5:
					// a whole stream object given as syntax
					streams++
					data := []byte(marker())
					s := str()
					o := ref.Dict{{K: "Note", V: ref.Str{B: []byte(s)}}}
					body := append(ref.Plain.Bytes(o.With("Length", len(data))), "\nstream\n"...)
					body = append(append(body, data...), "\nendstream"...)
					m[w.AddObject(kept(c, body))] = wobj{o: o, data: data, stream: true}
					desc += " raw"
				case 6:
					streams++
					data := []byte("<?xpacket?>")
					if encMeta || alg < 2 {
						data = append(data, marker()...)
					} else {
						plainMeta = "<?xpacket?>"
					}
					n := w.AddStreamObject(write.Dictionary{"Type": "/Metadata", "Subtype": "/XML"}, data, false)
					m[n] = wobj{o: ref.Dict{{K: "Type", V: ref.Name("Metadata")}, {K: "Subtype", V: ref.Name("XML")}}, data: data, stream: true}
					desc += " metadata"
				case 7:
					o := genObj(c, 2, 3)
					m[w.AddObject(kept(c, genFmt(c).Bytes(o)))] = wobj{o: o}
					desc += " any"
				}
			}
			if !early {
				setup()
			}
			cat := w.AddObject([]byte("<</Type/Catalog>>"))
			m[cat] = wobj{o: ref.Dict{{K: "Type", V: ref.Name("Catalog")}}}
			w.SetRoot(cat)
			if flip(c, "info") {
				o := ref.Dict{{K: "Title", V: ref.Str{B: []byte(str())}}}
				n := w.AddObject(ref.Plain.Bytes(o))
				m[n] = wobj{o: o}
				w.SetInfo(n)
			}
			b, err := w.Bytes()
			if err != nil {
				c.Fail("Bytes: %v", err)
			}
			c.Emits("out.pdf", b, w.Bytes)
			if err := leaked(b, markers); err != nil {
				c.Fail("%s: %v", desc, err)
			}
			if plainMeta != "" && !bytes.Contains(b, []byte(plainMeta)) {
				c.Fail("%s: metadata is encrypted although EncryptMetadata is false", desc)
			}
			if crypt != nil && crypt.R < 5 && len(owner) == 0 {
				owner = user
			}
			dang := map[int]bool{}
			for i := 0; i <= 3; i++ {
				dang[i] = true
			}
			r := 5
			if crypt != nil {
				r = crypt.R
			}
			for i, pw := range [][]byte{user, owner} {
				d := strictDoc(c, b, pw, dang)
				if d.Crypt.P != perms || d.Crypt.EncMeta != (encMeta || alg < 2) {
					c.Fail("%s: permissions %d metadata %v", desc, d.Crypt.P, d.Crypt.EncMeta)
				}
				if d.Crypt.R != r {
					c.Fail("%s: revision %d, want %d", desc, d.Crypt.R, r)
				}
				pdf, err := parse.OpenWithOptions(b, parse.ParseOptions{Password: pw, BytePerfect: i == 1})
				if err != nil {
					c.Fail("%s: library reader, password %q: %v", desc, pw, err)
				}
				for n, want := range m {
					got, err := d.Get(n)
					if err != nil {
						c.Fail("%s: object %d: %v", desc, n, err)
					}
					if err := sameObj(want, got); err != nil {
						c.Fail("%s: object %d (independent reader): %v", desc, n, err)
					}
					lg, err := libObj(pdf, n)
					if err != nil {
						c.Fail("%s: object %d (library reader): %v", desc, n, err)
					}
					if err := sameObj(want, lg); err != nil {
						c.Fail("%s: object %d (library reader): %v", desc, n, err)
					}
				}
			}
			for _, pw := range wrongPasswords(c, r, user, owner) {
				checkRejects(c, b, pw)
				if d, err := ref.ReadDoc(b); err != nil {
					c.Fail("%v", err)
				} else if _, err := d.Unlock(pw); err == nil {
					c.Fail("%s: wrong password %q opens the file", desc, pw)
				}
			}
			// writing again does not reuse what must be fresh, and still opens
			again, err := w.Bytes()
			if err != nil {
				c.Fail("second Bytes: %v", err)
			}
			d2 := strictDoc(c, again, user, dang)
			for n, want := range m {
				got, err := d2.Get(n)
				if err != nil {
					c.Fail("%s: written again: object %d: %v", desc, n, err)
				}
				if err := sameObj(want, got); err != nil {
					c.Fail("%s: written again: object %d: %v", desc, n, err)
				}
			}
			c.Class(fmt.Sprintf("alg %d mode %d", alg, mode))
			c.ClassIf(!encMeta, "plain metadata")
			if strs > 0 && streams > 0 {
				c.NT(desc)
			}
		})

	hx.Reg("C06", "builder", 800, "documents built with the page builder (text, images, metadata, bookmarks) with encryption requested at any point, opened with the password by an independent reader: page contents, titles and metadata equal those of the same document written without encryption; non-trivial: 1+ page with text, keyed by content",
		func(c *hx.C) {
			type script struct {
				texts  []string
				titles []string
				author string
			}
			var sc script
			var markers []string
			marker := func() string {
				m := fmt.Sprintf("Page%04dXq%07d", len(markers), num(c, "mk", 0, 9999999))
				markers = append(markers, m)
				return m
			}
			for i, n := 0, count(c, "pages", 1, 4, 40); i < n; i++ {
				sc.texts = append(sc.texts, marker()+pick(c, "sfx", "", "(x)", "\\", "é"))
			}
			for i, n := 0, count(c, "marks", 0, 3, 30); i < n; i++ {
				sc.titles = append(sc.titles, marker()+pick(c, "tsfx", "", "é", "漢"))
			}
			sc.author = marker()
			mode := num(c, "mode", 0, 2)
			user, owner := genPassword(c, "user"), genPassword(c, "owner")
			when := num(c, "when", 0, 2)
			build := func(enc bool) []byte {
				b := write.NewSimplePDFBuilder()
				w := b.Writer()
				w.UseXRefStream(mode == 1)
				if mode == 2 {
					w.UseObjectStream(true)
				}
				setup := func(at int) {
					if enc && at == when {
						if _, err := w.SetupEncryptionWithPasswords(user, owner, -4, true); err != nil {
							c.Fail("%v", err)
						}
					}
				}
				setup(0)
				for _, t := range sc.texts {
					p := b.AddPage(write.PageSizeLetter)
					f := p.AddStandardFont("Helvetica")
					p.Content().BeginText().SetFont(f, 12).SetTextPosition(72, 700).ShowText(t).EndText()
					b.FinalizePage(p)
				}
				setup(1)
				w.SetMetadata(&types.DocumentMetadata{Title: "T", Author: sc.author})
				var bms []types.Bookmark
				for i, t := range sc.titles {
					bms = append(bms, types.Bookmark{Title: t, PageNumber: i%len(sc.texts) + 1})
				}
				if len(bms) > 0 {
					if err := b.SetBookmarks(bms); err != nil {
						c.Fail("SetBookmarks: %v", err)
					}
				}
				setup(2)
				out, err := b.Bytes()
				if err != nil {
					c.Fail("%v", err)
				}
				c.Emits("built.pdf", out, b.Bytes)
				return out
			}
			plain, b := build(false), build(true)
			c.Dump("plain.pdf", plain)
			c.Dump("out.pdf", b)
			if leaked(plain, markers[:1]) == nil && mode == 0 {
				c.Class("marker not visible in plain output")
			}
			if err := leaked(b, markers); err != nil {
				c.Fail("%v", err)
			}
			pd, ed := strictDoc(c, plain, nil, nil), strictDoc(c, b, user, nil)
			pp, err := pd.Pages()
			if err != nil {
				c.Fail("%v", err)
			}
			ep, err := ed.Pages()
			if err != nil {
				c.Fail("encrypted: %v", err)
			}
			if len(pp) != len(sc.texts) || len(ep) != len(pp) {
				c.Fail("%d pages plain, %d encrypted, want %d", len(pp), len(ep), len(sc.texts))
			}
			for i := range pp {
				x, err1 := pd.PageContent(pp[i])
				y, err2 := ed.PageContent(ep[i])
				if err1 != nil || err2 != nil || !bytes.Equal(x, y) {
					c.Fail("page %d content differs: %v %v %.200q %.200q", i, err1, err2, x, y)
				}
			}
			pi, _ := pd.Dict(pd.Trailer.Get("Info"))
			ei, _ := ed.Dict(ed.Trailer.Get("Info"))
			for _, k := range []string{"Title", "Author"} {
				if ref.Canon(pi.Get(k)) != ref.Canon(ei.Get(k)) || pi.Get(k) == nil {
					c.Fail("info /%s: %s encrypted, %s plain", k, ref.Canon(ei.Get(k)), ref.Canon(pi.Get(k)))
				}
			}
			titles := func(d *ref.Doc) string {
				var out []string
				for n := range d.InUse() {
					o, err := d.Get(n)
					if dd, ok := o.(ref.Dict); ok && err == nil && dd.Has("Title") && dd.Has("Parent") {
						out = append(out, ref.Canon(dd.Get("Title")))
					}
				}
				sort.Strings(out)
				return strings.Join(out, " ")
			}
			if titles(pd) != titles(ed) {
				c.Fail("bookmark titles %s, want %s", titles(ed), titles(pd))
			}
			for _, pw := range wrongPasswords(c, 5, user, owner) {
				checkRejects(c, b, pw)
			}
			c.NT(fmt.Sprintf("mode %d when %d %+v", mode, when, sc))
		})
}
