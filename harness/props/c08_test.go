package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/benedoc-inc/pdfer/content/extract"
	"github.com/benedoc-inc/pdfer/core/compare"
	"github.com/benedoc-inc/pdfer/core/encrypt"
	"github.com/benedoc-inc/pdfer/core/manipulate"
	"github.com/benedoc-inc/pdfer/core/parse"
	"github.com/benedoc-inc/pdfer/core/write"
	"github.com/benedoc-inc/pdfer/forms"
	"github.com/benedoc-inc/pdfer/forms/acroform"
	"github.com/benedoc-inc/pdfer/forms/xfa"
	"github.com/benedoc-inc/pdfer/resources/font"
	"github.com/benedoc-inc/pdfer/types"
	"pgregory.net/rapid"
	"verif/harness/hx"
	"verif/harness/ref"
)

// ---- running one operation under bounds ----

func cpuNow() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// ops runs operations on one input and reports the first that misbehaves.
type ops struct {
	c       *hx.C
	in      []byte // the input that must not change
	same    func() bool
	cpu     time.Duration // bound on one operation
	alloc   uint64        // bound on what one operation allocates altogether
	oks     map[string]bool
	errs    int
	slowest time.Duration
	slowOp  string
}

func newOps(c *hx.C, in []byte) *ops {
	c.Keep("input", in)
	return &ops{c: c, in: in, same: guard(in), cpu: 10 * time.Second, alloc: 2<<30 + 4000*uint64(len(in)), oks: map[string]bool{}}
}

func (o *ops) do(name string, fn func() error) {
	var before, after runtime.MemStats
	runtime.ReadMemStats(&before)
	t := cpuNow()
	err := func() (err error) {
		defer func() {
			if r := recover(); r != nil {
				o.c.Fail("%s panics: %v\n%s", name, r, debug.Stack())
			}
		}()
		return fn()
	}()
	d := cpuNow() - t
	runtime.ReadMemStats(&after)
	if d > o.slowest {
		o.slowest, o.slowOp = d, name
	}
	if d > o.cpu {
		o.c.Fail("%s uses %v of CPU time on %d bytes of input", name, d, len(o.in))
	}
	if a := after.TotalAlloc - before.TotalAlloc; a > o.alloc {
		o.c.Fail("%s allocates %d MB on %d bytes of input", name, a>>20, len(o.in))
	}
	if !o.same() {
		o.c.Fail("%s modified the bytes it was given", name)
	}
	o.c.See(name, err)
	if err == nil {
		o.oks[name] = true
	} else {
		o.errs++
	}
}

// note keeps results for runs that are compared.
func (o *ops) note(vs ...any) {
	for _, v := range vs {
		o.c.See("result", v)
	}
}

func (o *ops) key() string {
	var ks []string
	for k := range o.oks {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return strings.Join(ks, " ")
}

var opGroups = []string{"open", "raw", "encrypt", "extract", "acroform", "xfa", "manipulate", "compare", "write"}

// document runs the operations of a group on b as a PDF.
func (o *ops) document(group string, pw []byte, verbose bool) {
	c, b := o.c, o.in
	objNums := []int{0, 1, 2, 3, 5, 8, 13, 40, -1, 1 << 31}
	switch group {
	case "open":
		var pdf *parse.PDF
		o.do("parse.Open", func() (err error) {
			pdf, err = parse.OpenWithOptions(b, parse.ParseOptions{Password: pw, Verbose: verbose})
			return
		})
		if pdf != nil {
			ns := pdf.Objects()
			if len(ns) > 60 {
				ns = ns[:60]
			}
			o.do("PDF reading", func() error {
				for _, n := range append(ns, objNums...) {
					o.note(pdf.HasObject(n))
					o.note(pdf.ObjectRef(n))
					o.note(pdf.GetObject(n))
					o.note(pdf.GetRawObject(n))
				}
				o.note(pdf.Version())
				o.note(pdf.RevisionCount())
				o.note(pdf.ObjectCount())
				o.note(pdf.Trailer())
				o.note(pdf.Encryption())
				o.note(pdf.Bytes())
				o.note(pdf.Document())
				return nil
			})
			o.do("PDF.StreamData", func() error {
				for _, n := range ns {
					o.note(pdf.StreamData(n))
				}
				return nil
			})
			o.do("PDF.ImageData", func() error {
				for _, n := range ns {
					o.note(pdf.ImageData(n))
				}
				return nil
			})
		}
		o.do("parse.Open byte-perfect", func() error {
			p, err := parse.OpenWithOptions(b, parse.ParseOptions{Password: pw, BytePerfect: true, Warnings: types.NewWarningCollector(true)})
			if err == nil {
				o.note(p.Bytes())
				for _, n := range objNums {
					o.note(p.GetRawObject(n))
				}
				o.note(p.Warnings().Warnings())
			}
			return err
		})
		o.do("parse.ParsePDFDocument", func() error {
			d, err := parse.ParsePDFDocument(b)
			if err != nil {
				return err
			}
			o.note(d.Bytes())
			o.note(d.ObjectCount())
			objs := d.AllObjects()
			for _, n := range sortedKeys(objs) {
				r := objs[n]
				o.note(r.Bytes())
				o.note(r.Content())
				o.note(r.StreamData())
			}
			o.note(d.LatestRevision())
			for i := -1; i <= d.RevisionCount()+1 && i < 40; i++ {
				o.note(d.GetObjectInRevision(1, i))
			}
			for _, r := range d.Revisions {
				o.note(r.RevisionBytes(d))
				if r.XRef != nil {
					o.note(r.XRef.Bytes())
				}
				if r.Trailer != nil {
					o.note(r.Trailer.Bytes())
				}
			}
			return nil
		})
	case "raw":
		o.do("revisions", func() error {
			o.note(parse.FindAllEOFMarkers(b))
			n := parse.CountRevisions(b)
			o.note(parse.GetRevisionBoundaries(b))
			var err error
			for i := -1; i <= n+1 && i < 40; i++ {
				if _, e := parse.ExtractRevision(b, i); i == 1 {
					err = e
				}
			}
			return err
		})
		start := int64(-1)
		o.do("parse.ParsePDFTrailer", func() error {
			t, err := parse.ParsePDFTrailer(b)
			if err == nil {
				start = t.StartXRef
			}
			return err
		})
		o.do("parse.ParsePDFHeader", func() error { v, err := parse.ParsePDFHeader(b); o.note(v); return err })
		offs := []int64{start, start + 1, 0, -1, -1 << 63, 1<<63 - 1, int64(len(b)), int64(len(b)) - 1, int64(len(b)) + 1, int64(spread(c, "offset", len(b)+1))}
		for i := 0; i < 3; i++ {
			if k := bytes.Index(b[int(spread(c, "objat", len(b)+1)):], []byte(" obj")); k > 4 {
				offs = append(offs, int64(k-4), int64(k-2))
			}
		}
		o.do("cross-reference parsers", func() error {
			var err error
			for i, at := range offs {
				_, e := parse.ParseXRefStreamFull(b, at, verbose)
				if i == 0 {
					err = e
				}
				o.note(parse.ParseXRefStream(b, at))
				o.note(parse.ParseTraditionalXRefTable(b, at))
				m, _ := parse.ParseCrossReferenceTable(b, at)
				o.note(parse.GetSampleObjectNumbers(m, 5))
				o.note(parse.ParseXRefDataRaw(b, at))
				o.note(parse.ParseTrailerDataRaw(b, at, len(b)))
				o.note(parse.ParseTrailerDataRaw(b, at, int(at)))
			}
			return err
		})
		o.do("raw object parsers", func() error {
			var err error
			for _, at := range offs {
				_, e := parse.ParseRawObjectAt(b, at)
				if e == nil {
					err = e
				}
				o.note(parse.ParseRawObject(b, 1, 0, at))
				o.note(xfa.ReadObjectFromXRef(b, 1, 0, at, nil, verbose))
				o.note(parse.GetDirectObject(b, 1, at, nil, verbose))
			}
			return err
		})
		o.do("object location", func() error {
			var err error
			for _, n := range objNums {
				_, e := parse.FindObjectLocation(b, n, verbose)
				if e == nil {
					err = nil
				}
				o.note(parse.FindObjectByNumber(b, n, nil, verbose))
				o.note(parse.GetObject(b, n, nil, verbose))
				for _, i := range []int{0, 3, -1, 1 << 40} {
					o.note(parse.GetObjectFromStream(b, 1, n, i, nil, verbose))
				}
			}
			return err
		})
	case "encrypt":
		var enc *types.PDFEncryption
		o.do("encrypt.ParseEncryptionDictionary", func() (err error) { enc, err = encrypt.ParseEncryptionDictionary(b, verbose); o.note(enc); return })
		o.do("encrypt.ExtractFileID", func() error { encrypt.ExtractFileID(b, verbose); return nil })
		for _, p := range [][]byte{pw, nil, []byte("wrong")} {
			o.do("encrypt.DecryptPDF", func() error { v, w, err := encrypt.DecryptPDF(b, p, verbose); o.note(v, w); return err })
		}
		if enc != nil {
			o.do("encryption of a document", func() error {
				id := encrypt.ExtractFileID(b, verbose)
				err := encrypt.Authenticate(enc, id, pw, verbose)
				encryptCalls(enc, id, pw, b)
				return err
			})
		}
	case "extract":
		o.do("extract.ExtractContent", func() error { v, err := extract.ExtractContent(b, pw, verbose); o.note(v); return err })
		o.do("extract.ExtractContentToJSON", func() error {
			s, err := extract.ExtractContentToJSON(b, pw, false)
			if err == nil && !json.Valid([]byte(s)) {
				c.Fail("extract.ExtractContentToJSON returns text that is not JSON")
			}
			return err
		})
		o.do("extract.ExtractAllImages", func() error { v, err := extract.ExtractAllImages(b, pw, verbose); o.note(v); return err })
		o.do("extract.ExtractPages", func() error {
			pdf, err := parse.OpenWithOptions(b, parse.ParseOptions{Password: pw})
			if err != nil {
				return err
			}
			o.note(extract.ExtractBookmarks(b, pdf, verbose))
			o.note(extract.ExtractMetadata(b, pdf, verbose))
			_, err = extract.ExtractPages(b, pdf, verbose)
			return err
		})
		if oneIn(c, "directory", 6) {
			dir, err := os.MkdirTemp("", "c08-")
			if err != nil {
				c.Skip(err)
			}
			defer os.RemoveAll(dir)
			o.do("extract.ExtractToDirectory", func() error {
				v, err := extract.ExtractToDirectory(b, pw, dir, verbose)
				files, _ := listDir(dir)
				o.note(strings.ReplaceAll(hx.Show(v), dir, "DIR"))
				for _, n := range sortedKeys(files) {
					o.note(n, strings.ReplaceAll(string(files[n]), dir, "DIR"))
				}
				return err
			})
		}
	case "acroform":
		var form *acroform.AcroForm
		o.do("acroform.ExtractAcroForm", func() (err error) { form, err = acroform.ExtractAcroForm(b, pw, verbose); o.note(form); return })
		o.do("acroform.ExtractFormSchema", func() error { v, err := acroform.ExtractFormSchema(b, pw, verbose); o.note(v); return err })
		o.do("forms", func() error {
			o.note(forms.Detect(b, pw, verbose))
			o.note(forms.ExtractAcroForm(b, pw, verbose))
			o.note(forms.ExtractXFA(b, pw, verbose))
			f, err := forms.Extract(b, pw, verbose)
			if err == nil {
				o.note(f.Type())
				o.note(f.Schema())
				o.note(f.GetValues())
				o.note(f.Validate(types.FormData{"a": "b"}))
				o.note(f.Fill(b, types.FormData{"a": "b"}, pw, verbose))
			}
			return err
		})
		data := types.FormData{"no such": "x", "": 1}
		if form != nil {
			o.do("AcroForm methods", func() error {
				for _, n := range sortedKeys(form.GetFieldValues()) {
					if len(data) < 12 {
						data[n] = pickValue(n)
					}
					o.note(form.FindFieldByName(n))
				}
				o.note(form.ToFormSchema())
				for i, f := range form.Fields {
					if i > 20 {
						break
					}
					o.note(f.GetFullName())
					o.note(f.ToQuestion())
					o.note(acroform.ValidateField(f, "text"))
					o.note(acroform.ValidateField(f, 12))
				}
				o.note(acroform.ValidateFormData(form, data))
				return nil
			})
			if len(form.Fields) > 0 {
				f := form.Fields[0]
				enc := encInfo2(b, pw)
				o.do("acroform field operations", func() error {
					o.note(acroform.GetFieldAppearance(f, b, enc, verbose))
					o.note(acroform.FillFieldValue(b, f, "v", enc, verbose))
					o.note(acroform.ReplaceFieldObject(b, f.ObjectNum, 0, []byte("<</FT /Tx>>"), enc, verbose))
					v, err := acroform.FlattenField(b, f, enc, verbose)
					o.note(v)
					return err
				})
			}
		}
		o.do("acroform.FillForm", func() error { v, err := acroform.FillForm(b, data, pw, verbose); o.note(v); return err })
		o.do("acroform.ExtractAndFill", func() error { v, err := acroform.ExtractAndFill(b, data, pw, verbose); o.note(v); return err })
		o.do("acroform.FillFormFields", func() error { v, err := acroform.FillFormFields(b, data, pw, verbose); o.note(v); return err })
		o.do("acroform.FillFormFieldsWithStreams", func() error {
			v, err := acroform.FillFormFieldsWithStreams(b, data, pw, verbose)
			o.note(v)
			return err
		})
		o.do("acroform.FlattenForm", func() error { v, err := acroform.FlattenForm(b, pw, verbose); o.note(v); return err })
		o.do("acroform.RebuildObjectStream", func() error {
			v, err := acroform.RebuildObjectStream(b, spread(c, "osn", 30), []acroform.StreamObjectUpdate{{ObjNum: spread(c, "osm", 30), Index: num(c, "osi", -2, 4), NewContent: []byte("<</V (x)>>")}}, encInfo2(b, pw), verbose)
			o.note(v)
			return err
		})
	case "xfa":
		enc := encInfo2(b, pw)
		var s *xfa.XFAStreams
		o.do("xfa.ExtractAllXFAStreams", func() (err error) { s, err = xfa.ExtractAllXFAStreams(b, enc, verbose); o.note(s); return })
		o.do("xfa.FindXFADatasetsStream", func() error { v, w, err := xfa.FindXFADatasetsStream(b, enc, verbose); o.note(v, w); return err })
		o.do("xfa.UpdateXFAInPDF", func() error {
			v, err := xfa.UpdateXFAInPDF(b, held(c, types.FormData{"a": "b", "f1": "c"}), enc, verbose)
			o.note(v)
			return err
		})
		if s != nil {
			c.Keep("streams", s)
			o.do("xfa.RebuildPDFFromXFAStreams", func() error { v, err := xfa.RebuildPDFFromXFAStreams(b, s, enc, verbose); o.note(v); return err })
			o.do("xfa.BuildPDFFromXFAStreams", func() error { v, err := xfa.BuildPDFFromXFAStreams(s, verbose); o.note(v); return err })
		}
		o.do("xfa.ReplaceStreamInPDF", func() error {
			v, err := xfa.ReplaceStreamInPDF(b, spread(c, "xsn", 30), []byte("new"), verbose)
			o.note(v)
			return err
		})
		o.do("write.BuildFromOriginal", func() error {
			v, err := write.NewXFABuilder(verbose).BuildFromOriginal(b, held(c, map[string][]byte{"datasets": []byte("<a/>")}), enc)
			o.note(v)
			return err
		})
	case "manipulate":
		o.do("manipulator", func() error {
			m, err := manipulate.NewPDFManipulator(b, pw, verbose)
			if err != nil {
				return err
			}
			o.note(m.RotatePage(1, 90))
			o.note(m.RotateAllPages(180))
			o.note(m.InsertPage(1, 100000, held(c, []byte("<</Type /Page>>"))))
			o.note(m.DeletePage(2))
			o.note(m.DeletePages(held(c, []int{1, 1, 3, -1})))
			o.note(m.DeletePages(held(c, []int{3, 1, 3})))
			_, err = m.Rebuild()
			return err
		})
		o.do("deleting pages", func() error {
			m, err := manipulate.NewPDFManipulator(b, pw, verbose)
			if err != nil {
				return err
			}
			pages := 1
			for m.RotatePage(pages*2, 90) == nil && pages < 1<<20 {
				pages *= 2
			}
			var half []int
			for i := 2; i <= pages; i += 2 {
				half = append(half, i)
			}
			return m.DeletePages(half)
		})
		o.do("manipulate.ExtractPages", func() error { v, err := manipulate.ExtractPages(b, []int{1}, pw, verbose); o.note(v); return err })
		o.do("manipulate.SplitPDF", func() error {
			v, err := manipulate.SplitPDF(b, []manipulate.PageRange{{Start: 1, End: 2}, {Start: 1, End: 1}, {Start: -1, End: 0}}, pw, verbose)
			o.note(v)
			return err
		})
		o.do("manipulate.SplitPDFByPageCount", func() error { v, err := manipulate.SplitPDFByPageCount(b, 1, pw, verbose); o.note(v); return err })
		o.do("manipulate.MergePDFs", func() error {
			v, err := manipulate.MergePDFs([][]byte{b, b}, [][]byte{pw, pw}, verbose)
			o.note(v)
			return err
		})
	case "compare":
		o.do("compare.ComparePDFs", func() error {
			r, err := compare.ComparePDFs(b, b, pw, pw, verbose)
			if err != nil {
				return err
			}
			o.note(compare.GenerateReport(r))
			_, err = compare.GenerateJSONReport(r)
			return err
		})
	case "write":
		o.do("write.AppendUpdate", func() error {
			v, err := write.AppendUpdate(b, held(c, map[int][]byte{1: []byte("<</A 1>>"), 100: []byte("(s)")}), encInfo2(b, pw))
			o.note(v)
			return err
		})
		o.do("write.XFAPackets", func() error {
			p, err := parse.OpenWithOptions(b, parse.ParseOptions{Password: pw})
			if err != nil {
				return err
			}
			_, err = write.XFAPackets(p)
			return err
		})
		o.do("write images", func() error {
			w := write.NewPDFWriter()
			o.note(w.AddJPEGImage(b, "i"))
			v, err := w.AddImage(b, "j")
			o.note(v)
			return err
		})
	}
}

// pickValue chooses a value for a field by its name (no draw: names come from the document).
func pickValue(name string) interface{} {
	switch fnvb([]byte(name)) % 5 {
	case 0:
		return true
	case 1:
		return 12.5
	case 2:
		return []string{"a", "b"}
	}
	return "value (é)"
}

// encInfo2 is the unlocked encryption of a document, or nil.
func encInfo2(b, pw []byte) *types.PDFEncryption {
	defer func() { recover() }()
	p, err := parse.OpenWithOptions(b, parse.ParseOptions{Password: pw})
	if err != nil {
		return nil
	}
	return p.Encryption()
}

// encryptCalls calls everything that takes encryption parameters.
func encryptCalls(e *types.PDFEncryption, id, pw, b []byte) {
	k, _ := encrypt.DeriveEncryptionKey(pw, e, id, false)
	encrypt.ComputeUValue(k, e, id, false)
	ok, _ := encrypt.DeriveOwnerKey(pw, e, id, false)
	encrypt.DeriveUserKeyFromOwner(ok, e, false)
	k5, _ := encrypt.DeriveEncryptionKeyV5(pw, e, id, false)
	encrypt.UnwrapUserKeyV5(k5, e, false)
	o5, _ := encrypt.DeriveOwnerKeyV5(pw, e, id, false)
	encrypt.UnwrapOwnerKeyV5(o5, e, false)
	encrypt.ComputeUValueV5(pw, k5, e, id, false)
	encrypt.VerifyUValueV5(pw, k5, e, id, false)
	part := b
	if len(part) > 3000 {
		part = part[:3000]
	}
	encrypt.DecryptObject(part, 1, 0, e)
	encrypt.DecryptString(part, 1, 0, e)
	encrypt.DecryptStream(part, []byte("<</Type /XRef>>"), -1, 70000, e)
	encrypt.StreamDictMethod(part, e)
	for _, m := range []string{"V2", "AESV2", "AESV3", "Identity", "?", ""} {
		encrypt.ObjectKey(e, 1, 0, m)
	}
	encrypt.StreamMethod(e)
	encrypt.StringMethod(e)
}

func (o *ops) all(pw []byte, verbose bool) {
	for _, g := range opGroups {
		o.document(g, pw, verbose)
	}
}

// ---- damaging bytes ----

var extremes = []string{"0", "-1", "1", "2147483647", "2147483648", "-2147483648", "4294967296", "9223372036854775807", "-9223372036854775808", "99999999999999999999999", "1e9", "0.000001", "-.5", "65535", "65536", "1000000", "100000000", "null", "true", "()", "<>", "[]", "<<>>", "/", "(", "<", "[", "<<", ")", ">>", "]", "R", "obj", "endobj", "stream\n", "endstream", "xref", "trailer", "startxref", "%", "%%EOF\n", "\x00", "1 0 R", "2 0 R", "5 0 R", "1 0 obj", "/Length", "/Filter", "/Kids", "/Parent", "/Type /ObjStm", "/Type /XRef", "/Prev 0", "/Extends 1 0 R", "<</Predictor 15 /Columns 100000000>>"}

// damage changes a file's bytes in 1 to 6 places.
func damage(c *hx.C, b []byte) ([]byte, string) {
	b = append([]byte(nil), b...)
	what := ""
	for i, n := 0, num(c, "damages", 1, 6); i < n && len(b) > 0; i++ {
		at := spread(c, "at", len(b))
		k := num(c, "how", 0, 9)
		what += fmt.Sprint(k)
		switch k {
		case 0: // flip bits
			b[at] ^= byte(1 << num(c, "bit", 0, 7))
		case 1: // overwrite a byte
			b[at] = byte(pick(c, "byte", 0, '\n', '\r', ' ', '(', ')', '<', '>', '[', ']', '/', '%', '0', '9', '-', 255, 128))
		case 2: // cut a range
			m := min(len(b)-at, 1+spread(c, "cut", pick(c, "cutmax", 8, 200, 100000)))
			b = append(b[:at], b[at+m:]...)
		case 3: // repeat a range
			m := min(len(b)-at, 1+spread(c, "dup", pick(c, "dupmax", 8, 400)))
			part := bytes.Repeat(b[at:at+m], pick(c, "times", 1, 2, 50))
			b = append(b[:at:at], append(part, b[at:]...)...)
		case 4: // truncate
			b = b[:at]
		case 5, 6: // replace the number that follows
			j := at
			for j < len(b) && (b[j] < '0' || b[j] > '9') {
				j++
			}
			e := j
			for e < len(b) && b[e] >= '0' && b[e] <= '9' {
				e++
			}
			with := pick(c, "extreme", extremes...)
			if k == 6 {
				with = fmt.Sprint(num(c, "number", 0, 60))
			}
			b = append(b[:j:j], append([]byte(with), b[e:]...)...)
		case 7: // insert
			b = append(b[:at:at], append([]byte(pick(c, "insert", extremes...)), b[at:]...)...)
		case 8: // move a range
			m := min(len(b)-at, 1+spread(c, "mv", 300))
			part := append([]byte(nil), b[at:at+m]...)
			b = append(b[:at], b[at+m:]...)
			to := spread(c, "to", len(b)+1)
			b = append(b[:to:to], append(part, b[to:]...)...)
		case 9: // overwrite a keyword or name by another of the file
			j := bytes.IndexByte(b[at:], '/')
			l := bytes.IndexByte(b[spread(c, "other", len(b)):], '/')
			if j < 0 || l < 0 {
				continue
			}
			j += at
			e, e2 := j+1, l+1
			for e < len(b) && !strings.ContainsRune(" /<>[]()\r\n\t%", rune(b[e])) {
				e++
			}
			for e2 < len(b) && !strings.ContainsRune(" /<>[]()\r\n\t%", rune(b[e2])) {
				e2++
			}
			b = append(b[:j:j], append(append([]byte(nil), b[l:e2]...), b[e:]...)...)
		}
		if len(b) > 400000 {
			b = b[:400000]
		}
	}
	return b, what
}

// sourceDoc draws a valid document of any of the kinds the other checks use.
func sourceDoc(c *hx.C) (b, pw []byte, kind string) {
	switch num(c, "source", 0, 6) {
	case 0:
		f, b := genPageDoc(c, "p", 6)
		return b, f.user, "pages"
	case 1:
		m := genForm(c, "p", false)
		return m.b, m.pw, "form"
	case 2:
		m := genXFADoc(c, func(name string) []byte {
			if name == "datasets" || name == "template" {
				_, r, _ := genFieldXML(c, false)
				return []byte(r(nil))
			}
			return genPacket(c, name)
		})
		return m.b, m.pw, "xfa"
	case 3:
		d := genImageDoc(c)
		return d.b, d.f.user, "images"
	case 4:
		m := genHistory(c, histOpts{maxRev: 5})
		return m.bytes, nil, "history"
	case 5:
		pool := cPool(c)
		return cDoc(c, len(pool)).bytes(c, pool), nil, "content"
	}
	b, pw = genFontDoc(c)
	return b, pw, "fonts"
}

// genFontDoc is a document of one page that shows text in generated fonts.
func genFontDoc(c *hx.C) ([]byte, []byte) {
	f := newFD(c)
	r := prng(num(c, "fontseed", 1, 1<<30))
	root, _ := f.pageTree(1, func(i int) (ref.Dict, ref.Dict) {
		fonts := ref.Dict{}
		var cs bytes.Buffer
		cs.WriteString("BT ")
		for k, n := 0, count(c, "fonts", 1, 3, 20); k < n; k++ {
			o, codes, _ := genFont(c, f, &r)
			name := fmt.Sprintf("F%d", k)
			fonts = append(fonts, ref.KV{K: name, V: o})
			fmt.Fprintf(&cs, "/%s 12 Tf <", name)
			for j := 0; j < len(codes) && j < 30; j++ {
				fmt.Fprintf(&cs, "%x", codes[j].b)
			}
			cs.WriteString("> Tj ")
		}
		cs.WriteString("ET")
		return ref.Dict{{K: "Contents", V: f.stream(nil, cs.Bytes())}}, ref.Dict{{K: "MediaBox", V: ref.Arr{0, 0, 612, 792}}, {K: "Resources", V: ref.Dict{{K: "Font", V: fonts}}}}
	})
	f.trailer = ref.Dict{{K: "Root", V: f.add(ref.Dict{{K: "Type", V: ref.Name("Catalog")}, {K: "Pages", V: root}})}}
	return f.emit(), nil
}

// ---- damaging object graphs ----

// scramble replaces 1 to 6 values anywhere in the object graph.
func scramble(f *fd) {
	c := f.c
	ns := sortedKeys(f.objs)
	if len(ns) == 0 {
		return
	}
	for i, n := 0, num(c, "scrambles", 1, 6); i < n; i++ {
		self := ns[spread(c, "victim", len(ns))]
		o := f.objs[self]
		at := spread(c, "slot", countSlots(o))
		// prefer slots that hold references or the numbers and arrays near them
		f.objs[self] = replaceSlot(o, &at, func(key string, was ref.Obj) ref.Obj { return wrongValue(c, ns, self, key, was, f) })
	}
}

func countSlots(o ref.Obj) int {
	n := 1
	switch v := o.(type) {
	case ref.Dict:
		for _, e := range v {
			n += countSlots(e.V)
		}
	case ref.Arr:
		for _, e := range v {
			n += countSlots(e)
		}
	case *ref.Stream:
		n += countSlots(v.D)
	}
	return n
}

func replaceSlot(o ref.Obj, at *int, fn func(string, ref.Obj) ref.Obj) ref.Obj {
	return replaceIn("", o, at, fn)
}

func replaceIn(key string, o ref.Obj, at *int, fn func(string, ref.Obj) ref.Obj) ref.Obj {
	if *at == 0 {
		*at--
		return fn(key, o)
	}
	*at--
	switch v := o.(type) {
	case ref.Dict:
		out := ref.Dict{}
		for _, e := range v {
			if *at >= 0 {
				e.V = replaceIn(e.K, e.V, at, fn)
			}
			out = append(out, e)
		}
		return out
	case ref.Arr:
		out := ref.Arr{}
		for _, e := range v {
			if *at >= 0 {
				e = replaceIn(key, e, at, fn)
			}
			out = append(out, e)
		}
		return out
	case *ref.Stream:
		d, ok := replaceIn("", v.D, at, fn).(ref.Dict)
		if !ok {
			return v
		}
		return &ref.Stream{D: d, Data: v.Data}
	}
	return o
}

func wrongValue(c *hx.C, ns []int, self int, key string, was ref.Obj, f *fd) ref.Obj {
	if st, ok := was.(*ref.Stream); ok {
		d := st.D
		switch num(c, "streamhow", 0, 5) {
		case 0:
			d = d.With("Filter", wrongFilter(c))
		case 1:
			d = d.With("DecodeParms", wrongParms(c, ns))
		case 2:
			d = d.With("Filter", wrongFilter(c)).With("DecodeParms", wrongParms(c, ns))
		case 3:
			return &ref.Stream{D: d, Data: blob(c, "sdata", num(c, "slen", 0, 100))}
		case 4:
			return &ref.Stream{D: d, Data: st.Data[:spread(c, "strunc", len(st.Data)+1)]}
		case 5:
			return d
		}
		return &ref.Stream{D: d, Data: st.Data}
	}
	switch num(c, "wrong", 0, 12) {
	case 11, 12: // an object of its own that holds entries which refer back to it
		n := f.next
		f.next++
		loop := ref.Dict{{K: pick(c, "loopkey", "Kids", "Parent", "First", "Next", "Contents", "Annots", "Resources", "XObject", "Fields", "Opt", "Names", "Dests", "Font", "Encoding", "AP", "N", "DescendantFonts", "DecodeParms", "Filter", "Length"), V: ref.Ref{N: n}}}
		if flip(c, "looptype") {
			loop = append(loop, ref.KV{K: "T", V: ref.Str{B: []byte("t")}}, ref.KV{K: "Type", V: ref.Name(pick(c, "looptypename", "Pages", "Page", "Font", "XObject"))})
		}
		if flip(c, "loopdict") {
			f.objs[n] = loop
		} else {
			f.objs[n] = ref.Arr{loop, loop, was}
		}
		return ref.Ref{N: n}
	case 0:
		return ref.Null{}
	case 1:
		return ref.Real(pick(c, "extremenum", "0", "-1", "2147483648", "-2147483649", "9223372036854775807", "99999999999999999999999999", "1000000", "1073741824", "-0.5", "."))
	case 2, 3:
		return ref.Ref{N: ns[spread(c, "anyref", len(ns))]}
	case 4:
		return ref.Ref{N: self}
	case 5:
		return ref.Ref{N: pick(c, "badref", 0, 99999, 1<<31, f.next+3), G: pick(c, "badgen", 0, 1, 65535, 99999)}
	case 6:
		return genObj(c, 2, 40)
	case 7: // nested deeply
		var o ref.Obj = was
		for i, n := 0, num(c, "deep", 1, 600); i < n; i++ {
			if i%2 == 0 {
				o = ref.Arr{o}
			} else {
				o = ref.Dict{{K: "Kids", V: o}}
			}
		}
		return o
	case 8: // many
		a := ref.Arr{}
		for i, n := 0, num(c, "many", 2, 400); i < n; i++ {
			a = append(a, was)
		}
		return a
	case 9: // an array or a dictionary holding everything
		a := ref.Arr{}
		for _, n := range ns {
			a = append(a, ref.Ref{N: n})
		}
		return a
	}
	if d, ok := was.(ref.Dict); ok { // drop or add an entry
		if len(d) > 0 && flip(c, "drop") {
			k := d[spread(c, "dropped", len(d))].K
			return d.Without(k)
		}
		k := pick(c, "addkey", "Kids", "Parent", "First", "Next", "Prev", "Length", "Filter", "DecodeParms", "Type", "Count", "Contents", "Resources", "Encoding", "ToUnicode", "DescendantFonts", "FT", "V", "AP", "Opt", "XFA", "Extends", "Fields", "Dest", "A", "Annots", "SMask", "ColorSpace", "Width", "MediaBox", "Rotate")
		return d.With(k, pick[ref.Obj](c, "addval", (ref.Ref{N: self}), ref.Ref{N: ns[spread(c, "addref", len(ns))]}, ref.Arr{ref.Ref{N: self}}, 1000000000, ref.Name("X"), ref.Str{B: []byte("s")}))
	}
	return ref.Dict{{K: "Kids", V: ref.Arr{ref.Ref{N: self}, was}}, {K: "Parent", V: ref.Ref{N: self}}}
}

func wrongFilter(c *hx.C) ref.Obj {
	names := []string{"FlateDecode", "LZWDecode", "ASCIIHexDecode", "ASCII85Decode", "RunLengthDecode", "DCTDecode", "CCITTFaxDecode", "JBIG2Decode", "JPXDecode", "Crypt", "Fl", "A85", "AHx", "RL", "Unknown", ""}
	if flip(c, "onefilter") {
		return ref.Name(pick(c, "filter", names...))
	}
	a := ref.Arr{}
	for i, n := 0, num(c, "filters", 0, 12); i < n; i++ {
		a = append(a, ref.Name(pick(c, "filter", names...)))
	}
	return a
}

func wrongParms(c *hx.C, ns []int) ref.Obj {
	d := ref.Dict{}
	for _, k := range []string{"Predictor", "Columns", "Colors", "BitsPerComponent", "EarlyChange", "K", "Rows"} {
		if flip(c, "has"+k) {
			d = d.With(k, pick[ref.Obj](c, k, 0, -1, 1, 2, 3, 8, 10, 12, 15, 16, 32, 255, 1000, 100000, 1000000000, 9223372036854775807, -9223372036854775808, 1<<31, 1<<32, ref.Real("1.5"), ref.Null{}, ref.Ref{N: ns[0]}))
		}
	}
	if flip(c, "parmsarr") {
		return ref.Arr{d, ref.Null{}, d}
	}
	return d
}

// tokens draws text made of PDF tokens, sparse or dense.
func tokens(c *hx.C) []byte {
	var b bytes.Buffer
	words := append([]string{"%PDF-1.7\n", "xref\n0 3\n", "0000000000 65535 f \n", "0000000015 00000 n \n", "trailer\n<</Size 9 /Root 1 0 R>>\n", "startxref\n9\n%%EOF\n", "1 0 obj\n<</Type /Catalog /Pages 2 0 R>>\nendobj\n", "2 0 obj\n<</Type /Pages /Kids [2 0 R 3 0 R] /Count 2>>\nendobj\n", "3 0 obj\n<</Length 3 0 R>>\nstream\nx\nendstream\nendobj\n", "/Encrypt <</Filter /Standard /V 4 /R 4>>", "/ID [<00><00>]", " ", "\n"}, extremes...)
	if flip(c, "header") {
		b.WriteString("%PDF-1.5\n")
	}
	for _, i := range hx.Draw(c, rapid.SliceOfN(rapid.IntRange(0, len(words)-1), 0, 60), "tokens") {
		b.WriteString(words[i])
		if b.Len()%2 == 0 {
			b.WriteByte(' ')
		}
	}
	return b.Bytes()
}

func init() {
	s := hx.Reg("C08", "documents", 600, "Valid documents of seven kinds (page trees, forms, XFA packets, images, revision histories, page content, fonts; tables and streams, plain and encrypted) damaged in 1 to 6 places: bits, bytes, ranges cut, repeated or moved, truncation, numbers and names replaced by extremes or each other. Every exported operation is called on the result, with the password or without: each returns, within 10 s of CPU and 2 GB of allocations, without panic, and leaves the input alone. Non-trivial: at least three operations succeed.", func(c *hx.C) {
		b, pw, kind := sourceDoc(c)
		b, what := damage(c, b)
		c.Dump("damaged.pdf", b)
		o := newOps(c, b)
		o.all(pw, oneIn(c, "verbose", 8))
		if len(o.oks) >= 3 {
			c.NT(kind + " " + what + " " + o.key())
		}
		c.Class("kind " + kind)
		c.ClassIf(o.oks["parse.Open"], "opens")
		c.ClassIf(o.oks["extract.ExtractContent"], "extracts")
	})
	s.Journal = true
	s = hx.Reg("C08", "graphs", 900, "The same kinds of documents with 1 to 6 values anywhere in the object graph replaced before the file is written, so that the file structure is sound and the graph is not: null, extremes, references to itself, to any other object or to none, deep nesting, long arrays, wrong types, missing and added entries, wrong filters and parameters. Bounds as for documents. Non-trivial: at least three operations succeed.", func(c *hx.C) {
		c.Local = map[string]any{"emit": scramble}
		b, pw, kind := sourceDoc(c)
		c.Dump("scrambled.pdf", b)
		o := newOps(c, b)
		o.all(pw, oneIn(c, "verbose", 8))
		if len(o.oks) >= 3 {
			c.NT(kind + " " + o.key())
		}
		c.Class("kind " + kind)
		c.ClassIf(o.oks["parse.Open"], "opens")
		c.ClassIf(o.oks["extract.ExtractContent"], "extracts")
	})
	s.Journal = true
	s = hx.Reg("C08", "bytes", 1200, "Arbitrary bytes and text made of PDF tokens as a document. Bounds as for documents. Non-trivial: at least eight bytes and two different ones.", func(c *hx.C) {
		var b []byte
		switch num(c, "form", 0, 3) {
		case 0:
			b = blob(c, "b", num(c, "n", 0, 3000))
		case 1:
			b = append([]byte("%PDF-1.4\n"), nastyBytes(c, "n", 30)...)
		default:
			b = tokens(c)
		}
		c.Dump("input.pdf", b)
		o := newOps(c, b)
		o.all([]byte("pw"), oneIn(c, "verbose", 8))
		if len(b) >= 8 && bytes.Count(b, b[:1]) < len(b) {
			c.NT(fmt.Sprintf("%x %s", fnvb(b), o.key()))
		}
		c.ClassIf(o.oks["parse.Open"], "opens")
	})
	s.Journal = true
}

// ---- cross-reference sections ----

// sectionDoc draws a document of small objects and cross-reference sections (tables, streams, hybrid) that point at each other, at objects and nowhere: every offset is drawn from the places in the file.
func sectionDoc(c *hx.C) []byte {
	var b bytes.Buffer
	var holes []int // places of ten digits to fill in with an offset
	hole := func() { holes = append(holes, b.Len()); b.WriteString("0000000000") }
	b.WriteString("%PDF-1.5\n")
	nobj := num(c, "objects", 3, 8)
	nsec := num(c, "sections", 1, 6)
	size := nobj + nsec + 2
	offs := make(map[int]int)
	n := func(label string) int { return num(c, label, 0, size) }
	refTo := func(label string) string { return fmt.Sprintf("%d 0 R", n(label)) }
	var secs []int
	section := func(i int) {
		secs = append(secs, b.Len())
		links := func() {
			for _, k := range []string{"Prev", "XRefStm"} {
				if !oneIn(c, "no"+k, 3) {
					b.WriteString("/" + k + " ")
					hole()
				}
			}
		}
		root := 1
		if oneIn(c, "oddroot", 8) {
			root = n("root")
		}
		entryOf := func(k int) (typ, a, g int) {
			switch num(c, "entry", 0, 9) {
			case 0:
				return 0, n("freenext"), 0
			case 1, 2:
				return 2, n("container"), num(c, "index", 0, 4)
			case 3:
				return pick(c, "oddtype", 0, 3, 255), n("odda"), n("oddg")
			}
			if o, ok := offs[k]; ok && !oneIn(c, "wrongoff", 6) {
				return 1, o, 0
			}
			if len(secs) > 0 && flip(c, "atsec") {
				return 1, secs[spread(c, "sec", len(secs))], 0
			}
			return 1, spread(c, "anyoff", b.Len()+20), 0
		}
		if flip(c, "table") {
			b.WriteString("xref\n")
			for s, k := 0, num(c, "subs", 1, 3); s < k; s++ {
				first, cnt := 0, size
				if k > 1 {
					first, cnt = n("first"), num(c, "cnt", 0, size)
				}
				fmt.Fprintf(&b, "%d %d\n", first, cnt)
				for e := 0; e < cnt; e++ {
					t, a, g := entryOf(first + e)
					fmt.Fprintf(&b, "%010d %05d %c \n", a, g, map[bool]byte{true: 'n', false: 'f'}[t == 1])
				}
			}
			fmt.Fprintf(&b, "trailer\n<</Size %d /Root %d 0 R ", size, root)
			links()
			b.WriteString(">>\n")
			return
		}
		self := nobj + 1 + i
		var data []byte
		for k := 0; k < size; k++ {
			t, a, g := entryOf(k)
			if k == self && flip(c, "ownentry") {
				t, a, g = 1, secs[len(secs)-1], 0
			}
			data = append(data, byte(t), byte(a>>16), byte(a>>8), byte(a), byte(g))
		}
		fmt.Fprintf(&b, "%d 0 obj\n<</Type /XRef /W [1 3 1] /Size %d /Root %d 0 R ", self, size, root)
		links()
		if oneIn(c, "lenref", 5) {
			fmt.Fprintf(&b, "/Length %s ", refTo("len"))
		} else {
			fmt.Fprintf(&b, "/Length %d ", len(data))
		}
		b.WriteString(">>\nstream\n")
		b.Write(data)
		b.WriteString("\nendstream\nendobj\n")
	}
	at := map[int]int{} // sections before which object
	for i := 0; i < nsec; i++ {
		at[num(c, "where", 1, nobj+1)]++
	}
	done := 0
	for k := 1; k <= nobj+1; k++ {
		for ; at[k] > 0; at[k]-- {
			section(done)
			done++
		}
		if k > nobj {
			break
		}
		offs[k] = b.Len()
		fmt.Fprintf(&b, "%d 0 obj\n", k)
		kind := num(c, "kind", 0, 5)
		if k <= 3 && !oneIn(c, "oddkind", 5) {
			kind = 5 + k
		}
		switch kind {
		case 0:
			b.WriteString(refTo("alias"))
		case 1, 2: // an object stream of any objects, of another or itself
			cnt := num(c, "members", 0, 3)
			var head, body bytes.Buffer
			for m := 0; m < cnt; m++ {
				fmt.Fprintf(&head, "%d %d ", n("member"), body.Len())
				body.WriteString(pick(c, "mem", "<</Type /Catalog /Pages 2 0 R>> ", "<</Type /Pages /Kids [3 0 R] /Count 1>> ", "<</Type /Page /Parent 2 0 R>> ", "[1 0 R] ", "12 ", refTo("memref")+" "))
			}
			fmt.Fprintf(&b, "<</Type /ObjStm /N %d /First %d ", cnt, head.Len())
			if !oneIn(c, "noext", 3) {
				fmt.Fprintf(&b, "/Extends %s ", refTo("extends"))
			}
			if flip(c, "olenref") {
				fmt.Fprintf(&b, "/Length %s", refTo("olen"))
			} else {
				fmt.Fprintf(&b, "/Length %d", head.Len()+body.Len())
			}
			fmt.Fprintf(&b, ">>\nstream\n%s%s\nendstream", head.Bytes(), body.Bytes())
		case 3:
			fmt.Fprintf(&b, "<</Length %s /Filter %s /DecodeParms %s>>\nstream\nBT (x) Tj ET\nendstream", refTo("slen"), refTo("filter"), refTo("parms"))
		case 4:
			fmt.Fprintf(&b, "%d", num(c, "int", -1, 40))
		case 6:
			fmt.Fprintf(&b, "<</Type /Catalog /Pages 2 0 R /AcroForm %s /Outlines %s /Metadata %s>>", refTo("form"), refTo("outlines"), refTo("meta"))
		case 7:
			fmt.Fprintf(&b, "<</Type /Pages /Kids [%s %s] /Count 2 /Parent %s>>", pick(c, "kid", "3 0 R", refTo("anykid")), refTo("kid2"), refTo("par"))
		case 8:
			fmt.Fprintf(&b, "<</Type /Page /Parent %s /Contents %s /Resources %s /Annots %s>>", pick(c, "parent", "2 0 R", refTo("anyparent")), refTo("contents"), refTo("res"), refTo("annots"))
		default:
			fmt.Fprintf(&b, "<</Kids [%s %s] /Parent %s /First %s /Next %s /Fields [%s] /T (x) /Subtype /Form>>", refTo("k1"), refTo("k2"), refTo("p"), refTo("f"), refTo("nx"), refTo("fl"))
		}
		b.WriteString("\nendobj\n")
	}
	b.WriteString("startxref\n")
	start := b.Len()
	hole()
	b.WriteString("\n%%EOF\n")
	out := b.Bytes()
	for _, h := range holes {
		to := 0
		switch k := num(c, "to", 0, 11); {
		case h == start && k > 0, k > 3:
			to = secs[spread(c, "tosec", len(secs))]
		case k == 0:
			to = pick(c, "oddoff", 0, 1, len(out)-1, len(out), 1<<31)
		case k == 1:
			to = secs[spread(c, "nearsec", len(secs))] + pick(c, "off", -1, 1, 2, -9)
		default:
			to = spread(c, "anywhere", len(out))
		}
		copy(out[h:], fmt.Sprintf("%010d", max(to, 0)))
	}
	return out
}

func init() {
	s := hx.Reg("C08", "sections", 1500, "Small documents with 1 to 6 cross-reference sections (tables with any subsections, streams, hybrid) anywhere among the objects, whose /Prev, /XRefStm and startxref lead to each other in any way - loops of one, two or more, not always through the newest - or to no section, whose entries name any offset, container and index, with object streams inside and extending each other, and every reference (lengths, filters, page tree, outline, form) to any object. Bounds as for documents. Non-trivial: at least four operations succeed.", func(c *hx.C) {
		b := sectionDoc(c)
		c.Dump("sections.pdf", b)
		o := newOps(c, b)
		o.all(nil, oneIn(c, "verbose", 8))
		if len(o.oks) >= 4 {
			c.NT(fmt.Sprintf("%x %s", fnvb(b), o.key()))
		}
		c.ClassIf(o.oks["parse.Open"], "opens")
		c.ClassIf(o.oks["extract.ExtractContent"], "extracts")
	})
	s.Journal = true
}

// ---- fonts, filters, XML ----

// damageBinary changes bytes of a binary file, often by 16- and 32-bit extremes.
func damageBinary(c *hx.C, b []byte, head int) []byte {
	b = append([]byte(nil), b...)
	for i, n := 0, num(c, "damages", 1, 8); i < n && len(b) > 0; i++ {
		lim := len(b)
		if flip(c, "inhead") {
			lim = min(lim, head)
		}
		at := spread(c, "at", lim)
		switch num(c, "how", 0, 6) {
		case 0:
			b[at] ^= byte(1 << num(c, "bit", 0, 7))
		case 1:
			b[at] = byte(num(c, "byte", 0, 255))
		case 2: // 16 bits
			at &^= 1
			if at+2 <= len(b) {
				v := pick(c, "u16", 0, 1, 2, 0xffff, 0xfffe, 0x7fff, 0x8000, len(b)&0xffff, 0x1000)
				b[at], b[at+1] = byte(v>>8), byte(v)
			}
		case 3: // 32 bits
			at &^= 3
			if at+4 <= len(b) {
				v := pick[uint32](c, "u32", 0, 1, 0xffffffff, 0xfffffffe, 0x7fffffff, 0x80000000, uint32(len(b)), uint32(len(b)-1), uint32(len(b)+1), 0x10000, 0x01000000)
				b[at], b[at+1], b[at+2], b[at+3] = byte(v>>24), byte(v>>16), byte(v>>8), byte(v)
			}
		case 4:
			b = b[:at]
		case 5:
			m := min(len(b)-at, 1+spread(c, "cut", 64))
			b = append(b[:at], b[at+m:]...)
		case 6: // copy one place over another
			m := min(len(b)-at, 1+spread(c, "copy", 16))
			from := spread(c, "from", len(b)-m+1)
			copy(b[at:at+m], append([]byte(nil), b[from:from+m]...))
		}
	}
	return b
}

// fontOps runs everything that reads a font program.
func (o *ops) font(b []byte) {
	c := o.c
	text := "Hello, \u00e9\u4e2d\U0001F600 " + string(rune(num(c, "rune", 0, 0x10ffff)))
	o.do("font.ParseTTF", func() error { v, err := font.ParseTTF(b); o.note(v); return err })
	var f *font.Font
	o.do("font.NewFont", func() (err error) { f, err = font.NewFont("F", b); return })
	o.do("font.Read", func() error { v, err := font.Read(bytes.NewReader(b)); o.note(v); return err })
	if f == nil {
		return
	}
	o.do("Font methods", func() error {
		f.AddString(text)
		f.AddRune(-1)
		f.AddRune(0x7fffffff)
		v, err := f.GetSubsetGlyphs()
		o.note(f, v)
		o.note(f.GetWidths())
		o.note(f.CreateSubsetFont())
		return err
	})
	o.do("font embedding", func() error {
		sb := write.NewSimplePDFBuilder()
		p := sb.AddPage(write.PageSizeLetter)
		n, err := p.AddEmbeddedFont(f)
		if err != nil {
			return err
		}
		p.Content().BeginText().SetFont(n, 12).ShowText(text).EndText()
		sb.FinalizePage(p)
		v, err := sb.Bytes()
		o.note(v)
		return err
	})
}

var filterNames = []string{"/FlateDecode", "FlateDecode", "/Fl", "/LZWDecode", "/ASCIIHexDecode", "/AHx", "/ASCII85Decode", "/A85", "/RunLengthDecode", "/RL", "/DCTDecode", "/DCT", "/CCITTFaxDecode", "/JBIG2Decode", "/JPXDecode", "/Crypt", "", "/Unknown"}

// filterOps runs every decoder and encoder.
func (o *ops) filters(b []byte) {
	for _, n := range filterNames {
		o.do("parse.DecodeFilter "+n, func() error { v, err := parse.DecodeFilter(b, n); o.note(v); return err })
	}
	o.do("decoders", func() error {
		v, err := parse.DecodeFlateDecode(b)
		o.note(v)
		o.note(parse.DecodeASCIIHex(b))
		o.note(parse.DecodeASCII85(b))
		o.note(parse.DecodeRunLength(b))
		o.note(parse.DecodeDCTDecode(b))
		o.note(xfa.DecompressStream(b))
		return err
	})
	o.do("encoders", func() error {
		o.note(parse.EncodeASCIIHex(b))
		o.note(parse.EncodeASCII85(b))
		o.note(parse.EncodeRunLength(b))
		o.note(xfa.CompressStream(b))
		v, err := parse.EncodeDCTDecode(b)
		o.note(v)
		return err
	})
}

// xmlOps runs every reader of XFA packets.
func (o *ops) xml(s string, data types.FormData) {
	o.do("parse.ParseXFAFields", func() error { v, err := parse.ParseXFAFields(s, false); o.note(v); return err })
	o.do("xfa.UpdateXFAValues", func() error { v, err := xfa.UpdateXFAValues(s, data, false); o.note(v); return err })
	o.do("xfa.UpdateXFAFieldValues", func() error { v, err := xfa.UpdateXFAFieldValues(s, data, false); o.note(v); return err })
	o.do("xfa.ParseXFAForm", func() error {
		v, err := xfa.ParseXFAForm(s, false)
		o.note(v)
		if err == nil {
			o.note(xfa.FormToXFA(v, false))
			o.note(acroform.ValidateFormSchema(v, data))
		}
		return err
	})
	o.do("xfa.ParseXFADatasets", func() error {
		v, err := xfa.ParseXFADatasets(s, false)
		o.note(v)
		if err == nil {
			o.note(xfa.DatasetsToXFA(v, false))
		}
		return err
	})
	o.do("xfa.ParseXFAConfig", func() error {
		v, err := xfa.ParseXFAConfig(s, false)
		o.note(v)
		if err == nil {
			o.note(xfa.ConfigToXFA(v, false))
		}
		return err
	})
	o.do("xfa.ParseXFALocaleSet", func() error {
		v, err := xfa.ParseXFALocaleSet(s, false)
		o.note(v)
		if err == nil {
			o.note(xfa.LocaleSetToXFA(v, false))
		}
		return err
	})
	o.do("xfa.ParseXFAConnectionSet", func() error {
		v, err := xfa.ParseXFAConnectionSet(s, false)
		o.note(v)
		if err == nil {
			o.note(xfa.ConnectionSetToXFA(v, false))
		}
		return err
	})
	o.do("xfa.ParseXFAStylesheet", func() error {
		v, err := xfa.ParseXFAStylesheet(s, false)
		o.note(v)
		if err == nil {
			o.note(xfa.StylesheetToXFA(v, false))
		}
		return err
	})
}

// sourceXML draws a well-formed packet of any kind.
func sourceXML(c *hx.C) string {
	must := func(s string, err error) string {
		if err != nil {
			return "<a>" + err.Error() + "</a>"
		}
		return s
	}
	switch num(c, "xmlkind", 0, 6) {
	case 0:
		return must(xfa.LocaleSetToXFA(genLocales(c), false))
	case 1:
		return must(xfa.ConfigToXFA(genConfig(c), false))
	case 2:
		return must(xfa.ConnectionSetToXFA(genConnections(c), false))
	case 3:
		return must(xfa.StylesheetToXFA(genStyles(c), false))
	case 4:
		return must(xfa.DatasetsToXFA(genDatasets(c), false))
	case 5:
		return must(xfa.FormToXFA(genFormSchema(c), false))
	}
	_, r, _ := genFieldXML(c, flip(c, "scoped"))
	return r(nil)
}

var xmlBits = []string{"<", ">", "&", "&amp;", "&#0;", "&#x10ffff;", "<!--", "-->", "<![CDATA[", "]]>", "<?x", "?>", "<!DOCTYPE a [<!ENTITY b \"c\">]>", "&b;", "</a>", "<a>", "<field name=\"x\">", "<subform>", "</subform>", "=\"", "'", "xmlns:a=\"b\"", "<xfa:data>", "<value><text>", "</text></value>", "\x00", "\xff", "\xed\xa0\x80", "99999999999999999999", "-1", "1e309", "NaN"}

// damageText changes markup.
func damageText(c *hx.C, s string) string {
	for i, n := 0, num(c, "damages", 1, 6); i < n; i++ {
		at := spread(c, "at", len(s)+1)
		switch num(c, "how", 0, 4) {
		case 0:
			s = s[:at] + pick(c, "bit", xmlBits...) + s[at:]
		case 1:
			m := min(len(s)-at, 1+spread(c, "cut", 60))
			s = s[:at] + s[at+m:]
		case 2:
			s = s[:at]
		case 3:
			m := min(len(s)-at, 1+spread(c, "dup", 120))
			s = s[:at] + strings.Repeat(s[at:at+m], pick(c, "times", 2, 3, 40)) + s[at+m:]
		case 4:
			if j := strings.IndexByte(s[at:], '"'); j >= 0 {
				s = s[:at+j+1] + pick(c, "attr", xmlBits...) + s[at+j+1:]
			}
		}
		if len(s) > 300000 {
			s = s[:300000]
		}
	}
	return s
}

func init() {
	s := hx.Reg("C08", "fonts", 1000, "Generated TrueType and OpenType fonts damaged in 1 to 8 places, often in the table directory and by 16- and 32-bit extremes, and arbitrary bytes: parsing, character maps, metrics, subsetting and embedding return, within 10 s and 2 GB, without panic, and leave the input alone. Non-trivial: the font parses.", func(c *hx.C) {
		var b []byte
		if oneIn(c, "raw", 12) {
			b = append([]byte("\x00\x01\x00\x00"), blob(c, "b", num(c, "n", 0, 400))...)
		} else {
			b = damageBinary(c, genTTF(c).b, 400)
		}
		c.Dump("font.ttf", b)
		o := newOps(c, b)
		o.font(b)
		if o.oks["font.ParseTTF"] {
			c.NT(fmt.Sprintf("%x %s", fnvb(b), o.key()))
		}
		c.ClassIf(o.oks["font embedding"], "embeds")
	})
	s.Journal = true
	s = hx.Reg("C08", "filters", 1500, "Arbitrary bytes, structure-like bytes and encoded data with damage given to every filter by every name, directly; and in a stream object with any filters and parameters read through the document API. Non-trivial: a decoder accepts the data.", func(c *hx.C) {
		var b []byte
		switch num(c, "form", 0, 5) {
		case 0:
			b = blob(c, "b", num(c, "n", 0, 600))
		case 1:
			b = damageBinary(c, ref.Deflate(blob(c, "b", num(c, "n", 0, 2000))), 20)
		case 2:
			b = damageBinary(c, parse.EncodeASCII85(blob(c, "b", num(c, "n", 0, 300))), 20)
		case 3:
			b = damageBinary(c, parse.EncodeRunLength(blob(c, "b", num(c, "n", 0, 300))), 20)
		case 4:
			b = []byte(strings.Repeat(pick(c, "unit", "z", "!!!!!", "s8W-!", "~", "0", "a ", ">", "\x80\x00", "\x81a", "\x7f", "\x78\x9c", "\xff\xd8", "\n"), num(c, "rep", 0, 400)))
		case 5:
			b = []byte(damageText(c, string(parse.EncodeASCIIHex(blob(c, "b", num(c, "n", 0, 200))))))
		}
		c.Dump("data.bin", b)
		o := newOps(c, b)
		o.filters(b)
		d := ref.Dict{{K: "Filter", V: wrongFilter(c)}}
		if flip(c, "parms") {
			d = append(d, ref.KV{K: "DecodeParms", V: wrongParms(c, []int{3})})
		}
		f := ref.NewFile("1.7", "\n", false)
		fm := ref.Fmt{Sp: " "}
		f.Obj(1, 0, []byte("<</Type /Catalog /Pages 2 0 R>>"))
		f.Obj(2, 0, []byte("<</Type /Pages /Kids [] /Count 0>>"))
		f.Stream(3, 0, fm, d, b)
		f.EndTable(fm, ref.Dict{{K: "Root", V: ref.Ref{N: 1}}, {K: "Size", V: 4}})
		doc := f.Bytes()
		c.Dump("doc.pdf", doc)
		o2 := newOps(c, doc)
		o2.document("open", nil, false)
		if len(o.oks) > 1 {
			c.NT(fmt.Sprintf("%x %s", fnvb(b), o.key()))
		}
	})
	s.Journal = true
	s = hx.Reg("C08", "xml", 700, "XFA packets of every kind with damaged markup, and text made of markup fragments, given to every XFA parser and to both value updates; what parses is converted back. Bounds as for documents. Non-trivial: a parser accepts the text.", func(c *hx.C) {
		var s string
		if oneIn(c, "soup", 5) {
			for _, p := range hx.Draw(c, rapid.SliceOfN(rapid.SampledFrom(xmlBits), 0, 40), "soup") {
				s += p
			}
		} else {
			s = damageText(c, sourceXML(c))
		}
		c.Dump("packet.xml", []byte(s))
		o := newOps(c, []byte(s))
		o.xml(s, types.FormData{"a": "b", "x": 1, "name": "<&>"})
		if len(o.oks) > 0 {
			c.NT(fmt.Sprintf("%x %s", fnvb([]byte(s)), o.key()))
		}
	})
	s.Journal = true
}

// ---- scaling ----

var scaleUnits = []string{"(", "((", "[", "[[", "<<", "<</A ", "<</A [", "<", "/", "/A", "/A ", "%", "%\n", " ", "\n", "0", "1 ", "1 0 ", "1 0 R ", "9 0 R", "1 0 obj ", "1 0 obj<<>>", "1 0 obj\n<<>>\nendobj\n", "obj", "endobj ", "stream\n", "stream", "endstream\n", "xref\n", "xref\n0 1\n0000000000 65535 f \n", "0 1\n0000000000 65535 f \n", "trailer\n", "trailer<</Prev 9>>", "trailer<<>>\n", "startxref\n", "startxref\n9\n", "startxref\n9\n%%EOF\n", "%%EOF\n", "%EOF", "/Length 1", "/Type /ObjStm ", "/Encrypt ", "/Encrypt 1 0 R ", "/ID [<", "/Root 1 0 R", "/XFA [", "/Prev 1 ", ")", "\\", "\\(", "(\\)", "]", ">", ">>", "{", "}", "BT ", "ET ", "BT ET ", "q ", "Q ", "q Q ", "(a) Tj ", "BT (a) Tj ET ", "[(a) -1 (b)] TJ ", "BT /F 1 Tf ", "1 0 0 1 0 0 cm ", "0 0 1 1 re ", "0 0 m 1 1 l ", "f ", "0 0 1 1 re f ", "0 0 m 1 1 l S ", "/X Do ", "BI ", "BI /W 1 ID ", "BI ID x EI ", "ID ", "EI ", "T* ", "' ", "\" ", "<00> Tj ", "<", "-", ".", "1.1.", "+-", "true ", "null ", "beginbfchar ", "beginbfchar <00> <0041> endbfchar ", "<00> <0041> ", "<0000> <ffff> <0000> ", "beginbfrange <0000> <ffff> <0000> endbfrange ", "beginbfrange <00> <ff> [<0041>] endbfrange ", "begincodespacerange <00> <ff> endcodespacerange ", "1 begincidrange ", "endbfchar ", "<a>", "<a", "</a>", "<a></a>", "<a b=\"", "<!--", "<![CDATA[", "&amp;", "&", "<field name=\"a\">", "<field name=\"a\"></field>", "<field name=\"a\"/>", "<subform name=\"a\">", "<value><text>", "<?a ?>", "<!DOCTYPE a ", "<script>", "a.b.", "<data>", "z", "~", "\x00", "\xff", "\x80a", "x"}

// scaled repeats 1 to 3 units to about n bytes.
func scaled(c *hx.C, n int) ([]byte, string) {
	u := ""
	for i, k := 0, num(c, "units", 1, 3); i < k; i++ {
		u += pick(c, "unit", scaleUnits...)
	}
	b := bytes.Repeat([]byte(u), n/len(u)+1)
	if oneIn(c, "twice", 4) { // a second run of something else
		v := pick(c, "unit2", scaleUnits...)
		b = append(b[:len(b)/2:len(b)/2], bytes.Repeat([]byte(v), n/2/len(v)+1)...)
		u += "|" + v
	}
	return b, u
}

// withPart is a one-page document with the bytes at the place named.
func withPart(c *hx.C, place string, b []byte, filtered bool) []byte {
	f := ref.NewFile("1.7", "\n", false)
	fm := ref.Fmt{Sp: " "}
	content, cmap, xml := []byte("BT /F 12 Tf 1 0 0 1 50 50 Tm (hello) Tj ET"), []byte("1 beginbfchar <68> <0048> endbfchar"), []byte("<xfa:datasets xmlns:xfa=\"x\"><xfa:data><f1>a</f1></xfa:data></xfa:datasets>")
	body, js := []byte("<</Any 1>>"), "(v)"
	switch place {
	case "content":
		content = b
	case "cmap":
		cmap = b
	case "xml":
		xml = b
	case "object":
		body = b
	case "value":
		js = string(b)
	}
	stream := func(n int, d ref.Dict, data []byte) {
		if filtered {
			d, data = d.With("Filter", ref.Name("FlateDecode")), ref.Deflate(data)
		}
		f.Stream(n, 0, fm, d, data)
	}
	f.Obj(1, 0, []byte("<</Type /Catalog /Pages 2 0 R /AcroForm 8 0 R /Outlines 11 0 R>>"))
	f.Obj(2, 0, []byte("<</Type /Pages /Kids [3 0 R] /Count 1>>"))
	f.Obj(3, 0, []byte("<</Type /Page /Parent 2 0 R /MediaBox [0 0 100 100] /Contents 4 0 R /Resources <</Font <</F 5 0 R>>>> /Annots [9 0 R]>>"))
	stream(4, nil, content)
	f.Obj(5, 0, []byte("<</Type /Font /Subtype /Type1 /BaseFont /Helvetica /ToUnicode 6 0 R>>"))
	stream(6, nil, cmap)
	stream(7, nil, xml)
	f.Obj(8, 0, []byte("<</Fields [9 0 R] /XFA [(datasets) 7 0 R] /DA (/Helv 0 Tf)>>"))
	f.Obj(9, 0, []byte("<</Type /Annot /Subtype /Widget /FT /Tx /T (a) /Rect [0 0 10 10] /P 3 0 R /V "+js+">>"))
	f.Obj(10, 0, body)
	f.Obj(11, 0, []byte("<</First 12 0 R /Last 12 0 R>>"))
	f.Obj(12, 0, []byte("<</Parent 11 0 R /Title (x) /Dest [3 0 R /Fit]>>"))
	f.EndTable(fm, ref.Dict{{K: "Root", V: ref.Ref{N: 1}}, {K: "Size", V: 13}})
	return f.Bytes()
}

// longGraph is a document with n of something, all of it sound.
func longGraph(c *hx.C, kind string, n int) []byte {
	f := ref.NewFile("1.7", "\n", false)
	fm := ref.Fmt{Sp: " "}
	fm.Tight = false
	var ms []ref.Member
	inStm := flip(c, "objstm")
	per := pick(c, "per", 50, 100, 1000000)
	obj := func(k int, s string) {
		if inStm {
			ms = append(ms, ref.Member{N: k, Body: []byte(s)})
		} else {
			f.Obj(k, 0, []byte(s))
		}
	}
	refs := func(from, to int) string {
		var b bytes.Buffer
		for i := from; i < to; i++ {
			fmt.Fprintf(&b, "%d 0 R ", i)
		}
		return b.String()
	}
	cat, pages, page := "", "<</Type /Pages /Kids [3 0 R] /Count 1>>", "<</Type /Page /Parent 2 0 R /MediaBox [0 0 9 9]"
	const base = 20
	switch kind {
	case "outline":
		cat = "/Outlines 10 0 R"
		obj(10, fmt.Sprintf("<</First %d 0 R /Last %d 0 R /Count %d>>", base, base+n-1, n))
		for i := 0; i < n; i++ {
			next := ""
			if i < n-1 {
				next = fmt.Sprintf("/Next %d 0 R", base+i+1)
			}
			obj(base+i, fmt.Sprintf("<</Parent 10 0 R /Title (t%d) /Dest [3 0 R /Fit] %s>>", i, next))
		}
	case "outline depth":
		n /= 4 // the indentation of nested JSON is as deep as the outline
		cat = "/Outlines 10 0 R"
		obj(10, fmt.Sprintf("<</First %d 0 R /Last %d 0 R>>", base, base))
		for i := 0; i < n; i++ {
			next := ""
			if i < n-1 {
				next = fmt.Sprintf("/First %d 0 R /Last %d 0 R /Count 1", base+i+1, base+i+1)
			}
			obj(base+i, fmt.Sprintf("<</Parent 10 0 R /Title (t%d) %s>>", i, next))
		}
	case "pages":
		pages = fmt.Sprintf("<</Type /Pages /Kids [%s] /Count %d>>", refs(base, base+n), n)
		for i := 0; i < n; i++ {
			obj(base+i, "<</Type /Page /Parent 2 0 R /MediaBox [0 0 9 9]>>")
		}
	case "page depth":
		pages = fmt.Sprintf("<</Type /Pages /Kids [%d 0 R] /Count 1>>", base)
		for i := 0; i < n; i++ {
			obj(base+i, fmt.Sprintf("<</Type /Pages /Parent %d 0 R /Kids [%d 0 R] /Count 1>>", base+i-1, base+i+1))
		}
		obj(base+n, fmt.Sprintf("<</Type /Page /Parent %d 0 R /MediaBox [0 0 9 9]>>", base+n-1))
	case "fields":
		cat = "/AcroForm 10 0 R"
		obj(10, "<</Fields ["+refs(base, base+n)+"]>>")
		page += " /Annots [" + refs(base, base+n) + "]"
		for i := 0; i < n; i++ {
			obj(base+i, fmt.Sprintf("<</Type /Annot /Subtype /Widget /FT /Tx /T (f%d) /Rect [0 0 9 9]>>", i))
		}
	case "field depth":
		cat = "/AcroForm 10 0 R"
		obj(10, fmt.Sprintf("<</Fields [%d 0 R]>>", base))
		for i := 0; i < n; i++ {
			obj(base+i, fmt.Sprintf("<</T (f) /Kids [%d 0 R] /Parent %d 0 R>>", base+i+1, base+i-1))
		}
		obj(base+n, fmt.Sprintf("<</FT /Tx /T (f) /V (x) /Parent %d 0 R>>", base+n-1))
	case "annots":
		page += " /Annots [" + refs(base, base+n) + "]"
		for i := 0; i < n; i++ {
			obj(base+i, fmt.Sprintf("<</Type /Annot /Subtype /Text /Contents (c%d) /Rect [0 0 9 9]>>", i))
		}
	case "resources":
		var b bytes.Buffer
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, "/F%d %d 0 R ", i, base+i)
			obj(base+i, "<</Type /Font /Subtype /Type1 /BaseFont /Helvetica>>")
		}
		page += " /Resources <</Font <<" + b.String() + ">>>>"
	case "contents":
		page += " /Contents [" + refs(base, base+n) + "]"
		for i := 0; i < n; i++ {
			f.Stream(base+i, 0, fm, nil, []byte("BT (a) Tj ET"))
		}
	case "objects":
		for i := 0; i < n; i++ {
			obj(base+i, "<</A 1>>")
		}
	case "reference chain":
		cat = fmt.Sprintf("/Names %d 0 R", base)
		for i := 0; i < n; i++ {
			obj(base+i, fmt.Sprintf("%d 0 R", base+i+1))
		}
		obj(base+n, "1")
	case "wide dictionary":
		var b bytes.Buffer
		for i := 0; i < 5*n; i++ {
			fmt.Fprintf(&b, "/K%d %d ", i, i)
		}
		cat = b.String()
	}
	obj(1, "<</Type /Catalog /Pages 2 0 R "+cat+">>")
	obj(2, pages)
	obj(3, page+">>")
	if inStm {
		k := base + n + 5
		for len(ms) > 0 {
			m := min(per, len(ms))
			f.ObjStm(k, fm, ms[:m], true, " ", nil)
			ms = ms[m:]
			k++
		}
		f.EndStream(fm, ref.Dict{{K: "Root", V: ref.Ref{N: 1}}, {K: "Size", V: k + 1}}, ref.XS{Num: k, Compress: true})
	} else {
		f.EndTable(fm, ref.Dict{{K: "Root", V: ref.Ref{N: 1}}, {K: "Size", V: base + n + 5}})
	}
	return f.Bytes()
}

var longKinds = []string{"outline", "outline depth", "pages", "page depth", "fields", "field depth", "annots", "resources", "contents", "objects", "reference chain", "wide dictionary"}

func init() {
	s := hx.Reg("C08", "long", 24, "Sound documents with thousands of pages, outline items, fields, annotations, fonts, content streams or objects, flat or in a chain, in the file or in object streams. One group of operations is called on each. Non-trivial: all.", func(c *hx.C) {
		kind := pick(c, "kind", longKinds...)
		n := 3000 + spread(c, "n", 9000)
		b := longGraph(c, kind, n)
		g := pick(c, "group", opGroups...)
		c.Dump("long.pdf", b)
		o := newOps(c, b)
		o.document(g, nil, false)
		c.NT(fmt.Sprintf("%s %s %d", kind, g, n))
		c.Class(kind)
	})
	s.Journal = true
	s = hx.Reg("C08", "scaling", 60, "One to three tokens repeated to about a megabyte, as the whole file, with or without a valid document around it, as a page's content, an object, a value, a character map or an XFA packet, raw or compressed, as XML, and as filter input. Non-trivial: all.", func(c *hx.C) {
		n := 200000 + spread(c, "n", 1000000)
		part, u := scaled(c, n)
		place := pick(c, "place", "whole", "header", "before", "after", "middle", "content", "cmap", "xml", "object", "value", "text", "filter")
		b := part
		switch place {
		case "header":
			b = append([]byte("%PDF-1.7\n"), part...)
		case "before", "after", "middle":
			doc := withPart(c, "", nil, false)
			at := map[string]int{"before": 0, "after": len(doc), "middle": spread(c, "at", len(doc))}[place]
			b = append(append(append([]byte(nil), doc[:at]...), part...), doc[at:]...)
		case "content", "cmap", "xml", "object", "value":
			b = withPart(c, place, part, flip(c, "filtered"))
		}
		c.Dump("scaled.bin", b)
		o := newOps(c, b)
		o.cpu = 20 * time.Second
		g := ""
		switch place {
		case "text":
			o.xml(string(b), types.FormData{"a": "b"})
		case "filter":
			o.filters(b)
		default:
			g = pick(c, "group", opGroups...)
			o.document(g, nil, false)
		}
		c.NT(fmt.Sprintf("%q %s %s", u, place, g))
		c.Class(place)
	})
	s.Journal = true
}
