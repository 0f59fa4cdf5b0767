package props

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/md5"
	"crypto/sha256"
	"errors"
	"fmt"

	"github.com/benedoc-inc/pdfer/core/encrypt"
	"github.com/benedoc-inc/pdfer/core/parse"
	"github.com/benedoc-inc/pdfer/types"
	"verif/harness/hx"
	"verif/harness/ref"
)

// genPassword draws a password; ASCII and raw bytes, lengths around the 32- and 127-byte limits.
func genPassword(c *hx.C, label string) []byte {
	switch num(c, label+"k", 0, 5) {
	case 0:
		return []byte{}
	case 1:
		return []byte(pick(c, label, "user", "owner", "p", "secret", "a b c", "(pass)\\", "pässword", "密码", "correct horse battery staple"))
	case 2:
		return blob(c, label, num(c, label+"n", 1, 12))
	case 3:
		return blob(c, label, num(c, label+"n", 30, 34))
	case 4:
		return blob(c, label, num(c, label+"n", 120, 135))
	}
	return []byte(fmt.Sprintf("pw%d", num(c, label+"i", 0, 1<<20)))
}

// effective returns the part of a password that counts.
func effective(r int, pw []byte) string {
	if r >= 5 {
		if len(pw) > 127 {
			pw = pw[:127]
		}
		return string(pw)
	}
	return string(append(append([]byte{}, pw...), padString...)[:32])
}

var padString = []byte("\x28\xBF\x4E\x5E\x4E\x75\x8A\x41\x64\x00\x4E\x56\xFF\xFA\x01\x08\x2E\x2E\x00\xB6\xD0\x68\x3E\x80\x2F\x0C\xA9\xFE\x64\x53\x69\x7A")

// wrongPasswords derives near misses of the right passwords.
func wrongPasswords(c *hx.C, r int, user, owner []byte) [][]byte {
	ok := map[string]bool{effective(r, user): true, effective(r, owner): true}
	if r < 5 && len(owner) == 0 {
		ok[effective(r, user)] = true
	}
	var out [][]byte
	add := func(pw []byte) {
		if !ok[effective(r, pw)] {
			out = append(out, pw)
		}
	}
	add(nil)
	add([]byte("wrong"))
	for _, pw := range [][]byte{user, owner} {
		add(append(append([]byte{}, pw...), ' '))
		add(append(append([]byte{}, pw...), pw...))
		if len(pw) > 0 {
			add(pw[:len(pw)-1])
			x := append([]byte{}, pw...)
			x[num(c, "wrongAt", 0, len(x)-1)] ^= 1 << num(c, "wrongBit", 0, 7)
			add(x)
			add(bytes.ToUpper(pw))
		}
		// what cyclic padding would take for the same password
		if len(pw) > 0 && len(pw) < 16 {
			add(append(append([]byte{}, pw...), pw[0]))
		}
	}
	add(blob(c, "wrongRnd", num(c, "wrongN", 1, 40)))
	return out
}

func isEncryptionError(err error) bool {
	for err != nil {
		var pe *types.PDFError
		if !errors.As(err, &pe) {
			return false
		}
		switch pe.Code {
		case types.ErrCodeWrongPassword, types.ErrCodeDecryptionFailed, types.ErrCodeEncrypted, types.ErrCodeUnsupportedCrypto:
			return true
		}
		err = pe.Unwrap()
	}
	return false
}

// checkRejects verifies that a password does not open the document in any way.
func checkRejects(c *hx.C, b, pw []byte) {
	c.Helper()
	for _, bp := range []bool{false, true} {
		pdf, err := parse.OpenWithOptions(b, parse.ParseOptions{Password: pw, BytePerfect: bp})
		if err == nil {
			c.Fail("password %q opened the document (BytePerfect %v, encrypted %v)", pw, bp, pdf.IsEncrypted())
		}
		if !isEncryptionError(err) {
			c.Fail("password %q: not an encryption error: %v", pw, err)
		}
	}
}

func init() {
	hx.Reg("C05", "opens", 700, "documents of 1-10 random objects and streams, encrypted by an independent standard security handler (V1/V2/V4/V5, R2-R6, RC4 40-128, AES-128/256, split stream and string methods, own crypt filters, unencrypted metadata, any permissions, file ID and password pair, literal or hex entries, direct or indirect dictionary) in any file form; opened with the user and the owner password (both parse modes) and with near-miss passwords; non-trivial: a string and a stream, keyed by form",
		func(c *hx.C) {
			f := newFD(c)
			f.user, f.owner = genPassword(c, "user"), genPassword(c, "owner")
			root, _ := f.pageTree(count(c, "pages", 1, 2, 30), func(i int) (ref.Dict, ref.Dict) {
				return nil, ref.Dict{{K: "MediaBox", V: ref.Arr{0, 0, 200, 300}}}
			})
			cat := ref.Dict{{K: "Type", V: ref.Name("Catalog")}, {K: "Pages", V: root}}
			strs, streams := 0, 0
			for i, n := 0, count(c, "objs", 1, 10, 150); i < n; i++ {
				switch num(c, "objk", 0, 6) {
				case 0, 1:
					f.add(genObj(c, 3, 30))
				case 2, 3:
					strs++
					f.add(ref.Dict{{K: "S", V: ref.Str{B: blob(c, "s", num(c, "sn", 0, 50)), Hex: flip(c, "shex")}},
						{K: "A", V: ref.Arr{ref.Str{B: nastyBytes(c, "sa", 3)}, ref.Dict{{K: "T", V: ref.Str{B: []byte("nested)(")}}}}}})
					if oneIn(c, "lookAlike", 8) { // resembles the encryption dictionary
						f.add(ref.Dict{{K: "Filter", V: ref.Name("Standard")}, {K: "V", V: 4}, {K: pick(c, "lookAlikeKey", "O", "U", "Perms", "S"), V: ref.Str{B: []byte("an ordinary string")}}})
					}
				case 4, 5:
					streams++
					f.stream(ref.Dict{{K: "Note", V: ref.Str{B: []byte("dictionary string")}}}, blob(c, "data", num(c, "dn", 0, 100)))
				case 6:
					streams++
					switch num(c, "spec", 0, 3) {
					case 0:
						cat = cat.With("Metadata", f.rawStream(ref.Dict{{K: "Type", V: ref.Name("Metadata")}, {K: "Subtype", V: ref.Name("XML")}, {K: "S", V: ref.Str{B: []byte("in dict")}}}, []byte("<?xpacket begin='' ?><x:xmpmeta/>")))
					case 1:
						f.rawStream(ref.Dict{{K: "Filter", V: ref.Name("Crypt")}, {K: "DecodeParms", V: ref.Dict{{K: "Type", V: ref.Name("CryptFilterDecodeParms")}, {K: "Name", V: ref.Name("Identity")}}}}, []byte("plain by its own filter"))
					case 2:
						f.rawStream(ref.Dict{{K: "Filter", V: ref.Arr{ref.Name("Crypt"), ref.Name("FlateDecode")}}}, ref.Deflate([]byte("plain by default")))
					case 3:
						f.rawStream(ref.Dict{}, []byte{})
					}
				}
			}
			f.trailer = ref.Dict{{K: "Root", V: f.add(cat)}, {K: "Info", V: f.add(ref.Dict{{K: "Title", V: ref.Str{B: []byte("Secret title")}}})}}
			b := f.emit()
			same := guard(b)
			c.Dump("in.pdf", b)
			cr := f.crypt
			if cr.V < 4 {
				// no crypt filters before version 4: such streams would be encrypted and undecodable
				for _, o := range f.objs {
					if s, ok := o.(*ref.Stream); ok && s.D.Has("Filter") {
						if n, ok := s.D.Get("Filter").(ref.Name); ok && n == "Crypt" {
							c.Excluded("crypt filter before V4")
							return
						}
						if a, ok := s.D.Get("Filter").(ref.Arr); ok && a[0] == ref.Obj(ref.Name("Crypt")) {
							c.Excluded("crypt filter before V4")
							return
						}
					}
				}
			}
			owner := f.owner
			if cr.R < 5 && len(owner) == 0 {
				owner = f.user
			}
			for _, pw := range [][]byte{f.user, owner} {
				for _, bp := range []bool{false, true} {
					pdf, err := parse.OpenWithOptions(b, parse.ParseOptions{Password: pw, BytePerfect: bp})
					if err != nil {
						c.Fail("%s: right password %q (owner %v): %v", f.form, pw, &pw == &owner, err)
					}
					if !pdf.IsEncrypted() {
						c.Fail("%s: not reported as encrypted", f.form)
					}
					e := pdf.Encryption()
					if e.V != cr.V || e.R != cr.R || e.P != cr.P || e.KeyLength != cr.KeyLen || e.EncryptMetadata != cr.EncMeta {
						c.Fail("%s: encryption parameters %d %d %d %d %v, want %d %d %d %d %v", f.form, e.V, e.R, e.P, e.KeyLength, e.EncryptMetadata, cr.V, cr.R, cr.P, cr.KeyLen, cr.EncMeta)
					}
					if !bytes.Equal(e.EncryptKey, cr.Key) {
						c.Fail("%s: file key %x, want %x", f.form, e.EncryptKey, cr.Key)
					}
					for n, o := range f.objs {
						got, err := libObj(pdf, n)
						if err != nil {
							c.Fail("%s: object %d: %v", f.form, n, err)
						}
						if s, ok := o.(*ref.Stream); ok {
							gs, ok := got.(*ref.Stream)
							if !ok || !bytes.Equal(gs.Data, s.Data) {
								c.Fail("%s: stream %d: got %.80x want %.80x", f.form, n, ref.Canon(got), s.Data)
							}
							if want, err := ref.Decode(s); err == nil {
								if _, data, err := pdf.StreamData(n); err != nil || !bytes.Equal(data, want) {
									c.Fail("%s: data of stream %d: %.80q, %v; want %.80q", f.form, n, data, err, want)
								}
							}
							got, o = gs.D.Without("Length"), s.D.Without("Length")
						}
						if ref.Canon(got) != ref.Canon(o) {
							c.Fail("%s: object %d: got %.300s want %.300s", f.form, n, ref.Canon(got), ref.Canon(o))
						}
					}
					for _, n := range pdf.Objects() { // cross-reference streams are not encrypted
						if _, ok := f.objs[n]; ok {
							continue
						}
						if o, err := libObj(pdf, n); err == nil {
							if s, ok := o.(*ref.Stream); ok && s.D.Get("Type") == ref.Obj(ref.Name("XRef")) {
								if !bytes.Contains(b, s.Data) {
									c.Fail("%s: cross-reference stream %d was decrypted: %.80q", f.form, n, s.Data)
								}
								c.Class("cross-reference stream read as an object")
							}
						}
					}
					if pdf.HasObject(9999) || len(pdf.Bytes()) != len(b) {
						c.Fail("structure changed")
					}
				}
				_, e, err := encrypt.DecryptPDF(b, pw, false)
				if err != nil || !bytes.Equal(e.EncryptKey, cr.Key) {
					c.Fail("%s: DecryptPDF with password %q: %v", f.form, pw, err)
				}
				pdf, err := parse.OpenWithOptions(b, parse.ParseOptions{Password: pw})
				if err != nil {
					c.Fail("%s: %v", f.form, err)
				}
				for n := range f.objs {
					want, err1 := pdf.GetObject(n)
					got, err2 := parse.GetObject(b, n, e, false)
					if err1 != nil || err2 != nil || !bytes.Equal(got, want) {
						c.Fail("%s: object %d by parse.GetObject: %.200q, %v; by the document: %.200q, %v", f.form, n, got, err2, want, err1)
					}
				}
			}
			for _, pw := range wrongPasswords(c, cr.R, f.user, owner) {
				checkRejects(c, b, pw)
				if _, _, err := encrypt.DecryptPDF(b, pw, false); err == nil || !isEncryptionError(err) {
					c.Fail("%s: DecryptPDF with wrong password %q: %v", f.form, pw, err)
				}
			}
			if !same() {
				c.Fail("input modified")
			}
			c.Class(fmt.Sprintf("V%d R%d %s", cr.V, cr.R, cr.Method(cr.StmM)))
			c.ClassIf(!cr.EncMeta, "plain metadata")
			c.ClassIf(cr.Method(cr.StmM) != cr.Method(cr.StrM), "split methods")
			if strs > 0 && streams > 0 {
				c.NT(f.form)
			}
		})

	hx.Reg("C05", "package-scheme", 1500, "documents in the AES-256 scheme earlier versions of this package wrote (48-byte wrapped keys), built by an independent implementation, opened with right and wrong passwords; non-trivial: every case, keyed by the password pair", legacyCase)
}

// legacyCase exercises files whose key is wrapped as earlier versions of the package did.
func legacyCase(c *hx.C) {
	user, owner := genPassword(c, "user"), genPassword(c, "owner")
	id := blob(c, "id", num(c, "idn", 0, 20))
	id8 := make([]byte, 8)
	copy(id8, id)
	pk := func(pw []byte) []byte {
		k := sha256.Sum256(append(append([]byte{}, pw...), id8...))
		for i := 0; i < 64; i++ {
			k = sha256.Sum256(k[:])
		}
		return k[:]
	}
	ecb := func(key, data []byte) []byte {
		b, _ := aes.NewCipher(key[:16])
		out := make([]byte, len(data))
		for i := 0; i < len(data); i += 16 {
			b.Encrypt(out[i:], data[i:i+16])
		}
		return out
	}
	fileKey := blob(c, "key", 32)
	us, os := blob(c, "us", 16), blob(c, "os", 16)
	check := func(pw, salt, u []byte) []byte {
		h := sha256.Sum256(append(append(append([]byte{}, pw...), salt[:8]...), u...))
		return append(append(append([]byte{}, salt[:8]...), ecb(pk(pw), h[:])...), salt[8:]...)
	}
	wrap := func(pw []byte) []byte {
		return ecb(pk(pw), append(append([]byte{}, fileKey...), bytes.Repeat([]byte{16}, 16)...))
	}
	u := check(user, us, nil)
	d := ref.Dict{{K: "Filter", V: ref.Name("Standard")}, {K: "V", V: 5}, {K: "R", V: 5}, {K: "Length", V: 256}, {K: "P", V: -3904},
		{K: "U", V: ref.Str{B: u, Hex: flip(c, "hex")}}, {K: "O", V: ref.Str{B: check(owner, os, u), Hex: flip(c, "hex")}},
		{K: "UE", V: ref.Str{B: wrap(user), Hex: flip(c, "hex")}}, {K: "OE", V: ref.Str{B: wrap(owner), Hex: flip(c, "hex")}}}
	enc := func(data []byte, n int) []byte {
		h := md5.New()
		h.Write(fileKey)
		h.Write([]byte{byte(n), byte(n >> 8), byte(n >> 16), 0, 0, 's', 'A', 'l', 'T'})
		iv := blob(c, "iv", 16)
		blk, _ := aes.NewCipher(h.Sum(nil))
		pad := 16 - len(data)%16
		x := append(append([]byte{}, data...), bytes.Repeat([]byte{byte(pad)}, pad)...)
		cipher.NewCBCEncrypter(blk, iv).CryptBlocks(x, x)
		return append(iv, x...)
	}
	f := ref.NewFile("1.7", "\n", true)
	fm := genFmt(c)
	f.Obj(1, 0, fm.Bytes(ref.Dict{{K: "Type", V: ref.Name("Catalog")}, {K: "Pages", V: ref.Ref{N: 2}}}))
	f.Obj(2, 0, fm.Bytes(ref.Dict{{K: "Type", V: ref.Name("Pages")}, {K: "Kids", V: ref.Arr{}}, {K: "Count", V: 0}}))
	data := blob(c, "data", num(c, "dn", 0, 70))
	str := blob(c, "str", num(c, "sn", 0, 40))
	f.Stream(3, 0, fm, ref.Dict{{K: "S", V: ref.Str{B: enc(str, 3)}}}, enc(data, 3))
	f.Obj(4, 0, fm.Bytes(d))
	f.EndTable(fm, ref.Dict{{K: "Size", V: 5}, {K: "Root", V: ref.Ref{N: 1}}, {K: "Encrypt", V: ref.Ref{N: 4}}, {K: "ID", V: ref.Arr{ref.Str{B: id, Hex: true}, ref.Str{B: id, Hex: true}}}})
	b := f.Bytes()
	c.Dump("in.pdf", b)
	for _, pw := range [][]byte{user, owner} {
		pdf, err := parse.OpenWithOptions(b, parse.ParseOptions{Password: pw})
		if err != nil {
			c.Fail("right password %q: %v", pw, err)
		}
		if !bytes.Equal(pdf.Encryption().EncryptKey, fileKey) {
			c.Fail("password %q: key %x want %x", pw, pdf.Encryption().EncryptKey, fileKey)
		}
		o, err := libObj(pdf, 3)
		if err != nil {
			c.Fail("%v", err)
		}
		if s, ok := o.(*ref.Stream); !ok || !bytes.Equal(s.Data, data) || ref.Canon(s.D.Get("S")) != ref.Canon(ref.Str{B: str}) {
			c.Fail("password %q: stream decrypts to %.100s, want %x and string %x", pw, ref.Canon(o), data, str)
		}
	}
	ok := map[string]bool{string(user): true, string(owner): true}
	for _, pw := range wrongPasswords(c, 5, user, owner) {
		if !ok[string(pw)] {
			checkRejects(c, b, pw)
		}
	}
	c.NT(fmt.Sprintf("%x/%x", user, owner))
}
