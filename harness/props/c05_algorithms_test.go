package props

import (
	"bytes"
	"fmt"

	"github.com/benedoc-inc/pdfer/core/encrypt"
	"github.com/benedoc-inc/pdfer/types"
	"verif/harness/hx"
	"verif/harness/ref"
)

// genCrypt draws a configuration of the standard security handler.
func genCrypt(c *hx.C, user, owner, id []byte) *ref.Crypt {
	cfg := [][4]int{{1, 2, 5, 0}, {1, 3, 5, 0}, {2, 3, 16, 0}, {2, 3, 0, 0}, {4, 4, 16, 0}, {4, 4, 16, 1}, {5, 5, 32, 1}, {5, 6, 32, 1}}[num(c, "alg", 0, 7)]
	if cfg[2] == 0 {
		cfg[2] = num(c, "klen", 5, 16)
	}
	p := int32(pick(c, "perms", -44, -4, -1, -3904, 0, 4, -2147483648, 0x7ffffffc))
	salt := uint32(num(c, "salts", 0, 1<<30))
	cr := ref.NewCrypt(cfg[0], cfg[1], cfg[2], cfg[3] == 1, user, owner, id, p, cfg[0] < 4 || !oneIn(c, "nometa", 3), func(n int) []byte {
		out := make([]byte, n)
		for i := range out {
			salt = salt*1664525 + 1013904223
			out[i] = byte(salt >> 24)
		}
		return out
	})
	cr.Lit, cr.Opt = flip(c, "enclit"), num(c, "encopt", 0, 15)
	if cr.V >= 4 && oneIn(c, "split", 3) {
		own := cr.Method("")
		ms := [][2]string{{own, "Identity"}, {"Identity", own}}
		if cr.V == 4 {
			ms = append(ms, [2]string{"V2", "AESV2"}, [2]string{"AESV2", "V2"})
		}
		m := ms[num(c, "splitm", 0, len(ms)-1)]
		cr.StmM, cr.StrM = m[0], m[1]
	}
	return cr
}

func init() {
	hx.Reg("C05", "algorithms", 900, "an encryption dictionary of the standard security handler (V1/V2/V4/V5, R2-R6, every method, split methods, any key length, permissions, file ID and passwords) made by an independent implementation, read and used with the functions of the encryption package one by one: the dictionary's entries, the file key from either password, the verification value, the key of an object, strings and streams of any length decrypted with the number and generation they belong to; near-miss passwords fail; non-trivial: data to decrypt, keyed by algorithm, methods and object number",
		func(c *hx.C) {
			user, owner := genPassword(c, "user"), genPassword(c, "owner")
			id := blob(c, "id", num(c, "idn", 0, 40))
			cr := genCrypt(c, user, owner, id)
			text := genFmt(c).Bytes(cr.Dict())
			c.Dump("encrypt.txt", text)
			read := func() *types.PDFEncryption {
				e, err := encrypt.ParseDictionary(text)
				if err != nil {
					c.Fail("ParseDictionary: %v", err)
				}
				return e
			}
			e := read()
			wantLen := cr.KeyLen
			if e.V != cr.V || e.R != cr.R || e.P != cr.P || e.KeyLength != wantLen || e.EncryptMetadata != cr.EncMeta || e.Filter != "Standard" {
				c.Fail("entries V %d R %d P %d length %d metadata %v filter %s, want %d %d %d %d %v", e.V, e.R, e.P, e.KeyLength, e.EncryptMetadata, e.Filter, cr.V, cr.R, cr.P, wantLen, cr.EncMeta)
			}
			if !bytes.Equal(e.O, cr.O) || !bytes.Equal(e.U, cr.U) || !bytes.Equal(e.OE, cr.OE) || !bytes.Equal(e.UE, cr.UE) {
				c.Fail("values O %x U %x OE %x UE %x, want %x %x %x %x", e.O, e.U, e.OE, e.UE, cr.O, cr.U, cr.OE, cr.UE)
			}
			if len(cr.Perms) > 0 && !bytes.Equal(e.Perms, cr.Perms) {
				c.Fail("Perms %x, want %x", e.Perms, cr.Perms)
			}
			if len(e.EncryptKey) != 0 {
				c.Fail("a key before any password: %x", e.EncryptKey)
			}
			stm, str := cr.Method(cr.StmM), cr.Method(cr.StrM)
			if got := encrypt.StreamMethod(e); got != stm {
				c.Fail("StreamMethod %q, want %q", got, stm)
			}
			if got := encrypt.StringMethod(e); got != str {
				c.Fail("StringMethod %q, want %q", got, str)
			}
			// keys
			effOwner := owner
			if cr.R < 5 && len(owner) == 0 {
				effOwner = user
			}
			for i, pw := range [][]byte{user, effOwner} {
				x := read()
				if err := encrypt.Authenticate(x, id, pw, false); err != nil || !bytes.Equal(x.EncryptKey, cr.Key) {
					c.Fail("Authenticate with right password %d %q: %v, key %x, want %x", i, pw, err, x.EncryptKey, cr.Key)
				}
			}
			if cr.R < 5 {
				for i, f := range []func([]byte, *types.PDFEncryption, []byte, bool) ([]byte, error){encrypt.DeriveEncryptionKey, encrypt.DeriveOwnerKey} {
					k, err := f([][]byte{user, effOwner}[i], read(), id, false)
					if err != nil || !bytes.Equal(k, cr.Key) {
						c.Fail("deriving the key from password %d: %x, %v; want %x", i, k, err, cr.Key)
					}
				}
				u, err := encrypt.ComputeUValue(cr.Key, read(), id, false)
				n := 16
				if cr.R == 2 {
					n = 32
				}
				if err != nil || len(u) != 32 || !bytes.Equal(u[:n], cr.U[:n]) {
					c.Fail("ComputeUValue: %x, %v; want %x", u, err, cr.U)
				}
			} else {
				for i, x := range []struct{ pw, v, u []byte }{{user, cr.U, nil}, {effOwner, cr.O, cr.U}} {
					if h := encrypt.HashAES256(x.pw, x.v[32:40], x.u, cr.R); !bytes.Equal(h, x.v[:32]) {
						c.Fail("HashAES256 of password %d: %x, want %x", i, h, x.v[:32])
					}
				}
			}
			for _, pw := range wrongPasswords(c, cr.R, user, effOwner) {
				x := read()
				if err := encrypt.Authenticate(x, id, pw, false); err == nil || !isEncryptionError(err) {
					c.Fail("Authenticate with wrong password %q: %v", pw, err)
				}
			}
			if len(id) > 0 && cr.R >= 3 && cr.R < 5 {
				x := read()
				if err := encrypt.Authenticate(x, append(append([]byte{}, id...), 'x'), user, false); err == nil {
					c.Fail("Authenticate with another file identifier succeeds")
				}
			}
			// data
			e.EncryptKey = cr.Key
			seen := ""
			for i := 0; i < 4; i++ {
				n := pick(c, "n", 1, 2, 255, 256, 257, 65535, 65536, 70000, 1<<23-1)
				g := pick(c, "g", 0, 0, 1, 255, 256, 65535)
				data := blob(c, "data", pick(c, "dn", 0, 1, 15, 16, 17, 31, 32, 33, num(c, "dnn", 0, 300)))
				iv := blob(c, "iv", 16)
				in := cr.Encrypt(ref.Str{B: data}, n, g, func() []byte { return iv }).(ref.Str).B
				keep := string(in)
				got, err := encrypt.DecryptString(in, n, g, e)
				if err != nil || !bytes.Equal(got, data) {
					c.Fail("DecryptString of object %d %d (%s): %x, %v; want %x", n, g, str, got, err, data)
				}
				if string(in) != keep {
					c.Fail("DecryptString changed its input")
				}
				d := ref.Dict{{K: "Length", V: 5}}
				kind := num(c, "kind", 0, 4)
				switch {
				case kind == 1:
					d = d.With("Type", ref.Name("Metadata"))
				case kind == 2 && cr.V >= 4:
					d = d.With("Filter", ref.Name("Crypt")).With("DecodeParms", ref.Dict{{K: "Name", V: ref.Name("Identity")}})
				case kind == 3 && cr.V >= 4:
					d = d.With("Filter", ref.Arr{ref.Name("Crypt"), ref.Name("FlateDecode")}).With("DecodeParms", ref.Arr{ref.Dict{{K: "Name", V: ref.Name("StdCF")}}, ref.Null{}})
					if stm == "Identity" {
						d = ref.Dict{}
					}
				case kind == 4 && cr.V >= 4:
					d = d.With("Filter", ref.Arr{ref.Name("Crypt")})
				}
				in = cr.EncStream(d, data, n, g, iv)
				keep = string(in)
				dict := genFmt(c).Bytes(d)
				got, err = encrypt.DecryptStream(in, dict, n, g, e)
				if err != nil || !bytes.Equal(got, data) {
					c.Fail("DecryptStream of object %d %d (%s, %s): %x, %v; want %x", n, g, stm, dict, got, err, data)
				}
				if string(in) != keep {
					c.Fail("DecryptStream changed its input")
				}
				for _, m := range []string{"V2", "AESV2", "AESV3"} {
					if (m == "AESV3") != (cr.V == 5) || cr.V < 4 && m != "V2" {
						continue
					}
					k, err := encrypt.ObjectKey(e, n, g, m)
					if want := cr.ObjKey(m, n, g); err != nil || !bytes.Equal(k, want) {
						c.Fail("ObjectKey of object %d %d (%s): %x, %v; want %x", n, g, m, k, err, want)
					}
				}
				if stm != "Identity" && len(data) > 0 {
					seen += fmt.Sprint(n, g, kind, " ")
				}
			}
			c.Class(fmt.Sprintf("V%d R%d %s/%s", cr.V, cr.R, stm, str))
			if seen != "" {
				c.NT(fmt.Sprintf("V%d R%d %s/%s %s", cr.V, cr.R, stm, str, seen))
			}
		})
}
