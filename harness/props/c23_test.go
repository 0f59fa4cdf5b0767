package props

import (
	"errors"
	"fmt"
	"reflect"

	"github.com/benedoc-inc/pdfer/types"
	"pgregory.net/rapid"
	"verif/harness/hx"
)

var allCodes = []types.PDFErrorCode{
	types.ErrCodeInvalidPDF, types.ErrCodeMalformedPDF, types.ErrCodeUnsupportedPDF, types.ErrCodeObjectNotFound, types.ErrCodeInvalidObject,
	types.ErrCodeStreamError, types.ErrCodeXRefError, types.ErrCodeEncrypted, types.ErrCodeDecryptionFailed, types.ErrCodeWrongPassword,
	types.ErrCodeUnsupportedCrypto, types.ErrCodeNoForms, types.ErrCodeInvalidForm, types.ErrCodeFieldNotFound, types.ErrCodeInvalidValue,
	types.ErrCodeValidationError, types.ErrCodeNoContent, types.ErrCodeExtractionError, types.ErrCodeFontError, types.ErrCodeImageError,
	types.ErrCodeWriteError, types.ErrCodeInvalidInput, types.ErrCodeIOError,
}

var sentinels = []*types.PDFError{
	types.ErrInvalidPDF, types.ErrMalformedPDF, types.ErrUnsupportedPDF, types.ErrObjectNotFound, types.ErrInvalidObject,
	types.ErrStreamError, types.ErrXRefError, types.ErrEncrypted, types.ErrDecryptionFailed, types.ErrWrongPassword,
	types.ErrUnsupportedCrypto, types.ErrNoForms, types.ErrInvalidForm, types.ErrFieldNotFound, types.ErrInvalidValue,
	types.ErrValidationError, types.ErrNoContent, types.ErrExtractionError, types.ErrFontError, types.ErrImageError,
	types.ErrWriteError, types.ErrInvalidInput, types.ErrIOError,
}

type plainWrap struct{ e error }

func (w plainWrap) Error() string { return "wrap<" + w.e.Error() + ">" }
func (w plainWrap) Unwrap() error { return w.e }

func init() {
	msgs := []string{"", "plain", "100% sure", "%d %s %v", "with\nnewline", "[X] y: z", "é✓", "%!"}
	hx.Reg("C23", "error-chains", 12000,
		"chains of 0-7 layers mixing classified errors of every code with plain wrappers, joined errors and a leaf; code, category tests, text, cause, context and errors.Is/As against a model; non-trivial: 2+ layers, keyed by the chain",
		func(c *hx.C) {
			leaf := errors.New(pick(c, "leaf", msgs...))
			err := error(leaf)
			text := leaf.Error()
			var outer *types.PDFErrorCode
			var outerErr *types.PDFError
			has := map[types.PDFErrorCode]bool{}
			desc := "leaf"
			layers := num(c, "layers", 0, 7)
			if oneIn(c, "noLeaf", 3) {
				i := num(c, "leafcode", 0, len(allCodes)-1)
				m := pick(c, "msg", msgs...)
				pe := types.NewPDFError(allCodes[i], m)
				text = fmt.Sprintf("[%s] %s", allCodes[i], m)
				if flip(c, "f") {
					k := num(c, "arg", 0, 99)
					pe = types.NewPDFErrorf(allCodes[i], "n=%d %s", k, m)
					text = fmt.Sprintf("[%s] n=%d %s", allCodes[i], k, m)
				}
				if pe.Unwrap() != nil {
					c.Fail("a fresh error has a cause")
				}
				outer, outerErr = &allCodes[i], pe
				has[allCodes[i]] = true
				err = pe
				desc = string(allCodes[i])
			}
			for l := 0; l < layers; l++ {
				switch k := num(c, "layer", 0, 4); k {
				case 0:
					err = fmt.Errorf("L%d: %w", l, err)
					text = fmt.Sprintf("L%d: %s", l, text)
					desc += ">fmt"
				case 1:
					err = plainWrap{err}
					text = "wrap<" + text + ">"
					desc += ">plain"
				case 2:
					err = errors.Join(err)
					desc += ">join"
				default:
					i := num(c, "code", 0, len(allCodes)-1)
					m := pick(c, "msg", msgs...)
					cause := err
					var pe *types.PDFError
					if k == 3 {
						pe = types.WrapError(allCodes[i], m, err)
						text = fmt.Sprintf("[%s] %s: %s", allCodes[i], m, text)
					} else {
						v := num(c, "arg", 0, 99)
						pe = types.WrapErrorf(allCodes[i], err, "%d%% %s", v, m)
						text = fmt.Sprintf("[%s] %d%% %s: %s", allCodes[i], v, m, text)
					}
					if pe.Unwrap() != cause || pe.Cause != cause {
						c.Fail("cause not preserved")
					}
					if pe.Code != allCodes[i] {
						c.Fail("code %q, want %q", pe.Code, allCodes[i])
					}
					if flip(c, "ctx") {
						if got := pe.WithContext("k", l).WithContext("object_number", -l); got != pe {
							c.Fail("WithContext returned another error")
						}
						if !reflect.DeepEqual(pe.Context, map[string]interface{}{"k": l, "object_number": -l}) {
							c.Fail("context %v", pe.Context)
						}
					}
					outer, outerErr = &allCodes[i], pe
					has[allCodes[i]] = true
					err = pe
					desc += ">" + string(allCodes[i])
				}
			}
			if err.Error() != text {
				c.Fail("%s: text %q, want %q", desc, err.Error(), text)
			}
			code, ok := types.GetErrorCode(err)
			pe, ok2 := types.IsPDFError(err)
			if ok != (outer != nil) || ok2 != ok {
				c.Fail("%s: GetErrorCode ok=%v IsPDFError ok=%v, classified layer present: %v", desc, ok, ok2, outer != nil)
			}
			if outer != nil && (code != *outer || pe != outerErr) {
				c.Fail("%s: code %q, want %q", desc, code, *outer)
			}
			in := func(cs ...types.PDFErrorCode) bool {
				for _, x := range cs {
					if outer != nil && *outer == x {
						return true
					}
				}
				return false
			}
			if types.IsNotFound(err) != in(types.ErrCodeObjectNotFound, types.ErrCodeFieldNotFound) {
				c.Fail("%s: IsNotFound=%v", desc, types.IsNotFound(err))
			}
			if types.IsEncryptionError(err) != in(types.ErrCodeEncrypted, types.ErrCodeDecryptionFailed, types.ErrCodeWrongPassword, types.ErrCodeUnsupportedCrypto) {
				c.Fail("%s: IsEncryptionError=%v", desc, types.IsEncryptionError(err))
			}
			if types.IsValidationError(err) != in(types.ErrCodeValidationError, types.ErrCodeInvalidValue) {
				c.Fail("%s: IsValidationError=%v", desc, types.IsValidationError(err))
			}
			for i, s := range sentinels {
				if s.Code != allCodes[i] {
					c.Fail("sentinel %d has code %q, want %q", i, s.Code, allCodes[i])
				}
				if errors.Is(err, s) != has[s.Code] {
					c.Fail("%s: errors.Is(%s)=%v, want %v", desc, s.Code, errors.Is(err, s), has[s.Code])
				}
			}
			if desc[:4] == "leaf" && !errors.Is(err, leaf) {
				c.Fail("%s: leaf not reachable", desc)
			}
			if types.IsNotFound(nil) || types.IsEncryptionError(nil) || types.IsValidationError(nil) {
				c.Fail("nil is classified")
			}
			if _, ok := types.GetErrorCode(nil); ok {
				c.Fail("nil has a code")
			}
			if layers > 1 {
				c.NT(desc)
			}
			c.ClassIf(outer != nil, "classified")
			c.ClassIf(len(has) > 1, "several-codes")
		})

	type rec struct {
		level types.WarningLevel
		code  string
		msg   string
	}
	levels := []types.WarningLevel{types.WarningLevelInfo, types.WarningLevelWarning, types.WarningLevelError, "custom", ""}
	hx.Reg("C23", "collector-history", 12000,
		"histories of up to 40 collector calls (add in every form, nil, enable, disable, clear) against a list model, with every list handed out earlier checked again at the end; non-trivial: 3+ additions and a clear or toggle, keyed by the history",
		func(c *hx.C) {
			on := flip(c, "enabled")
			wc := types.NewWarningCollector(on)
			var model []rec
			type snap struct {
				list []*types.Warning
				want []rec
			}
			var snaps []snap
			adds, ctl := 0, 0
			hist := ""
			cmp := func(what string, got []*types.Warning, want []rec) {
				if len(got) != len(want) {
					c.Fail("%s: %d warnings, want %d after %s", what, len(got), len(want), hist)
				}
				for i := range got {
					w := got[i]
					if w.Level != want[i].level || w.Code != want[i].code || w.Message != want[i].msg {
						c.Fail("%s: warning %d is %v/%q/%q, want %v after %s", what, i, w.Level, w.Code, w.Message, want[i], hist)
					}
					txt := fmt.Sprintf("[%s] %s", w.Level, w.Message)
					if w.Code != "" {
						txt = fmt.Sprintf("[%s] %s: %s", w.Level, w.Code, w.Message)
					}
					if w.Error() != txt {
						c.Fail("%s: text %q, want %q", what, w.Error(), txt)
					}
				}
			}
			for i, n := 0, count(c, "ops", 0, 40, 400); i < n; i++ {
				op := num(c, "op", 0, 9)
				lv := hx.Draw(c, rapid.SampledFrom(levels), "level")
				m := pick(c, "msg", msgs...)
				cd := pick(c, "code", "", "A", "B", "A B")
				r := rec{lv, "", m}
				switch op {
				case 0:
					wc.AddWarning(lv, m)
				case 1:
					wc.AddWarningf(lv, "v %d %s", i, m)
					r.msg = fmt.Sprintf("v %d %s", i, m)
				case 2, 3:
					wc.AddWarningWithCode(lv, cd, m)
					r.code = cd
				case 4:
					w := types.NewWarningWithCode(lv, cd, m).WithContext("i", i)
					if w.Context["i"] != i {
						c.Fail("context lost")
					}
					wc.Add(w)
					r.code = cd
				case 5:
					wc.Add(nil)
				case 6:
					wc.Enable()
					on = true
				case 7:
					wc.Disable()
					on = false
				case 8:
					wc.Clear()
					model = nil
				case 9:
					snaps = append(snaps, snap{wc.Warnings(), append([]rec{}, model...)})
				}
				hist += fmt.Sprintf("%d.", op)
				if op <= 4 {
					adds++
					if on {
						model = append(model, r)
					}
				}
				if op >= 6 && op <= 8 {
					ctl++
				}
				if wc.IsEnabled() != on || wc.Count() != len(model) || wc.HasWarnings() != (len(model) > 0) {
					c.Fail("after %s: enabled=%v count=%d has=%v, want %v %d", hist, wc.IsEnabled(), wc.Count(), wc.HasWarnings(), on, len(model))
				}
			}
			cmp("Warnings", wc.Warnings(), model)
			for _, lv := range levels {
				var want []rec
				for _, r := range model {
					if r.level == lv {
						want = append(want, r)
					}
				}
				cmp("FilterByLevel "+string(lv), wc.FilterByLevel(lv), want)
			}
			for _, cd := range []string{"", "A", "B", "A B", "absent"} {
				var want []rec
				for _, r := range model {
					if r.code == cd {
						want = append(want, r)
					}
				}
				cmp("GetByCode "+cd, wc.GetByCode(cd), want)
			}
			for _, s := range snaps {
				cmp("a list handed out earlier", s.list, s.want)
			}
			if adds >= 3 && ctl > 0 {
				c.NT(hist)
			}
			c.ClassIf(len(snaps) > 0 && ctl > 0, "snapshots")
		})
}
