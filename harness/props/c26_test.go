package props

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"time"

	"github.com/benedoc-inc/pdfer/forms/xfa"
	"verif/harness/hx"
	"verif/harness/ref"
)

// cliDir is a scratch directory in which the command line is run.
type cliDir struct {
	c     *hx.C
	dir   string
	sub   string            // directory of some of the files, relative to dir
	files map[string][]byte // contents of the files that must not change
}

func newCLI(c *hx.C) *cliDir {
	// The directory of the run, which no other process uses: names stay the same when a case is repeated
	dir := filepath.Join(os.TempDir(), fmt.Sprintf("cli-%d", os.Getpid()))
	os.RemoveAll(dir)
	if err := os.Mkdir(dir, 0o755); err != nil {
		panic(err)
	}
	d := &cliDir{c: c, dir: dir, sub: pick(c, "dir", "a", "with space", "größe"), files: map[string][]byte{}}
	if err := os.Mkdir(filepath.Join(dir, d.sub), 0o755); err != nil {
		panic(err)
	}
	return d
}

func (d *cliDir) close() { os.RemoveAll(d.dir) }

// name draws a path, relative or absolute.
func (d *cliDir) name(label, base string) string {
	switch num(d.c, label+"path", 0, 3) {
	case 0:
		return filepath.Join(d.dir, base)
	case 1:
		return filepath.Join(d.sub, base)
	case 2:
		return "./" + d.sub + "/../" + base
	}
	return base
}

func (d *cliDir) abs(name string) string {
	if filepath.IsAbs(name) {
		return name
	}
	return filepath.Join(d.dir, name)
}

func (d *cliDir) write(name string, b []byte) {
	if err := os.WriteFile(d.abs(name), b, 0o644); err != nil {
		panic(err)
	}
	d.files[filepath.Clean(d.abs(name))] = b
}

// flag renders an option in one of the ways the flag package reads.
func (d *cliDir) flag(name, value string) []string {
	switch num(d.c, "flagform", 0, 3) {
	case 0:
		return []string{"-" + name + "=" + value}
	case 1:
		return []string{"--" + name, value}
	case 2:
		return []string{"--" + name + "=" + value}
	}
	return []string{"-" + name, value}
}

// run runs the tool with the options in any order and reports how it ended.
func (d *cliDir) run(options [][]string) (stdout, stderr string, code int) {
	d.c.Helper()
	for i := len(options) - 1; i > 0; i-- {
		j := num(d.c, "order", 0, i)
		options[i], options[j] = options[j], options[i]
	}
	var args []string
	for _, o := range options {
		args = append(args, o...)
	}
	d.c.See("args", args)
	ctx, cancel := context.WithTimeout(context.Background(), 2*time.Minute)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Getenv("VERIF_PDFER"), args...)
	cmd.Dir = d.dir
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Run()
	if ctx.Err() != nil {
		d.c.Fail("%q does not end", args)
	}
	if _, ok := err.(*exec.ExitError); err != nil && !ok {
		panic(fmt.Sprint("harness: cannot run the tool: ", err))
	}
	return o.String(), e.String(), cmd.ProcessState.ExitCode()
}

// unchanged checks that every file but those named is as it was, and that no other is there.
func (d *cliDir) unchanged(but ...string) error {
	skip := map[string]bool{}
	for _, b := range but {
		if b != "" {
			skip[filepath.Clean(d.abs(b))] = true
		}
	}
	seen := map[string]bool{}
	err := filepath.Walk(d.dir, func(p string, info os.FileInfo, err error) error {
		if err != nil || info.IsDir() || skip[p] {
			return err
		}
		seen[p] = true
		was, ok := d.files[p]
		if !ok {
			return fmt.Errorf("left a file %s", p)
		}
		is, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		if !bytes.Equal(is, was) {
			return fmt.Errorf("changed the file %s", p)
		}
		return nil
	})
	if err != nil {
		return err
	}
	for p := range d.files {
		if !seen[p] && !skip[p] {
			return fmt.Errorf("removed the file %s", p)
		}
	}
	return nil
}

// cliPasswords encrypts some documents so that the tool can open them without being told how:
// one of the passwords is empty or a common one.
func cliPasswords(c *hx.C) func(f *fd) []byte {
	return func(f *fd) []byte {
		if flip(c, "plain") {
			return nil
		}
		common := []byte(pick(c, "common", "", "", "admin", "password", "1234"))
		other := []byte(pick(c, "secret", "s3cret", "Password", "12345"))
		f.user, f.owner = common, other
		if len(common) > 0 && flip(c, "asowner") {
			f.user, f.owner = other, common
		}
		return common
	}
}

// mentions adds words to a document that its encryption is named by, too.
func cliMention(c *hx.C, f *fd) {
	if oneIn(c, "mention", 3) {
		f.add(ref.Dict{{K: "Note", V: ref.Str{B: []byte(pick(c, "word", "/Encrypt 1 0 R", "/Encrypted", "/Encrypt"))}}})
		c.Class("mentions encryption")
	}
}

// jsonValue is a value as the data file holds it and how a field shows it.
func genJSONData(c *hx.C, names []string) (map[string]any, map[string]string) {
	data, want := map[string]any{}, map[string]string{}
	for _, n := range names {
		if !flip(c, "setit") {
			continue
		}
		switch num(c, "vkind", 0, 4) {
		case 0:
			i := num(c, "vint", -1000, 1<<40)
			data[n], want[n] = i, fmt.Sprint(i)
		case 1:
			b := flip(c, "vbool")
			data[n], want[n] = b, fmt.Sprint(b)
		case 2:
			x := pick(c, "vfloat", 2.5, -0.125, 100.0, 1e15)
			data[n], want[n] = x, map[float64]string{2.5: "2.5", -0.125: "-0.125", 100: "100", 1e15: "1000000000000000"}[x]
		default:
			s := xmlText(c, "newv")
			data[n], want[n] = s, s
		}
	}
	if flip(c, "unknown") {
		data["no such field"] = "x"
	}
	return data, want
}

// summary checks the report of what was done.
func summary(text, what string, input, output string, counted string, n int) error {
	for _, want := range []string{input, output} {
		if !strings.Contains(text, want) {
			return fmt.Errorf("the %s does not name %s: %q", what, want, text)
		}
	}
	m := regexp.MustCompile(counted + `: *([0-9]+)`).FindStringSubmatch(text)
	if m == nil || m[1] != fmt.Sprint(n) {
		return fmt.Errorf("the %s does not report %d as %s: %q", what, n, counted, text)
	}
	return nil
}

func cliFillDoc(c *hx.C) (m *mxfa, render func(map[string]string) string, names []string) {
	m = genXFADocFor(c, func(f *fd) []byte {
		pw := cliPasswords(c)(f)
		cliMention(c, f)
		return pw
	}, func(name string) []byte {
		if name != "datasets" {
			return genPacket(c, name)
		}
		_, render, names = genFieldXML(c, true)
		return []byte(render(nil))
	}, "datasets")
	return m, render, names
}

func init() {
	hx.Reg("C26", "fill", 500, "Documents with a data packet, unencrypted or opened by an empty or a common password, that mention encryption or not, filled through the command line with options in any order and form, onto a new file, an existing one or the input itself: exit status 0, the packet differs in the named values only, all else in the file is as before, no other file is touched, and the report names what was done. Non-trivial: at least one value is set.", func(c *hx.C) {
		m, render, names := cliFillDoc(c)
		data, want := genJSONData(c, names)
		var enc bytes.Buffer
		je := json.NewEncoder(&enc)
		je.SetEscapeHTML(flip(c, "jesc"))
		if flip(c, "jindent") {
			je.SetIndent("", "\t")
		}
		if err := je.Encode(data); err != nil {
			panic(err)
		}
		d := newCLI(c)
		defer d.close()
		in, js, out := d.name("in", "in.pdf"), d.name("data", "data.json"), d.name("out", "out.pdf")
		d.write(in, m.b)
		d.write(js, enc.Bytes())
		c.Dump("data.json", enc.Bytes())
		switch num(c, "onto", 0, 3) {
		case 0:
			out = in
			c.Class("in place")
		case 1:
			d.write(out, blob(c, "old", 3000))
			c.Class("existing file")
		}
		opts := [][]string{d.flag("input", in), d.flag("data", js), d.flag("output", out)}
		if flip(c, "verbose") {
			opts = append(opts, []string{pick(c, "vflag", "-verbose", "--verbose", "-verbose=true")})
		}
		logName := ""
		if oneIn(c, "log", 3) {
			logName = d.name("log", "run.log")
			opts = append(opts, d.flag("log", logName))
			c.Class("log file")
		}
		stdout, stderr, code := d.run(opts)
		if code != 0 {
			c.Fail("exit status %d: %s", code, stderr)
		}
		if err := d.unchanged(out, logName); err != nil {
			c.Fail("%v", err)
		}
		for what, text := range map[string]string{"standard output": stdout, "standard error": stderr} {
			if err := summary(text, what, in, out, "Fields filled", len(data)); err != nil {
				c.Fail("%v", err)
			}
		}
		if logName != "" {
			b, err := os.ReadFile(d.abs(logName))
			if err != nil {
				c.Fail("log: %v", err)
			}
			if err := summary(string(b), "log", in, out, "Fields filled", len(data)); err != nil {
				c.Fail("%v", err)
			}
		}
		res, err := os.ReadFile(d.abs(out))
		if err != nil {
			c.Fail("%v", err)
		}
		c.Dump("out.pdf", res)
		s, err := xfa.ExtractAllXFAStreams(res, encInfo(c, res, m.pw), false)
		if err != nil || s.Datasets == nil {
			c.Fail("ExtractAllXFAStreams: %v", err)
		}
		if err := sameXML(string(s.Datasets.Data), render(want)); err != nil {
			c.Fail("filled with %s: %v", enc.Bytes(), err)
		}
		for i := range m.packets {
			if m.packets[i].name == "datasets" {
				m.packets[i].data = s.Datasets.Data
			}
		}
		before := strictDoc(c, m.b, m.pw, nil)
		if err := m.replaced(before, res, map[string]bool{"datasets": true}); err != nil {
			c.Fail("%v", err)
		}
		if len(want) > 0 {
			c.NT(fmt.Sprintf("%x %v", fnvb(m.b), len(want)))
		}
		c.ClassIf(m.pw != nil, "encrypted")
		c.ClassIf(len(m.pw) > 0, "common password")
	})
	hx.Reg("C26", "schema", 400, "Documents with a template of a generated form (as for C20), encrypted as for the fill, whose schema is extracted through the command line: exit status 0, the file is JSON of exactly the schema of the template, no other file is touched. Non-trivial: at least one question.", func(c *hx.C) {
		v := genFormSchema(c)
		text, err := xfa.FormToXFA(v, false)
		if err != nil {
			c.Fail("FormToXFA: %v", err)
		}
		want, err := xfa.ParseXFAForm(text, false)
		if err != nil {
			c.Fail("ParseXFAForm: %v", err)
		}
		m := genXFADocFor(c, func(f *fd) []byte {
			pw := cliPasswords(c)(f)
			cliMention(c, f)
			return pw
		}, func(name string) []byte {
			switch name {
			case "template":
				return []byte(text)
			case "datasets":
				_, render, _ := genFieldXML(c, true)
				return []byte(render(nil))
			}
			return genPacket(c, name)
		}, "template")
		d := newCLI(c)
		defer d.close()
		in, out := d.name("in", "in.pdf"), d.name("out", "schema.json")
		d.write(in, m.b)
		if flip(c, "existing") {
			d.write(out, bytes.Repeat([]byte("{}\n"), 20000))
		}
		opts := [][]string{d.flag("input", in), d.flag("output", out), {"-extract-schema"}}
		if flip(c, "verbose") {
			opts = append(opts, []string{"-verbose"})
		}
		stdout, stderr, code := d.run(opts)
		if code != 0 {
			c.Fail("exit status %d: %s", code, stderr)
		}
		if err := d.unchanged(out); err != nil {
			c.Fail("%v", err)
		}
		if err := summary(stdout, "standard output", in, out, "Questions extracted", len(want.Questions)); err != nil {
			c.Fail("%v", err)
		}
		res, err := os.ReadFile(d.abs(out))
		if err != nil {
			c.Fail("%v", err)
		}
		c.Dump("schema.json", res)
		is, err := anyJSON(res)
		if err != nil {
			c.Fail("the schema is no JSON: %v", err)
		}
		wb, err := json.Marshal(want)
		if err != nil {
			c.Fail("Marshal: %v", err)
		}
		w, err := anyJSON(wb)
		if err != nil {
			panic(err)
		}
		if !reflect.DeepEqual(is, w) {
			c.Fail("the schema is\n%s\nwant\n%s", res, wb)
		}
		if len(want.Questions) > 0 {
			c.NT(string(wb))
		}
		c.ClassIf(m.pw != nil, "encrypted")
	})
	hx.Reg("C26", "refuse", 600, "Runs that cannot succeed: options left out or unknown, files that do not exist or cannot be written, data that is no JSON object, files that are no PDF, have no form or an unknown password: nonzero exit status, a message, no report of success, and every file, an existing output too, as it was. Non-trivial: every case.", func(c *hx.C) {
		why := pick(c, "why", "no input", "no output", "no data", "unknown option", "missing input", "missing data", "bad data", "not an object", "no PDF", "empty file", "no form", "no packet", "password", "output directory", "output is a directory", "verify", "log directory", "malformed XML")
		schema := oneIn(c, "schema", 3)
		var m *mxfa
		names := []string{}
		m = genXFADocFor(c, func(f *fd) []byte {
			if why == "password" {
				f.user, f.owner = []byte("s3cret"), []byte(pick(c, "owner", "other", "Admin", "s3cret"))
				return f.user
			}
			return cliPasswords(c)(f)
		}, func(name string) []byte {
			switch name {
			case "template":
				return []byte(`<template><field name="t"><value>v</value></field></template>`)
			case "datasets":
				if why == "malformed XML" {
					return []byte(`<xfa:datasets><data><field name="a"><value>1</value></fie`)
				}
				_, render, n := genFieldXML(c, true)
				names = n
				return []byte(render(nil))
			}
			return genPacket(c, name)
		}, "template", "datasets")
		b := m.b
		js := []byte(`{"a": "1"}`)
		d := newCLI(c)
		defer d.close()
		in, data, out := d.name("in", "in.pdf"), d.name("data", "data.json"), d.name("out", "out")
		switch why {
		case "bad data":
			js = []byte(pick(c, "json", "", "{", `{"a": "1"`, `{"a": 1}}`, `{'a': 1}`, "a=1", "\x00", `{"a": "1",}`, `{"a": 1e999}`, `{"a": "1"} {"b": "2"}`, `{"a": "1", "b": 01}`, "{\"a\": \"\x01\"}", `{"a": "\u12"}`, `{"a": NaN}`))
			schema = false
		case "not an object":
			js = []byte(pick(c, "json", "[]", `"a"`, "12", `[{"a": 1}]`, "true"))
			schema = false
		case "no PDF":
			b = []byte(pick(c, "nopdf", "hello", "PK\x03\x04", "%PDF-1.7\n", "%PDF-1.7\nstartxref\n0\n%%EOF\n", "/Encrypt", "%PDF-1.7\n/Encrypt 3 0 R\n"))
		case "empty file":
			b = nil
		case "no form":
			f := newFD(c)
			root, _ := f.pageTree(1, func(int) (ref.Dict, ref.Dict) {
				return nil, ref.Dict{{K: "MediaBox", V: ref.Arr{0, 0, 612, 792}}, {K: "Resources", V: ref.Dict{}}}
			})
			f.trailer = ref.Dict{{K: "Root", V: f.add(ref.Dict{{K: "Type", V: ref.Name("Catalog")}, {K: "Pages", V: root}})}}
			b = f.emit()
		case "no packet":
			m = genXFADocFor(c, cliPasswords(c), func(name string) []byte { return genPacket(c, name) }, "config")
			for _, p := range m.packets {
				if p.name == "template" || p.name == "datasets" {
					c.Class("has a packet, skipped")
					return
				}
			}
			b = m.b
		case "malformed XML", "no data":
			schema = false
		case "missing data", "log directory":
			schema = false
		}
		_ = names
		d.write(in, b)
		d.write(data, js)
		if flip(c, "existing") {
			d.write(out, []byte("kept"))
		}
		c.Dump("in.pdf", b)
		opts := map[string][]string{"input": d.flag("input", in), "data": d.flag("data", data), "output": d.flag("output", out)}
		if schema {
			opts["schema"] = []string{"-extract-schema"}
		}
		switch why {
		case "no input":
			delete(opts, "input")
		case "no output":
			delete(opts, "output")
		case "no data":
			delete(opts, "data")
		case "unknown option":
			opts["x"] = []string{pick(c, "opt", "-x", "--password=a", "-inputs=a", "-verbose=maybe")}
		case "missing input":
			opts["input"] = d.flag("input", "nosuch.pdf")
		case "missing data":
			opts["data"] = d.flag("data", "nosuch.json")
		case "output directory":
			opts["output"] = d.flag("output", "nosuch/out")
		case "output is a directory":
			opts["output"] = d.flag("output", d.sub)
		case "verify":
			opts["verify"] = []string{"-verify"}
		case "log directory":
			opts["log"] = d.flag("log", "nosuch/run.log")
		}
		if flip(c, "verbose") {
			opts["verbose"] = []string{"-verbose"}
		}
		logName := ""
		if why != "log directory" && oneIn(c, "log", 4) {
			logName = "run.log"
			opts["log"] = d.flag("log", logName)
		}
		var list [][]string
		keys := make([]string, 0, len(opts))
		for k := range opts {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			list = append(list, opts[k])
		}
		stdout, stderr, code := d.run(list)
		if code == 0 {
			c.Fail("%s: exit status 0: %s", why, stdout)
		}
		if strings.Contains(stdout+stderr, "Successfully") && !strings.Contains(stderr, "Successfully decrypted") {
			c.Fail("%s: reports success: %s%s", why, stdout, stderr)
		}
		if strings.Contains(stderr, "PANIC") || strings.Contains(stderr, "goroutine ") {
			c.Fail("%s: panics: %s", why, stderr)
		}
		said := stderr
		if logName != "" {
			if b, err := os.ReadFile(d.abs(logName)); err == nil {
				said += string(b)
			}
		}
		if len(strings.TrimSpace(strings.Replace(said, "=== pdfer starting ===", "", 1))) == 0 {
			c.Fail("%s: no message", why)
		}
		if err := d.unchanged(logName); err != nil {
			c.Fail("%s: %v", why, err)
		}
		c.NT(fmt.Sprintf("%s %v %x", why, schema, fnvb(b)))
		c.Class(why)
		c.ClassIf(schema, "schema")
	})
}

func anyJSON(b []byte) (v any, err error) {
	dec := json.NewDecoder(bytes.NewReader(b))
	dec.UseNumber()
	if err := dec.Decode(&v); err != nil {
		return nil, err
	}
	if dec.More() {
		return nil, fmt.Errorf("more after the value")
	}
	return v, nil
}
