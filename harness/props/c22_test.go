package props

import (
	"crypto/rand"
	"fmt"
	"io"
	"strings"
	"sync"
	"time"

	"verif/harness/hx"
)

// ---- running a check's function again on the same draws ----

// constant stands in for the system's random numbers, so that key material is
// the same in every run.
type constant struct{}

func (constant) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(i*37 + len(p))
	}
	return len(p), nil
}

// constantKeys makes key material constant until the returned function is called.
func constantKeys() func() {
	was := rand.Reader
	rand.Reader = io.Reader(constant{})
	return func() { rand.Reader = was }
}

// differs describes the first difference between what two runs produced.
func differs(a []hx.Seen, endA string, b []hx.Seen, endB string) error {
	for i := range a {
		if i >= len(b) {
			return fmt.Errorf("stops after %d results (%s), %d before (%s)", len(b), endB, len(a), endA)
		}
		if a[i].Name != b[i].Name {
			return fmt.Errorf("result %d: %s, before %s", i, b[i].Name, a[i].Name)
		}
		if a[i].V != b[i].V {
			x, y := a[i].V, b[i].V
			at := 0
			for at < len(x) && at < len(y) && x[at] == y[at] {
				at++
			}
			from := max(0, at-80)
			return fmt.Errorf("result %d, %s, differs at byte %d:\n%q\nbefore\n%q", i, a[i].Name, at, y[from:min(len(y), at+200)], x[from:min(len(x), at+200)])
		}
	}
	if len(b) > len(a) {
		return fmt.Errorf("%d results (%s), %d before (%s)", len(b), endB, len(a), endA)
	}
	if endA != endB {
		return fmt.Errorf("ends %q, before %q", endB, endA)
	}
	return nil
}

// sameAgain runs fn, then other, then fn on the same draws, within one second of
// the clock, and fails unless both runs produce the same. It returns what was produced.
func sameAgain(c *hx.C, what string, fn, other func(c *hx.C)) ([]hx.Seen, string) {
	defer constantKeys()()
	r := c.Replayer()
	first, end := r.Run(c, fn)
	check := func() {
		if f := r.Fault(); f != "" {
			c.Fail("%s: %s", what, f)
		}
		if name, was, is, changed := r.Changed(); changed {
			c.Fail("%s: %s given by the caller was changed from\n%s\nto\n%s", what, name, clipped(was), clipped(is))
		}
	}
	check()
	if other != nil {
		c.Replayer().Run(c, other)
	}
	for try := 0; try < 5; try++ {
		t := time.Now()
		if try > 0 {
			first, end = r.Run(c, fn)
		}
		again, end2 := r.Run(c, fn)
		check()
		err := differs(first, end, again, end2)
		if err == nil {
			return first, end
		}
		// time stamps aside: both runs must fall into one second
		if try > 0 && time.Now().Unix() == t.Unix() {
			c.Fail("%s: run again on the same input: %v", what, err)
		}
	}
	c.Excluded("more than a second long")
	return first, end
}

// kept notes that the operation it is passed to must leave b alone.
func kept(c *hx.C, b []byte) []byte {
	c.Keep("object", b)
	return b
}

// held notes that the operation it is passed to must leave v alone.
func held[V any](c *hx.C, v V) V {
	c.Keep("argument", v)
	return v
}

func clipped(s string) string {
	if len(s) > 900 {
		return fmt.Sprintf("%q...", s[:900])
	}
	return fmt.Sprintf("%q", s)
}

// programs are the checks whose functions are run again: each calls operations
// on what it draws and records what they produce.
var programs = []struct {
	id, name string
	weight   int
}{
	{"C04", "object-histories", 4}, {"C04", "documents", 6}, {"C06", "writer", 3}, {"C06", "builder", 3}, {"C07", "library-round-trip", 1},
	{"C08", "documents", 2}, {"C08", "graphs", 3}, {"C08", "fonts", 3}, {"C08", "filters", 2}, {"C08", "xml", 3},
	{"C09", "builder", 2}, {"C11", "written", 4}, {"C12", "export", 3}, {"C13", "histories", 6}, {"C14", "extract", 4}, {"C14", "split-merge", 3}, {"C14", "merge", 3},
	{"C15", "pairs", 5}, {"C16", "builder", 4}, {"C17", "fill", 6}, {"C17", "built", 2}, {"C17", "objects", 2}, {"C18", "form-data", 4}, {"C18", "question", 1}, {"C18", "field", 1}, {"C18", "schema", 2},
	{"C19", "rebuild", 4}, {"C19", "build", 2}, {"C19", "update", 4}, {"C19", "replace", 1},
	{"C20", "form", 2}, {"C20", "datasets", 2}, {"C20", "config", 2}, {"C20", "locale", 2}, {"C20", "connection", 2}, {"C20", "stylesheet", 2}, {"C20", "update", 2},
	{"C21", "parse", 2}, {"C21", "glyphs", 2}, {"C21", "embed", 4},
}

func init() {
	var all []int
	for i, p := range programs {
		for j := 0; j < p.weight; j++ {
			all = append(all, i)
		}
	}
	s := hx.Reg("C22", "programs", 2500, "", func(c *hx.C) {
		p := programs[all[spread(c, "program", len(all))]]
		seen, end := sameAgain(c, p.id+"/"+p.name, hx.Fn(p.id, p.name), nil)
		key := ""
		for _, s := range seen {
			key += fmt.Sprintf("%s %x ", s.Name, fnvb([]byte(s.V)))
		}
		if len(seen) > 0 && end == "" {
			c.NT(p.id + "/" + p.name + " " + key)
			c.Class(p.id + "/" + p.name)
		} else {
			c.Class("ends early: " + p.id + "/" + p.name)
		}
	})
	s.Rule = `The functions of the other properties' generated checks (writer and builder programs, edits, merges, fills, XFA rebuilds, comparisons, exports, fonts, validation, structured XFA), run twice on the same draws with constant key material and within one second of the clock: every document, file, value and error they produce is the same, emitting a document a second time gives the same bytes, and every argument noted on the way (bytes, maps, slices, structures) is as it was. Non-trivial: the program produced something and ran to its end.`
	s = hx.Reg("C22", "documents", 1200, "", func(c *hx.C) {
		b, pw, kind := sourceDoc(c)
		if oneIn(c, "damaged", 3) {
			b, _ = damage(c, b)
		}
		c.Dump("input.pdf", b)
		other, pw2, _ := sourceDoc(c)
		ok := ""
		group := pick(c, "group", opGroups...)
		seen, _ := sameAgain(c, "operations "+group, func(c *hx.C) {
			o := newOps(c, append([]byte(nil), b...))
			o.document(group, pw, false)
			ok = o.key()
		}, func(c *hx.C) {
			newOps(c, other).document(group, pw2, false)
		})
		if strings.Count(ok, " ") > 0 {
			c.NT(fmt.Sprintf("%s %s %x %s", kind, group, fnvb(b), ok))
		}
		c.Class(kind + " " + group)
		c.ClassIf(len(seen) == 0, "nothing seen")
	})
	s.Rule = `A generated document of any kind, one in three damaged, put through one group of readers, editors and writers twice, the second time after the same operations ran on another document: results, files and errors are the same, the input is as it was. Non-trivial: at least two operations succeeded.`
	s = hx.Reg("C22", "parallel", 200, "", func(c *hx.C) { together(c, all) })
	s.Rule = `2 to 6 programs of the other properties' checks or groups of operations on documents, each run alone, then 3 times while the others run in other goroutines: each gives what it gave alone. Non-trivial: every case.`
	s = hx.Reg("C22", "races", 40, "", func(c *hx.C) { together(c, all) })
	s.Race, s.Journal = true, true
	s.Rule = `As parallel, under Go's race detector: no two goroutines touch the same memory without order, one of them writing. Non-trivial: every case.`
}

// together runs several programs alone, then at once.
func together(c *hx.C, all []int) {
	defer constantKeys()()
	type job struct {
		r    *hx.Again
		fn   func(c *hx.C)
		seen []hx.Seen
		end  string
		what string
	}
	var jobs []*job
	for i, n := 0, num(c, "jobs", 2, 6); i < n; i++ {
		j := &job{r: c.Replayer()}
		if flip(c, "program") {
			p := programs[all[spread(c, "which", len(all))]]
			j.what, j.fn = p.id+"/"+p.name, hx.Fn(p.id, p.name)
		} else {
			b, pw, kind := sourceDoc(c)
			c.Dump(fmt.Sprintf("input%d.pdf", i), b)
			group := pick(c, "group", opGroups...)
			j.what = fmt.Sprintf("%s %s %x", kind, group, fnvb(b))
			j.fn = func(c *hx.C) { newOps(c, b).document(group, pw, false) }
		}
		j.seen, j.end = j.r.Run(c, j.fn)
		jobs = append(jobs, j)
	}
	errs := make([]error, len(jobs))
	var wg sync.WaitGroup
	for i, j := range jobs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 3 && errs[i] == nil; k++ {
				seen, end := j.r.Run(c, j.fn)
				errs[i] = differs(j.seen, j.end, seen, end)
			}
		}()
	}
	wg.Wait()
	key := ""
	for i, j := range jobs {
		if errs[i] != nil {
			// alone, it must give what it gave alone before (it does not when it depends on the time)
			if seen, end := j.r.Run(c, j.fn); differs(j.seen, j.end, seen, end) == nil {
				c.Fail("%s, while others run: %v", j.what, errs[i])
			}
		}
		key += fmt.Sprintf("%s %d; ", j.what, len(j.seen))
	}
	c.NT(key)
}
