package appdash

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"
)

// vrDump: a store's trees and index, and whether they share their spans.
func vrDump(ms *MemoryStore) string {
	var b strings.Builder
	var ids []int
	for id := range ms.trace {
		ids = append(ids, int(id))
	}
	sort.Ints(ids)
	for _, i := range ids {
		id := ID(i)
		n := 0
		fmt.Fprintf(&b, "trace %d:", i)
		var walk func(t *Trace, depth int)
		walk = func(t *Trace, depth int) {
			n++
			if depth > 30 {
				b.WriteString("...")
				return
			}
			fmt.Fprintf(&b, " %v", t.ID)
			for _, a := range t.Annotations {
				fmt.Fprintf(&b, " %q=%q", a.Key, a.Value)
			}
			if ms.span[id][t.ID.Span] != t {
				b.WriteString(" NOT-INDEXED")
			}
			b.WriteString(" (")
			for _, c := range t.Sub {
				walk(c, depth+1)
			}
			b.WriteString(")")
		}
		walk(ms.trace[id], 0)
		if len(ms.span[id]) != n {
			fmt.Fprintf(&b, " INDEX has %d of %d spans", len(ms.span[id]), n)
		}
		b.WriteString("\n")
	}
	if len(ms.span) != len(ms.trace) {
		fmt.Fprintf(&b, "INDEX has %d of %d traces", len(ms.span), len(ms.trace))
	}
	return b.String()
}

type vrErrReader struct {
	b   []byte
	err error
}

func (e *vrErrReader) Read(p []byte) (int, error) {
	if len(e.b) == 0 {
		return 0, e.err
	}
	n := copy(p, e.b)
	e.b = e.b[n:]
	return n, nil
}

type vrErrWriter struct{ left int }

func (e *vrErrWriter) Write(p []byte) (int, error) {
	if len(p) > e.left {
		return e.left, errors.New("disk full")
	}
	e.left -= len(p)
	return len(p), nil
}

func TestReplay_C09(t *testing.T) {
	r := vrStart(t)
	for i := 0; i < r.scale(4000); i++ {
		type op struct {
			id  SpanID
			del bool
			as  []Annotation
		}
		// span k's parent has a smaller number (or none, or one never collected)
		mk := func(n int) []op {
			var ops []op
			for j := 0; j < n; j++ {
				tr := ID(1 + r.rnd.Intn(3))
				k := 1 + r.rnd.Intn(6)
				id := SpanID{Trace: tr, Span: ID(k), Parent: ID((k * 7 / 11))}
				if k > 3 && tr == 2 {
					id.Parent = ID(90 + k)
				}
				o := op{id: id, del: r.rnd.Intn(12) == 0}
				for m := r.rnd.Intn(3); m > 0; m-- {
					o.as = append(o.as, ann(fmt.Sprint("k", r.rnd.Intn(4)), strings.Repeat("v", r.rnd.Intn(3))))
				}
				ops = append(ops, o)
			}
			return ops
		}
		run := func(ms *MemoryStore, ops []op) {
			for _, o := range ops {
				var err error
				if o.del {
					err = ms.Delete(o.id.Trace)
				} else {
					err = ms.Collect(o.id, o.as...)
				}
				if err != nil {
					r.fail("%+v: %v", o, err)
				}
			}
		}
		before, other, after := mk(r.rnd.Intn(10)), mk(r.rnd.Intn(4)), mk(r.rnd.Intn(8))
		cut := r.rnd.Intn(400)
		if i%20 == 0 {
			cut = 0
		}
		desc := fmt.Sprintf("collect %+v, save, load into a store with %+v, then %+v; failure after %d bytes", before, other, after, cut)
		r.do(desc, func() {
			a, b := NewMemoryStore(), NewMemoryStore()
			run(a, before)
			run(b, other)
			dump := vrDump(a)
			var buf bytes.Buffer
			if err := a.Write(&buf); err != nil {
				r.fail("Write: %v", err)
			}
			if d := vrDump(a); d != dump {
				r.fail("Write changed the store from\n%s\nto\n%s", dump, d)
			}
			saved := buf.Bytes()
			if cut < len(saved) {
				d := vrDump(b)
				var rd io.Reader = &vrErrReader{saved[:cut:cut], io.ErrUnexpectedEOF}
				if i%2 == 0 {
					rd = bytes.NewReader(saved[:cut]) // a truncated file
				}
				if _, err := b.ReadFrom(rd); err == nil {
					r.fail("a failed load returned no error")
				}
				if x := vrDump(b); x != d {
					r.fail("a failed load changed the store from\n%s\nto\n%s", d, x)
				}
				if err := a.Write(&vrErrWriter{cut}); err == nil {
					r.fail("a failed write returned no error")
				}
			}
			n, err := b.ReadFrom(bytes.NewReader(saved))
			if err != nil {
				r.fail("ReadFrom: %v", err)
			}
			if int(n) != len(a.trace) {
				r.fail("ReadFrom returned %d for %d traces", n, len(a.trace))
			}
			if d := vrDump(b); d != dump {
				r.fail("loaded\n%s\nsaved\n%s", d, dump)
			}
			for k, o := range after {
				run(a, after[k:k+1])
				run(b, after[k:k+1])
				if x, y := vrDump(a), vrDump(b); x != y {
					r.fail("after %+v the loaded store has\n%s\nthe saved one\n%s", o, y, x)
				}
			}
		})
	}
	dir := t.TempDir()
	os.Setenv("TMPDIR", dir)
	for good := 0; good < 4; good++ {
		for _, how := range []string{"fails", "fails half way", "closes the file", "removes the file"} {
			for _, target := range []string{"old", "missing", "directory", "no such/directory"} {
				r.do(fmt.Sprintf("PersistEvery: target %s, %d good writes, then one that %s", target, good, how), func() {
					file := filepath.Join(dir, "target")
					os.RemoveAll(filepath.Join(dir, "target"))
					want := ""
					switch target {
					case "old":
						want = "old"
						os.WriteFile(file, []byte(want), 0o600)
					case "directory":
						os.Mkdir(file, 0o700)
						os.WriteFile(filepath.Join(file, "x"), nil, 0o600)
					case "no such/directory":
						file = filepath.Join(dir, "none", "target")
					}
					s := &vrPersist{r: r, file: file, want: want, good: good, how: how, blocked: target == "directory" || strings.HasPrefix(target, "no")}
					err := PersistEvery(s, 0, file)
					if err == nil {
						r.fail("PersistEvery returned no error")
					}
					if (how == "fails" || how == "fails half way") && s.n > good && err != errPersist {
						r.fail("PersistEvery returned %v, the store's write failed with %v", err, errPersist)
					}
					s.check("at the end")
				})
			}
		}
	}
}

var errPersist = errors.New("write failed")

// vrPersist watches the target file while it is being written.
type vrPersist struct {
	PersistentStore
	r          *vr
	file, want string
	n, good    int
	how        string
	blocked    bool
	pending    string
}

func (s *vrPersist) check(when string) {
	b, err := os.ReadFile(s.file)
	if s.blocked {
		if err == nil {
			s.r.fail("%s the target has become %q", when, b)
		}
		if _, err := os.Stat(filepath.Join(s.file, "x")); err != nil && !strings.Contains(s.file, "none") {
			s.r.fail("%s the directory that is in the target's place is gone", when)
		}
		return
	}
	if string(b) != s.want {
		s.r.fail("%s the target has %q, want %q", when, b, s.want)
	}
}

func (s *vrPersist) Write(w io.Writer) error {
	if s.pending != "" && !s.blocked {
		s.want = s.pending
	}
	s.check(fmt.Sprintf("before write %d", s.n+1))
	if s.n++; s.n > s.good+1 || s.n > 1 && s.blocked {
		s.r.fail("the store is written again after a failure")
	}
	s.pending = ""
	c := fmt.Sprintf("contents %d", s.n)
	io.WriteString(w, c[:5])
	s.check(fmt.Sprintf("in the middle of write %d", s.n))
	if s.n > s.good {
		switch s.how {
		case "fails":
			return errPersist
		case "fails half way":
			io.WriteString(w, c[5:])
			return errPersist
		case "closes the file":
			w.(*os.File).Close()
			return nil
		case "removes the file":
			os.Remove(w.(*os.File).Name())
			return nil
		}
	}
	io.WriteString(w, c[5:])
	s.check(fmt.Sprintf("after write %d", s.n))
	s.pending = c
	return nil
}
