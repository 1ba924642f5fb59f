package appdash

import (
	"bytes"
	"errors"
	"fmt"
	"strings"
	"testing"
)

type c22own struct {
	Name string
	As   Annotations
	Err  error
	Got  *Annotations
}

func (c22own) Schema() string { return "c22own" }
func (e c22own) MarshalEvent() (Annotations, error) {
	return e.As, e.Err
}

type c22dec struct {
	Fail bool
	N    int
	As   string
}

func (c22dec) Schema() string { return "c22dec" }
func (c22dec) UnmarshalEvent(as Annotations) (Event, error) {
	if as.get("bad") != nil {
		return c22dec{N: 7}, errC22
	}
	return c22dec{N: len(as), As: as.String()}, nil
}

var errC22 = errors.New("c22")

type c22plain struct {
	A string
	B string
	C int
}

func (c22plain) Schema() string { return "c22plain" }

type c22named string

func (n c22named) Schema() string { return string(n) }

func TestReplay_C22(t *testing.T) {
	r := vrStart(t)
	RegisterEvent(c22dec{})
	RegisterEvent(c22plain{})
	keys := []string{"", "a", "_schema:", "_schema:msg", "_schema:name", "_schema:c22dec", "_schema:c22plain", "_schema:nosuch", "x_schema:msg", "_schema", "_Schema:msg", "_schema:_schema:msg", "Msg", "Name", "C", "bad", "A", "A.x"}
	gen := func(bad bool) Annotations {
		as := make(Annotations, r.rnd.Intn(7))
		for i := range as {
			k := keys[r.rnd.Intn(len(keys))]
			if k == "bad" && !bad {
				k = "a"
			}
			as[i] = ann(k, []string{"", "1", "x", "\x00"}[r.rnd.Intn(4)])
		}
		return as
	}
	marks := func(as Annotations) (s []string) {
		for _, a := range as {
			if len(a.Key) >= 8 && a.Key[:8] == "_schema:" {
				s = append(s, a.Key[8:])
			}
		}
		return
	}
	for i := 0; i < r.scale(3000); i++ {
		as := gen(true)
		r.do(fmt.Sprintf("annotations %q", as.String()), func() {
			want := marks(as)
			if got := as.schemas(); strings.Join(got, "|") != strings.Join(want, "|") || len(got) != len(want) {
				r.fail("schemas() = %q, want %q", got, want)
			}
			for _, k := range keys {
				var w []byte
				for j := len(as) - 1; j >= 0; j-- {
					if as[j].Key == k {
						w = as[j].Value
					}
				}
				if g := as.get(k); (g == nil) != (w == nil) || !bytes.Equal(g, w) {
					r.fail("get(%q) = %q, want %q", k, g, w)
				}
			}
			m := as.StringMap()
			for _, a := range as {
				if _, ok := m[a.Key]; !ok {
					r.fail("StringMap lacks %q", a.Key)
				}
			}
			for k, v := range m {
				ok := false
				for _, a := range as {
					ok = ok || a.Key == k && string(a.Value) == v
				}
				if !ok {
					r.fail("StringMap has %q: %q", k, v)
				}
			}

			// one target
			for _, s := range []string{"msg", "name", "nosuch", "", "c22dec"} {
				has := false
				for _, w := range want {
					has = has || w == s
				}
				n := c22named(s)
				err := func() (err error) {
					defer func() {
						if e := recover(); e != nil && has {
							err = nil // decoding into such a target is not the subject here
						} else if e != nil {
							panic(e)
						}
					}()
					return UnmarshalEvent(as, &n)
				}()
				if (err == nil) != has {
					r.fail("decoding into schema %q with markers %q: error %v", s, want, err)
				}
				if e, ok := err.(*EventSchemaUnmarshalError); err != nil && (!ok || e.Target != s || strings.Join(e.Found, "|") != strings.Join(want, "|")) {
					r.fail("decoding into schema %q with markers %q: error %#v", s, want, err)
				}
			}

			// all events
			var evs []Event
			before := Event(msgEvent{"kept"})
			evs = append(evs, before)
			err := UnmarshalEvents(as, &evs)
			bad := as.get("bad") != nil
			var ws []string
			for _, w := range want {
				switch w {
				case "msg", "name", "c22dec", "c22plain":
					if w == "c22dec" && bad {
						if err != errC22 {
							r.fail("decoding all: error %v", err)
						}
						return
					}
					ws = append(ws, w)
				}
			}
			if err != nil {
				r.fail("decoding all: error %v", err)
			}
			if len(evs) != len(ws)+1 || evs[0] != before {
				r.fail("decoding all: %d events for markers %q", len(evs)-1, want)
			}
			for j, w := range ws {
				e := evs[j+1]
				if e.Schema() != w {
					r.fail("decoding all: event %d has schema %q, markers %q", j, e.Schema(), want)
				}
				if d, ok := e.(c22dec); ok && (d.N != len(as) || d.As != as.String()) {
					r.fail("event's own unmarshaller's result was not used: %+v", d)
				}
			}
		})
	}
	for i := 0; i < r.scale(2000); i++ {
		as := gen(true)
		if r.rnd.Intn(2) == 0 {
			as = append(make(Annotations, 0, 20), as...)
		}
		var fail error
		if r.rnd.Intn(4) == 0 {
			fail = errC22
		}
		want := append(Annotations{}, as...)
		r.do(fmt.Sprintf("marshalling an event whose marshaller returns %q, %v", as.String(), fail), func() {
			got, err := MarshalEvent(c22own{As: as, Err: fail})
			if err != fail {
				r.fail("error %v", err)
			}
			if fail != nil {
				if len(got) != 0 {
					r.fail("annotations %q with an error", got)
				}
				return
			}
			if len(got) != len(want)+1 || !sameAnns(got[:len(want)], want) || got[len(want)].Key != "_schema:c22own" {
				r.fail("annotations %q", got)
			}
		})
		p := c22plain{[]string{"", "x", "y"}[r.rnd.Intn(3)], []string{"", "x", "y"}[r.rnd.Intn(3)], r.rnd.Intn(3)}
		r.do(fmt.Sprintf("marshalling %+v", p), func() {
			got, err := MarshalEvent(p)
			if err != nil || len(got) != 4 || got[3].Key != "_schema:c22plain" {
				r.fail("annotations %q, error %v", got, err)
			}
			m := got[:3].StringMap()
			if m["A"] != p.A || m["B"] != p.B || m["C"] != fmt.Sprint(p.C) || len(m) != 3 {
				r.fail("annotations %q", got)
			}
			var q c22plain
			if err := UnmarshalEvent(got, &q); err != nil || q != p {
				r.fail("decoded %+v, error %v", q, err)
			}
		})
	}
	for _, s := range []string{"", "msg", "c22plain", "c22new", "Timespan"} {
		_, dup := registeredEvents[s]
		r.do(fmt.Sprintf("registering schema %q", s), func() {
			n := len(registeredEvents)
			panicked := func() (p bool) {
				defer func() { p = recover() != nil }()
				RegisterEvent(c22named(s))
				return
			}()
			if panicked != (dup || s == "") {
				r.fail("panicked: %v", panicked)
			}
			if panicked && len(registeredEvents) != n || !panicked && registeredEvents[s] != Event(c22named(s)) {
				r.fail("the table of events is wrong")
			}
		})
	}
}
