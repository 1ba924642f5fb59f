package appdash_test

import (
	"errors"
	"fmt"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"sourcegraph.com/sourcegraph/appdash"
)

type c11store struct {
	appdash.DeleteStore
	mu      sync.Mutex
	deletes [][]appdash.ID
	calls   []string
	err     error
	delErr  error
}

func (s *c11store) Collect(id appdash.SpanID, as ...appdash.Annotation) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.calls = append(s.calls, fmt.Sprint(id, as))
	return s.err
}
func (s *c11store) Delete(ids ...appdash.ID) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.deletes = append(s.deletes, append([]appdash.ID(nil), ids...))
	return s.delErr
}
func (s *c11store) take() [][]appdash.ID {
	s.mu.Lock()
	defer s.mu.Unlock()
	d := s.deletes
	s.deletes = nil
	return d
}

type c11seen struct{ lo, hi time.Time }

// c11history runs one random history; it returns a failure or "".
func c11history(seed int, rnd func(int) int) (desc, failure string) {
	age := 60 * time.Millisecond
	st := &c11store{}
	rs := &appdash.RecentStore{MinEvictAge: age, DeleteStore: st}
	created := map[appdash.ID]c11seen{}
	var last c11seen
	first := true
	desc = fmt.Sprintf("MinEvictAge=%v:", age)
	for k := 0; k < 8; k++ {
		d := []int{0, 0, 35, 90}[rnd(4)]
		time.Sleep(time.Duration(d) * time.Millisecond)
		id := appdash.SpanID{Trace: appdash.ID(rnd(4)), Span: appdash.ID(k), Parent: 1}
		st.err = nil
		if rnd(3) == 0 {
			st.err = errors.New("collect failed")
		}
		st.mu.Lock()
		st.delErr = nil
		if rnd(3) == 0 {
			st.delErr = errors.New("delete failed")
			desc += " (deletions fail)"
		}
		st.mu.Unlock()
		as := []appdash.Annotation{ann("k", fmt.Sprint(k))}
		desc += fmt.Sprintf(" wait %dms collect %v", d, id)
		st.calls = nil
		lo := time.Now()
		err := rs.Collect(id, as...)
		hi := time.Now()
		if err != st.err {
			return desc, fmt.Sprintf("error %v for the store's %v", err, st.err)
		}
		if len(st.calls) != 1 || st.calls[0] != fmt.Sprint(id, as) {
			return desc, fmt.Sprintf("forwarded as %v", st.calls)
		}
		due := first || lo.Sub(last.hi) > age
		if !due && hi.Sub(last.lo) > age {
			return desc, "" // too close to call
		}
		var want []string
		if due {
			first = false
			last = c11seen{lo, hi}
			for t, c := range created {
				sure, never := c.hi.Before(lo.Add(-age)), !c.lo.Before(hi.Add(-age))
				if !sure && !never {
					return desc, ""
				}
				if sure {
					want = append(want, fmt.Sprint(t))
					delete(created, t)
				}
			}
		}
		if _, ok := created[id.Trace]; !ok {
			created[id.Trace] = c11seen{lo, hi}
		}
		var got []string
		for i := 0; ; i++ {
			for _, l := range st.take() {
				for _, t := range l {
					got = append(got, fmt.Sprint(t))
				}
			}
			if len(got) >= len(want) && i > 0 || i > 300 {
				break
			}
			time.Sleep(2 * time.Millisecond)
		}
		sort.Strings(want)
		sort.Strings(got)
		if strings.Join(got, " ") != strings.Join(want, " ") {
			return desc, fmt.Sprintf("deleted %v, expired were %v", got, want)
		}
	}
	return desc, ""
}

func TestReplay_C11(t *testing.T) {
	r := vrStart(t)
	n := r.scale(200)
	type res struct{ desc, failure string }
	ch := make(chan res, n)
	sem := make(chan bool, 40)
	for i := 0; i < n; i++ {
		var draws []int
		for k := 0; k < 40; k++ {
			draws = append(draws, r.rnd.Intn(1000))
		}
		i := i
		sem <- true
		go func() {
			defer func() {
				<-sem
				if e := recover(); e != nil {
					ch <- res{fmt.Sprint("history ", i), fmt.Sprint("panic: ", e)}
				}
			}()
			p := 0
			d, f := c11history(i, func(m int) int { p++; return draws[p-1] % m })
			ch <- res{d, f}
		}()
	}
	for i := 0; i < n; i++ {
		x := <-ch
		r.do(x.desc, func() {
			if x.failure != "" {
				r.fail("%s", x.failure)
			}
		})
	}
}
