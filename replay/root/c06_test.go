package appdash_test

import (
	"fmt"
	"testing"

	"sourcegraph.com/sourcegraph/appdash"
)

// Random arrival orders of random forests, some with missing spans, checked after every step.
func TestReplay_C06(t *testing.T) {
	r := vrStart(t)
	for i := 0; i < r.scale(30000); i++ {
		n := 1 + r.rnd.Intn(7)
		roots := r.rnd.Intn(3)
		parent := make([]int, n+1) // of span k: 0 or a smaller number; rename maps to IDs
		rename := r.rnd.Perm(n)
		for k := 1; k <= n; k++ {
			if roots < 2 {
				parent[k] = r.rnd.Intn(k)
				if roots == 1 && k > 1 && parent[k] == 0 {
					parent[k] = 1
				}
			} else {
				parent[k] = r.rnd.Intn(k)
				if parent[k] == 0 {
					parent[k] = -1 // a parent that is never collected
				}
			}
		}
		name := func(k int) appdash.ID {
			switch k {
			case 0:
				return 0
			case -1:
				return 99
			}
			return appdash.ID(rename[k-1] + 1)
		}
		var order []appdash.SpanID
		for _, k := range r.rnd.Perm(n) {
			if r.rnd.Intn(8) == 0 {
				continue
			}
			order = append(order, appdash.SpanID{Trace: 1, Span: name(k + 1), Parent: name(parent[k+1])})
			if r.rnd.Intn(6) == 0 {
				order = append(order, order[r.rnd.Intn(len(order))])
			}
		}
		desc := "spans (span<-parent):"
		for _, s := range order {
			desc += fmt.Sprintf(" %d<-%d", uint64(s.Span), uint64(s.Parent))
		}
		r.do(desc, func() {
			ms := appdash.NewMemoryStore()
			have := map[appdash.ID]appdash.SpanID{}
			nroots := 0
			for _, s := range order {
				if err := ms.Collect(s, ann("a", "b")); err != nil {
					r.fail("Collect: %v", err)
				}
				if _, ok := have[s.Span]; !ok && s.Parent == 0 {
					nroots++
				}
				have[s.Span] = s
				root, err := ms.Trace(1)
				if err != nil {
					r.fail("Trace: %v", err)
				}
				seen := map[appdash.ID]int{}
				var walk func(x, par *appdash.Trace, depth int)
				walk = func(x, par *appdash.Trace, depth int) {
					if depth > 20 {
						r.fail("the tree has a cycle")
					}
					seen[x.ID.Span]++
					if x.ID != have[x.ID.Span] {
						r.fail("tree has span %v, collected was %v", x.ID, have[x.ID.Span])
					}
					if _, ok := have[x.ID.Parent]; ok {
						if par == nil {
							r.fail("root %v has its parent collected", x.ID)
						}
						if par.ID.Span != x.ID.Parent {
							r.fail("span %v hangs from %v", x.ID, par.ID)
						}
					} else if par != nil && par != root {
						r.fail("span %v, whose parent is not there, hangs from %v, not the root", x.ID, par.ID)
					}
					for _, c := range x.Sub {
						walk(c, x, depth+1)
					}
				}
				walk(root, nil, 0)
				for id := range have {
					if seen[id] != 1 {
						r.fail("after %v: span %d occurs %d times in the tree", s, uint64(id), seen[id])
					}
				}
				if len(seen) != len(have) {
					r.fail("%d spans in the tree, %d collected", len(seen), len(have))
				}
				if nroots > 0 && root.ID.Parent != 0 {
					r.fail("root is %v although a span without a parent was collected", root.ID)
				}
			}
		})
	}
}
