package appdash_test

import (
	"fmt"
	"sync"
	"testing"

	"sourcegraph.com/sourcegraph/appdash"
)

func TestReplay_C02(t *testing.T) {
	r := vrStart(t)
	seen := map[appdash.ID]bool{}
	use := func(id appdash.ID) {
		if seen[id] {
			r.fail("ID %v was handed out twice", id)
		}
		seen[id] = true
	}
	for i := 0; i < r.scale(200000); i++ {
		p := appdash.SpanID{Trace: appdash.ID(r.rnd.Uint64()), Span: appdash.ID(r.rnd.Uint64()), Parent: appdash.ID(r.rnd.Intn(2))}
		r.do(fmt.Sprintf("call %d", i), func() {
			id := appdash.NewRootSpanID()
			if id.Parent != 0 || !id.IsRoot() {
				r.fail("root span ID %v has a parent", id)
			}
			use(id.Trace)
			use(id.Span)
		})
		r.do(fmt.Sprintf("child of %v", p), func() {
			id := appdash.NewSpanID(p)
			if id.Trace != p.Trace || id.Parent != p.Span {
				r.fail("child is %v", id)
			}
			use(id.Span)
		})
	}
	// concurrent callers
	r.do("8 goroutines generating concurrently", func() {
		var wg sync.WaitGroup
		out := make([][]appdash.ID, 8)
		for g := range out {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				for i := 0; i < r.scale(100000); i++ {
					out[g] = append(out[g], appdash.NewSpanID(appdash.SpanID{}).Span)
				}
			}(g)
		}
		wg.Wait()
		for _, o := range out {
			for _, id := range o {
				use(id)
			}
		}
	})
}
