package appdash

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"net"
	"sync"
	"testing"
	"time"
)

// c23run runs the operations from several goroutines at once, under the race
// detector, and watches for operations that never return.
func c23run(r *vr, desc string, g int, op func(rnd *rand.Rand)) {
	r.do(desc, func() {
		fmt.Printf("REPLAY-CASE: %s\n", desc)
		seeds := make([]int64, g)
		for i := range seeds {
			seeds[i] = r.rnd.Int63()
		}
		done := make(chan struct{})
		panics := make(chan interface{}, g)
		var wg sync.WaitGroup
		for i := 0; i < g; i++ {
			rnd := rand.New(rand.NewSource(seeds[i]))
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if e := recover(); e != nil {
						panics <- e
					}
				}()
				for k := 0; k < 40; k++ {
					op(rnd)
				}
			}()
		}
		go func() { wg.Wait(); close(done) }()
		select {
		case <-done:
		case <-time.After(10 * time.Second):
			r.fail("the operations do not return: a lock is held for ever")
		}
		select {
		case e := <-panics:
			r.fail("panic: %v", e)
		default:
		}
	})
}

func c23span(rnd *rand.Rand) SpanID {
	return SpanID{Trace: ID(1 + rnd.Intn(5)), Span: ID(1 + rnd.Intn(6)), Parent: ID(rnd.Intn(1))}
}

func c23store(s interface {
	Store
	Collect(SpanID, ...Annotation) error
}) func(rnd *rand.Rand) {
	return func(rnd *rand.Rand) {
		id := c23span(rnd)
		switch rnd.Intn(8) {
		case 0, 1, 2, 3:
			s.Collect(id, ann("k", "v"))
		case 4:
			s.Trace(id.Trace)
		case 5:
			if q, ok := s.(Queryer); ok {
				o := TracesOpts{}
				if rnd.Intn(2) == 0 {
					o.TraceIDs = []ID{id.Trace}
				}
				q.Traces(o)
			}
		case 6:
			if d, ok := s.(DeleteStore); ok {
				d.Delete(id.Trace)
			}
		case 7:
			if p, ok := s.(PersistentStore); ok {
				var b bytes.Buffer
				if rnd.Intn(2) == 0 {
					p.Write(&b)
				}
				if rnd.Intn(4) == 0 {
					b.Truncate(b.Len() / 2)
				}
				p.ReadFrom(&b)
			}
		}
	}
}

type c23coll struct {
	mu   sync.Mutex
	n    int
	fail int
	slow time.Duration
}

func (c *c23coll) Collect(SpanID, ...Annotation) error {
	c.mu.Lock()
	c.n++
	f := c.fail > 0 && c.n%c.fail == 0
	c.mu.Unlock()
	time.Sleep(c.slow)
	if f {
		return errors.New("collect failure")
	}
	return nil
}

// c23conn is a connection that swallows what it gets, sometimes failing.
type c23conn struct {
	net.Conn
	mu   sync.Mutex
	n    int
	fail int
}

func (c *c23conn) Write(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.n++
	if c.fail > 0 && c.n%c.fail == 0 {
		return 0, errors.New("write failure")
	}
	return len(b), nil
}

func (c *c23conn) Close() error { return nil }

func TestReplay_C23(t *testing.T) {
	r := vrStart(t)
	for i := 0; i < r.scale(30); i++ {
		c23run(r, "MemoryStore: concurrent Collect, Trace, Traces, Delete, Write, ReadFrom", 4, c23store(NewMemoryStore()))
		for _, age := range []time.Duration{0, time.Microsecond, time.Hour} {
			c23run(r, fmt.Sprintf("RecentStore with age %v over MemoryStore: concurrent Collect, Trace, Delete", age), 4, c23store(&RecentStore{MinEvictAge: age, DeleteStore: NewMemoryStore()}))
		}
		for _, max := range []int{0, 1, 3} {
			c23run(r, fmt.Sprintf("LimitStore with maximum %d over MemoryStore: concurrent Collect, Trace, Delete", max), 4, c23store(&LimitStore{Max: max, DeleteStore: NewMemoryStore()}))
		}
		c23run(r, "LimitStore over a store whose Delete fails", 4, c23store(&LimitStore{Max: 2, DeleteStore: c23failing{NewMemoryStore()}}))
		for _, k := range []int{0, 1, 3} {
			// One goroutine flushes and stops: collectors use Collect from many.
			cc := &ChunkedCollector{Collector: &c23coll{fail: k}, MinInterval: time.Duration(1+r.rnd.Intn(300)) * time.Microsecond}
			if r.rnd.Intn(2) == 0 {
				cc.MaxQueueSize = 30
			}
			if r.rnd.Intn(2) == 0 {
				cc.FlushTimeout = time.Nanosecond
				cc.Collector.(*c23coll).slow = 100 * time.Microsecond
			}
			c23run(r, fmt.Sprintf("ChunkedCollector (queue %d, flush timeout %v, every %d-th Collect below fails): concurrent Collect, Flush and Stop", cc.MaxQueueSize, cc.FlushTimeout, k), 4, func(rnd *rand.Rand) {
				if rnd.Intn(60) == 0 {
					cc.Stop()
				} else if rnd.Intn(4) == 0 {
					cc.Flush()
				} else {
					cc.Collect(c23span(rnd), ann("k", "v"))
				}
			})
			r.do("ChunkedCollector: Stop after use", func() {
				fin := make(chan bool)
				go func() { cc.Stop(); cc.Flush(); close(fin) }()
				select {
				case <-fin:
				case <-time.After(10 * time.Second):
					r.fail("Stop or Flush does not return")
				}
			})
		}
		for _, k := range []int{0, 2, 5} {
			dials := 0
			var dm sync.Mutex
			rc := &RemoteCollector{dial: func() (net.Conn, error) {
				dm.Lock()
				defer dm.Unlock()
				dials++
				if k > 0 && dials%4 == 3 {
					return nil, errors.New("dial failure")
				}
				return &c23conn{fail: k}, nil
			}}
			c23run(r, fmt.Sprintf("RemoteCollector over connections where every %d-th write fails: concurrent Collect and Close", k), 4, func(rnd *rand.Rand) {
				if rnd.Intn(6) == 0 {
					rc.Close()
				} else {
					rc.Collect(c23span(rnd), ann("k", "v"))
				}
			})
		}
		rec := NewRecorder(SpanID{Trace: 1, Span: 2}, &c23coll{fail: 1})
		c23run(r, "Recorder over a failing collector: concurrent Annotation and Errors", 4, func(rnd *rand.Rand) {
			if rnd.Intn(3) == 0 {
				rec.Errors()
			} else {
				rec.Annotation(ann("k", "v"))
			}
		})
		c23run(r, "concurrent NewRootSpanID and NewSpanID", 4, func(rnd *rand.Rand) {
			NewSpanID(NewRootSpanID())
		})
	}
}

type c23failing struct{ *MemoryStore }

func (s c23failing) Delete(...ID) error { return errors.New("delete failure") }
