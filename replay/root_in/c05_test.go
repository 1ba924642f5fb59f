package appdash

import (
	"bytes"
	"errors"
	"fmt"
	"net"
	"testing"

	pio "github.com/gogo/protobuf/io"
	"sourcegraph.com/sourcegraph/appdash/internal/wire"
)

type c05conn struct {
	net.Conn
	w         *c05world
	id        int
	failAt    int // the write that fails (1-based), 0 never
	n         int
	buf       bytes.Buffer
	closed    bool
	closeFail bool
}

type c05world struct {
	trace []string
	conns []*c05conn
}

func (c *c05conn) Write(b []byte) (int, error) {
	c.n++
	if c.closed {
		c.w.trace = append(c.w.trace, fmt.Sprintf("writeClosed%d", c.id))
		return 0, errors.New("closed")
	}
	if c.failAt != 0 && c.n >= c.failAt {
		c.w.trace = append(c.w.trace, fmt.Sprintf("fail%d", c.id))
		return 0, fmt.Errorf("write failure %d", c.id)
	}
	c.w.trace = append(c.w.trace, fmt.Sprintf("write%d", c.id))
	c.buf.Write(b)
	return len(b), nil
}

func (c *c05conn) Close() error {
	c.closed = true
	c.w.trace = append(c.w.trace, fmt.Sprintf("close%d", c.id))
	if c.closeFail {
		return errors.New("close failure")
	}
	return nil
}

// c05norm turns the writes of one message into one entry.
func c05norm(tr []string) []string {
	var out []string
	for i, e := range tr {
		if i+1 < len(tr) && len(e) > 5 && e[:5] == "write" && (tr[i+1] == e || tr[i+1] == "fail"+e[5:]) {
			continue
		}
		out = append(out, e)
	}
	return out
}

func TestReplay_C05(t *testing.T) {
	r := vrStart(t)
	for i := 0; i < r.scale(3000); i++ {
		w := &c05world{}
		seed := r.rnd.Int63()
		dials := 0
		var plan []int // per dial: -1 dial fails, else failAt
		for j := 0; j < 14; j++ {
			plan = append(plan, r.rnd.Intn(9)-1)
		}
		rc := NewRemoteCollector("x")
		rc.dial = func() (net.Conn, error) {
			k := plan[dials%len(plan)]
			dials++
			w.trace = append(w.trace, fmt.Sprintf("dial%d", dials))
			if k < 0 {
				return nil, fmt.Errorf("dial failure %d", dials)
			}
			c := &c05conn{w: w, id: dials, failAt: k, closeFail: r.rnd.Intn(2) == 0}
			w.conns = append(w.conns, c)
			return c, nil
		}
		var cur *c05conn // the connection held, by the oracle
		ops := 1 + r.rnd.Intn(6)
		for o := 0; o < ops; o++ {
			w.trace = nil
			if r.rnd.Intn(5) == 0 {
				r.do(fmt.Sprintf("case %d op %d: Close, dial plan %v", seed, o, plan), func() {
					err := rc.Close()
					if cur == nil && (len(w.trace) > 0 || err != nil) {
						r.fail("close without a connection did %v, %v", w.trace, err)
					}
					if cur != nil {
						if fmt.Sprint(w.trace) != fmt.Sprintf("[close%d]", cur.id) {
							r.fail("did %v", w.trace)
						}
						if (err != nil) != cur.closeFail {
							r.fail("returned %v", err)
						}
					}
					cur = nil
				})
				continue
			}
			id := SpanID{Trace: ID(r.rnd.Uint64()), Span: ID(o + 1), Parent: ID(r.rnd.Intn(2))}
			a := Annotation{Key: fmt.Sprintf("k%d", o), Value: []byte{byte(o)}}
			r.do(fmt.Sprintf("case %d op %d: Collect %v, dial plan %v, held connection %v", seed, o, id, plan, cur != nil), func() {
				before := dials
				// the oracle
				var want []string
				ok := false
				next := cur
				// a message takes two writes (length and body)
				willFail := func(c *c05conn) bool { return c.failAt != 0 && c.n+2 >= c.failAt }
				if cur != nil && !willFail(cur) {
					want = append(want, fmt.Sprintf("write%d", cur.id))
					ok = true
				} else {
					if cur != nil {
						want = append(want, fmt.Sprintf("fail%d", cur.id), fmt.Sprintf("close%d", cur.id))
					}
					next = nil
					want = append(want, fmt.Sprintf("dial%d", before+1))
					if k := plan[before%len(plan)]; k >= 0 {
						next = &c05conn{id: before + 1}
						if k == 1 || k == 2 {
							want = append(want, fmt.Sprintf("fail%d", before+1))
						} else {
							want = append(want, fmt.Sprintf("write%d", before+1))
							ok = true
						}
					}
				}
				err := rc.Collect(id, a)
				if (err == nil) != ok {
					r.fail("returned %v after %v, want success: %v", err, w.trace, ok)
				}
				w.trace = c05norm(w.trace)
				if fmt.Sprint(w.trace) != fmt.Sprint(want) {
					r.fail("did %v, want %v", w.trace, want)
				}
				if next != nil && next != cur {
					next = w.conns[len(w.conns)-1]
				}
				cur = next
				if ok {
					rd := pio.NewDelimitedReader(bytes.NewReader(cur.buf.Bytes()), 1<<20)
					var p *wire.CollectPacket
					for {
						q := &wire.CollectPacket{}
						if rd.ReadMsg(q) != nil {
							break
						}
						p = q
					}
					if p == nil || spanIDFromWire(p.Spanid) != id || len(p.Annotation) != 1 || *p.Annotation[0].Key != a.Key || string(p.Annotation[0].Value) != string(a.Value) {
						r.fail("the packet last written is %v", p)
					}
				}
			})
		}
	}
}
