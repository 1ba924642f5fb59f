package appdash_test

import (
	"bytes"
	"fmt"
	"io"
	"log"
	"net"
	"testing"
	"time"

	"sourcegraph.com/sourcegraph/appdash"
)

func TestReplay_C03(t *testing.T) {
	r := vrStart(t)
	// client -> server over TCP
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	rec := &recColl{}
	srv := appdash.NewServer(ln, rec)
	srv.Log = log.New(io.Discard, "", 0)
	go srv.Start()
	rc := appdash.NewRemoteCollector(ln.Addr().String())
	n := r.scale(1500)
	var sent []coll
	for i := 0; i < n; i++ {
		c := randColl(r)
		if i%50 == 0 {
			c.anns = append(c.anns, ann("big", string(bytes.Repeat([]byte{byte(i)}, 40000))))
		}
		sent = append(sent, c)
		r.do(fmt.Sprintf("collection %+v", c), func() {
			if err := rc.Collect(c.id, c.anns...); err != nil {
				r.fail("client error %v", err)
			}
		})
	}
	rc.Close()
	for i := 0; i < 500; i++ {
		rec.mu.Lock()
		k := len(rec.got)
		rec.mu.Unlock()
		if k >= n {
			break
		}
		time.Sleep(10 * time.Millisecond)
	}
	rec.mu.Lock()
	defer rec.mu.Unlock()
	for i, c := range sent {
		r.cur = fmt.Sprintf("collection %+v sent over the wire", c)
		if i >= len(rec.got) {
			r.fail("never collected by the server")
		}
		if g := rec.got[i]; g.id != c.id || !sameAnns(g.anns, c.anns) {
			r.fail("collected as %+v", g)
		}
	}
	// hand-made packets, with and without a parent
	for i := 0; i < r.scale(200); i++ {
		c := randColl(r)
		wp := i%2 == 0
		if !wp {
			c.id.Parent = 0
		}
		r.do(fmt.Sprintf("packet %+v, parent field present: %v", c, wp), func() {
			got, _ := serveBytes(encodePacket(c, wp), io.EOF, 0, false, nil)
			if !sameColls(got, []coll{c}) {
				r.fail("collected as %+v", got)
			}
		})
	}
}
