package appdash_test

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"
	"sync"
	"testing"
	"time"
)

type syncBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (s *syncBuf) Write(p []byte) (int, error) { s.mu.Lock(); defer s.mu.Unlock(); return s.b.Write(p) }
func (s *syncBuf) String() string              { s.mu.Lock(); defer s.mu.Unlock(); return s.b.String() }

func TestReplay_C04(t *testing.T) {
	r := vrStart(t)
	for i := 0; i < r.scale(600); i++ {
		n := r.rnd.Intn(6)
		var sent []coll
		var in []byte
		for j := 0; j < n; j++ {
			c := randColl(r)
			sent = append(sent, c)
			in = append(in, encodePacket(c, c.id.Parent != 0 || r.rnd.Intn(2) == 0)...)
		}
		kind := r.rnd.Intn(4)
		end := io.EOF
		failAt := 0
		want := sent
		wantLog := false
		desc := "clean end"
		switch kind {
		case 1:
			end = errors.New("read broken")
			wantLog = true
			desc = "read error at the end"
		case 2:
			if n > 0 {
				failAt = 1 + r.rnd.Intn(n)
				want = sent[:failAt]
				wantLog = true
				desc = fmt.Sprintf("collector fails at %d", failAt)
			}
		case 3:
			if n > 0 { // garbage instead of a packet
				in = append(in, 0x02, 0xff, 0xff)
				wantLog = true
				desc = "undecodable packet at the end"
			}
		}
		trace := r.rnd.Intn(2) == 0
		r.do(fmt.Sprintf("%d packets %+v, %s, Trace/Debug %v", n, sent, desc, trace), func() {
			got, closed := serveBytes(in, end, failAt, trace, nil)
			if !closed {
				r.fail("the connection was not closed")
			}
			if !sameColls(got, want) {
				r.fail("collected %+v, want %+v", got, want)
			}
		})
		if !trace {
			r.do(fmt.Sprintf("%d packets, %s: error reporting", n, desc), func() {
				b := &syncBuf{}
				_, closed := serveBytesTo(in, end, failAt, b)
				if !closed {
					r.fail("the connection was not closed")
				}
				for k := 0; k < 100 && wantLog && b.String() == ""; k++ {
					time.Sleep(2 * time.Millisecond)
				}
				if got := strings.TrimSpace(b.String()); (got != "") != wantLog {
					r.fail("reported %q, want a report: %v", got, wantLog)
				}
			})
		}
	}
}
