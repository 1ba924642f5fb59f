package appdash_test

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"sync"
	"time"

	"sourcegraph.com/sourcegraph/appdash"
)

type coll struct {
	id   appdash.SpanID
	anns []appdash.Annotation
}

// pipeListener hands the server one connection at a time.
type pipeListener struct {
	ch   chan net.Conn
	done chan struct{}
}

func (l *pipeListener) Accept() (net.Conn, error) {
	c, ok := <-l.ch
	if !ok {
		select {} // Start never returns; park it
	}
	return c, nil
}
func (l *pipeListener) Close() error   { return nil }
func (l *pipeListener) Addr() net.Addr { return &net.UnixAddr{Name: "pipe"} }

// memConn is a connection whose input is a byte string and whose read may end in an error.
type memConn struct {
	r      *bytes.Reader
	end    error
	closed chan struct{}
	once   sync.Once
}

func (c *memConn) Read(b []byte) (int, error) {
	n, err := c.r.Read(b)
	if err == io.EOF {
		err = c.end
	}
	return n, err
}
func (c *memConn) Write(b []byte) (int, error)        { return len(b), nil }
func (c *memConn) Close() error                       { c.once.Do(func() { close(c.closed) }); return nil }
func (c *memConn) LocalAddr() net.Addr                { return &net.UnixAddr{Name: "l"} }
func (c *memConn) RemoteAddr() net.Addr               { return &net.UnixAddr{Name: "r"} }
func (c *memConn) SetDeadline(t time.Time) error      { return nil }
func (c *memConn) SetReadDeadline(t time.Time) error  { return nil }
func (c *memConn) SetWriteDeadline(t time.Time) error { return nil }

type recColl struct {
	mu     sync.Mutex
	got    []coll
	failAt int
}

func (c *recColl) Collect(id appdash.SpanID, as ...appdash.Annotation) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.got = append(c.got, coll{id, append([]appdash.Annotation(nil), as...)})
	if c.failAt > 0 && len(c.got) == c.failAt {
		return errors.New("collect failure")
	}
	return nil
}

// encodePacket writes the wire form by hand (groups 1 and 5, fixed64 IDs).
func encodePacket(c coll, withParent bool) []byte {
	var b []byte
	u64 := func(field byte, v uint64) {
		b = append(b, field<<3|1)
		b = binary.LittleEndian.AppendUint64(b, v)
	}
	by := func(field byte, s []byte) {
		b = append(b, field<<3|2)
		b = binary.AppendUvarint(b, uint64(len(s)))
		b = append(b, s...)
	}
	b = append(b, 1<<3|3)
	u64(2, uint64(c.id.Trace))
	u64(3, uint64(c.id.Span))
	if withParent {
		u64(4, uint64(c.id.Parent))
	}
	b = append(b, 1<<3|4)
	for _, a := range c.anns {
		b = append(b, 5<<3|3)
		by(6, []byte(a.Key))
		if a.Value != nil {
			by(7, a.Value)
		}
		b = append(b, 5<<3|4)
	}
	return append(binary.AppendUvarint(nil, uint64(len(b))), b...)
}

func randColl(r *vr) coll {
	c := coll{id: appdash.SpanID{Trace: appdash.ID(r.rnd.Uint64()), Span: appdash.ID(r.rnd.Uint64()), Parent: appdash.ID(r.rnd.Uint64())}}
	switch r.rnd.Intn(4) {
	case 0:
		c.id.Parent = 0
	case 1:
		c.id = appdash.SpanID{Trace: 1<<64 - 1, Span: appdash.ID(r.rnd.Intn(3)), Parent: appdash.ID(r.rnd.Intn(2))}
	}
	for n := r.rnd.Intn(5); n > 0; n-- {
		v := make([]byte, r.rnd.Intn(6))
		r.rnd.Read(v)
		c.anns = append(c.anns, appdash.Annotation{Key: fmt.Sprintf("k%d", r.rnd.Intn(3)), Value: v})
	}
	return c
}

func sameColls(a, b []coll) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].id != b[i].id || !sameAnns(a[i].anns, b[i].anns) {
			return false
		}
	}
	return true
}

func serveBytesTo(in []byte, end error, failAt int, w io.Writer) ([]coll, bool) {
	return serveBytes(in, end, failAt, false, w)
}

// serveBytes lets a server read one connection and returns what it collected
// and whether it closed the connection.
func serveBytes(in []byte, end error, failAt int, trace bool, logTo io.Writer) ([]coll, bool) {
	l := &pipeListener{ch: make(chan net.Conn, 1)}
	rec := &recColl{failAt: failAt}
	srv := appdash.NewServer(l, rec)
	var w io.Writer = io.Discard
	if logTo != nil {
		w = logTo
	}
	srv.Log = log.New(w, "", 0)
	srv.Trace = trace
	srv.Debug = trace
	c := &memConn{r: bytes.NewReader(in), end: end, closed: make(chan struct{})}
	l.ch <- c
	close(l.ch)
	go srv.Start()
	select {
	case <-c.closed:
	case <-time.After(5 * time.Second):
		return rec.got, false
	}
	time.Sleep(200 * time.Microsecond)
	rec.mu.Lock()
	defer rec.mu.Unlock()
	return rec.got, true
}
