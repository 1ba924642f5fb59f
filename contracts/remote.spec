package appdash "sourcegraph.com/sourcegraph/appdash"

guard RemoteCollector.mu: pconn

extern "github.com/gogo/protobuf/io.NewDelimitedWriter" pure
define NewWriter(c: any): any = pure("github.com/gogo/protobuf/io.NewDelimitedWriter", any, c)
axiom writerNotNil: forall c: any :: {NewWriter(c)} NewWriter(c) != nil

# ---- C05 ----

# The attempt over a new connection, starting from history l.
define Redial(l: Log, rc: *RemoteCollector, pk: any, err: any, lg: Log): bool =
    let l2 = l + ev.call(rc.dial);
    (res1(l2, error) != nil ==> lg == l2 && err == res1(l2, error) && rc.pconn == nil)
    && (res1(l2, error) == nil ==>
        (let w = NewWriter(res(l2, net.Conn)); let l3 = l2 + ev.WriteMsg(w, pk);
        lg == l3 && err == res(l3, error) && rc.pconn == w))

func (*RemoteCollector).Collect(rc, span, anns) (err)
  property C05
  requires dial: rc.dial != nil
  ghost pk: any = nil
  on WriteMsg(w, m): pk = m
  oncall WriteMsg(w, m) [packet is the collection]: typeis(m, *wire.CollectPacket)
      && WireIDIs(unbox(m, *wire.CollectPacket).Spanid, span) && WireAnnsAre(unbox(m, *wire.CollectPacket).Annotation, anns)
  oncall WriteMsg(w, m) [a retry sends the same packet]: pk == nil || m == pk
  ensures kept: old(rc.pconn) != nil && res(old(log) + ev.WriteMsg(old(rc.pconn), pk), error) == nil
      ==> log == old(log) + ev.WriteMsg(old(rc.pconn), pk) && err == nil && rc.pconn == old(rc.pconn)
  ensures retried: old(rc.pconn) != nil && res(old(log) + ev.WriteMsg(old(rc.pconn), pk), error) != nil
      ==> Redial(old(log) + ev.WriteMsg(old(rc.pconn), pk) + ev.Close(old(rc.pconn)), rc, pk, err, log)
  ensures dialled: old(rc.pconn) == nil ==> Redial(old(log), rc, pk, err, log)
  ensures honest: err == nil ==> rc.pconn != nil && log == prev(log) + ev.WriteMsg(rc.pconn, pk) && res(log, error) == nil
  modifies log, RemoteCollector.pconn, RemoteCollector.Log

func (*RemoteCollector).Close(rc) (err)
  property C05
  ensures none: rc.pconn == nil
  ensures closed: old(rc.pconn) != nil ==> log == old(log) + ev.Close(old(rc.pconn)) && err == res(log, error)
  ensures idle: old(rc.pconn) == nil ==> log == old(log) && err == nil
  modifies log, RemoteCollector.pconn
