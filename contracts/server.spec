package appdash "sourcegraph.com/sourcegraph/appdash"

# ---- C04: one connection of the collector server ----

extern "github.com/gogo/protobuf/io.NewDelimitedReader" pure
extern ".ReadMsg" event modifies 0
extern ".RemoteAddr" skip
extern ".Addr" skip
define NewReader(c: any): any = pure("github.com/gogo/protobuf/io.NewDelimitedReader", any, c, 1048576)
axiom readerNotNil: forall c: any :: {NewReader(c)} NewReader(c) != nil

# phase 0: the next packet may be read; 1: a packet was read and is to be
# collected; 2: a read failed; 3: a collection failed.
func (*CollectorServer).handleConn(cs, conn) (err)
  property C04
  requires setup: cs.c != nil && conn != nil && cs.l != nil
  ghost phase: math = 0
  ghost rerr: any = nil
  ghost pid: SpanID = zero(SpanID)
  ghost pann: []*wire.CollectPacket_Annotation = nil
  ghost closed: bool = false
  assume-after ReadMsg(r, m) [a decoded packet has its required fields]: res(log, error) == nil ==> unbox(m, *wire.CollectPacket).Spanid != nil
      && unbox(m, *wire.CollectPacket).Spanid.Span != nil && WireAnnOK(unbox(m, *wire.CollectPacket).Annotation)
  on ReadMsg(r, m): phase = if res(log, error) == nil then 1 else 2
  on ReadMsg(r, m): rerr = res(log, error)
  on ReadMsg(r, m): pid = WireID(unbox(m, *wire.CollectPacket).Spanid)
  on ReadMsg(r, m): pann = unbox(m, *wire.CollectPacket).Annotation
  on Collect(c, id, anns): phase = if res(log, error) == nil then 0 else 3
  on Close(c): closed = closed || c == conn
  oncall ReadMsg(r, m) [reads only when the last packet was collected]: phase == 0 && !closed && r == NewReader(conn) && typeis(m, *wire.CollectPacket)
  oncall Collect(c, id, anns) [collects each decoded packet once]: phase == 1 && c == cs.c
  oncall Collect(c, id, anns) [own span ID]: id == pid
  oncall Collect(c, id, anns) [own annotations]: WireAnnsAre(pann, anns)
  loop (): phase == 0
  loop (): !closed
  ensures ended: phase == 2 || phase == 3
  ensures clean: phase == 2 && rerr == io.EOF ==> err == nil
  ensures readError: phase == 2 && rerr != io.EOF ==> err != nil
  ensures collectError: phase == 3 ==> err != nil
  ensures closed: closed
