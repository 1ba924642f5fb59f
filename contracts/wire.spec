package appdash "sourcegraph.com/sourcegraph/appdash"

# ---- C03: wire packets ----

define WireID(w: *wire.CollectPacket_SpanID): SpanID =
    mk(SpanID, if w.Trace == nil then 0 else *w.Trace, if w.Span == nil then 0 else *w.Span, if w.Parent == nil then 0 else *w.Parent)

define WireIDIs(w: *wire.CollectPacket_SpanID, id: SpanID): bool =
    w != nil && w.Trace != nil && w.Span != nil && w.Parent != nil && WireID(w) == id

define WireAnnOK(w: []*wire.CollectPacket_Annotation): bool =
    forall i: math :: {w[i]} 0 <= i < len(w) ==> w[i] != nil && w[i].Key != nil

define WirePrefix(w: []*wire.CollectPacket_Annotation, as: []Annotation, n: math): bool =
    forall i: math :: {w[i]} {as[i]} 0 <= i < n ==> w[i] != nil && w[i].Key != nil && *w[i].Key == as[i].Key && w[i].Value == as[i].Value

define WireAnnsAre(w: []*wire.CollectPacket_Annotation, as: []Annotation): bool =
    len(w) == len(as)
    && WirePrefix(w, as, len(as))

func (SpanID).wire(id) (w)
  property C03 C04 C05
  modular
  ensures id: WireIDIs(w, id)
  modifies nothing

func spanIDFromWire(w) (id)
  property C03 C04 C05
  modular
  ensures id: w != nil ==> id == WireID(w)
  ensures root: w == nil || w.Parent == nil ==> id.Parent == 0
  modifies nothing

func (Annotations).wire(as) (w)
  property C03 C04 C05
  modular
  ensures same: WireAnnsAre(w, as)
  loop (i: math, w: []*wire.CollectPacket_Annotation): len(w) == i && WirePrefix(w, as, i)
  loop (i: math, w: []*wire.CollectPacket_Annotation): len(w) == len(as) && WirePrefix(w, as, i)
  modifies nothing

func annotationsFromWire(as) (w)
  property C03 C04 C05
  modular
  requires decoded: WireAnnOK(as)
  ensures same: WireAnnsAre(as, w)
  loop (i: math, w: []Annotation): len(w) == i && WirePrefix(as, w, i)
  loop (i: math, w: []Annotation): len(w) == len(as) && WirePrefix(as, w, i)
  loop (i: math, w: Annotations): len(w) == i && WirePrefix(as, w, i)
  loop (i: math, w: Annotations): len(w) == len(as) && WirePrefix(as, w, i)
  modifies nothing

func newCollectPacket(s, as) (p)
  property C03 C04 C05
  modular
  ensures id: p != nil && WireIDIs(p.Spanid, s)
  ensures anns: WireAnnsAre(p.Annotation, as)
  modifies nothing
