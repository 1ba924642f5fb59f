package appdash "sourcegraph.com/sourcegraph/appdash"

# ---- C22 ----

# What is outside the verifier's reach: reflection, and the functions built on it. They
# are observable calls (or functions of their arguments) here; reflect.go is C21's subject.
extern ".Schema" pure
extern "reflect.ValueOf" pure
extern "reflect.TypeOf" pure
extern "reflect.Indirect" pure
extern "(reflect.Value).Elem" pure
extern "reflect.New" event
extern "(reflect.Value).Interface" event
extern "(reflect.Value).Set" event
extern "sourcegraph.com/sourcegraph/appdash.unflattenValue" event force
extern "sourcegraph.com/sourcegraph/appdash.mapToKVs" event force
extern "sourcegraph.com/sourcegraph/appdash.verifPairs" pure force
extern "sourcegraph.com/sourcegraph/appdash.verifPairKey" pure force
extern "sourcegraph.com/sourcegraph/appdash.verifPairVal" pure force
model "sourcegraph.com/sourcegraph/appdash.flattenValue" verifFlattenValue

define SchemaOf(e: Event): string = pure("Schema", string, e)

# The schema markers among the first n annotations, in order.
function marks(seq[Annotation], math): seq[string]
axiom marks0: forall q: seq[Annotation] :: {marks(q, 0)} marks(q, 0) == emptyseq(string)
axiom marksS: forall q: seq[Annotation], i: math :: {marks(q, i), q[i]} 0 <= i < len(q) ==>
    marks(q, i + 1) == (if hasprefix(q[i].Key, "_schema:") then snoc(marks(q, i), substr(q[i].Key, 8, len(q[i].Key))) else marks(q, i))

func (Annotations).schemas(as) (r)
  property C22 C25
  modular
  loop (i: math, s: []string): 0 <= i && i <= len(as) && seq(s) == marks(seq(as), i)
  ensures marks: seq(r) == marks(seq(as), len(as))
  modifies nothing

# The name of a span is the value of its first Name annotation.
func (*Span).Name(s) (r)
  property C22 C25
  modular
  requires span: s != nil
  loop (i: math): 0 <= i && (forall j: math :: {s.Annotations[j]} 0 <= j < i && j < len(s.Annotations) ==> s.Annotations[j].Key != "Name")
  ensures first: (exists i: math :: {s.Annotations[i]} 0 <= i < len(s.Annotations) && s.Annotations[i].Key == "Name" && bytes(r) == seq(s.Annotations[i].Value) && (forall j: math :: {s.Annotations[j]} 0 <= j < i ==> s.Annotations[j].Key != "Name"))
      || (r == "" && (forall j: math :: {s.Annotations[j]} 0 <= j < len(s.Annotations) ==> s.Annotations[j].Key != "Name"))
  modifies nothing

func (Annotations).get(as, key) (r)
  property C22
  loop (i: math): 0 <= i && (forall j: math :: {as[j]} 0 <= j < i && j < len(as) ==> as[j].Key != key)
  ensures first: (exists i: math :: {as[i]} 0 <= i < len(as) && as[i].Key == key && r == as[i].Value && (forall j: math :: {as[j]} 0 <= j < i ==> as[j].Key != key))
      || (r == nil && (forall j: math :: {as[j]} 0 <= j < len(as) ==> as[j].Key != key))
  modifies nothing

func (Annotations).StringMap(as) (r)
  property C22
  modular
  loop (i: math, m: map[string]string): 0 <= i && i <= len(as)
      && (forall j: math :: {as[j]} 0 <= j < i ==> as[j].Key in m)
      && (forall k: string :: {k in m} k in m ==> (exists j: math :: {as[j]} 0 <= j < i && as[j].Key == k && bytes(m[k]) == seq(as[j].Value)))
  ensures all: forall j: math :: {as[j]} 0 <= j < len(as) ==> as[j].Key in r
  ensures only: forall k: string :: {k in r} k in r ==> (exists j: math :: {as[j]} 0 <= j < len(as) && as[j].Key == k && bytes(r[k]) == seq(as[j].Value))
  ensures new: r != nil
  modifies nothing

# The pairs an event's fields flatten to.
define PairCount(v: reflect.Value): math = pure("sourcegraph.com/sourcegraph/appdash.verifPairs", int, "", v)
define PairKey(v: reflect.Value, i: math): string = pure("sourcegraph.com/sourcegraph/appdash.verifPairKey", string, "", v, i)
define PairVal(v: reflect.Value, i: math): string = pure("sourcegraph.com/sourcegraph/appdash.verifPairVal", string, "", v, i)
define ValueOf(e: Event): reflect.Value = pure("reflect.ValueOf", reflect.Value, e)
define Flat(as: Annotations, v: reflect.Value, n: math): bool =
    forall j: math :: {as[j]} 0 <= j < n ==> as[j].Key == PairKey(v, j) && seq(as[j].Value) == bytes(PairVal(v, j))

func MarshalEvent(e) (r, err)
  property C22
  requires event: e != nil
  loop (i: math, as: Annotations): 0 <= i && len(as) == i && Flat(as, ValueOf(e), i)
  loop (i: math): i <= PairCount(ValueOf(e)) || i == 0
  ensures own: typeis(e, EventMarshaler) ==> (let l = old(log) + ev.MarshalEvent(e); log == l
      && (res1(l, error) != nil ==> err == res1(l, error) && r == nil)
      && (res1(l, error) == nil ==> err == nil && len(r) == len(res(l, Annotations)) + 1
        && take(seq(r), len(r) - 1) == old(seq(res(l, Annotations))) && r[len(r) - 1].Key == "_schema:" + SchemaOf(e)))
  ensures fields: !typeis(e, EventMarshaler) ==> log == old(log) && err == nil && len(r) == (if PairCount(ValueOf(e)) <= 0 then 0 else PairCount(ValueOf(e))) + 1
      && Flat(r, ValueOf(e), len(r) - 1) && r[len(r) - 1].Key == "_schema:" + SchemaOf(e)

func UnmarshalEvent(as, e) (err)
  property C22
  requires event: e != nil
  loop (i: math): 0 <= i && (forall j: math :: {marks(seq(as), len(as))[j]} 0 <= j < i && j < len(marks(seq(as), len(as))) ==> marks(seq(as), len(as))[j] != SchemaOf(e))
  ensures other: !(SchemaOf(e) in marks(seq(as), len(as))) ==> log == old(log) && typeis(err, *EventSchemaUnmarshalError)
      && unbox(err, *EventSchemaUnmarshalError).Target == SchemaOf(e) && seq(unbox(err, *EventSchemaUnmarshalError).Found) == marks(seq(as), len(as))
  ensures own: SchemaOf(e) in marks(seq(as), len(as)) && typeis(e, EventUnmarshaler) ==> (let l = old(log) + ev.UnmarshalEvent(e, seq(as));
      (res1(l, error) != nil ==> err == res1(l, error) && log == l)
      && (res1(l, error) == nil ==> err == nil && log == l + ev.Set(pure("reflect.Indirect", reflect.Value, ValueOf(e)), pure("reflect.ValueOf", reflect.Value, res(l, Event)))))
  ensures fields: SchemaOf(e) in marks(seq(as), len(as)) && !typeis(e, EventUnmarshaler) ==> err == nil
      && (exists m: map[string]string :: {ev.mapToKVs(m)} prev(log) == old(log) + ev.mapToKVs(m) && Strings(m, as))
      && (exists v: reflect.Value, t: reflect.Type :: {ev.unflattenValue("", v, t, res(prev(log), *[][2]string))} log == prev(log) + ev.unflattenValue("", v, t, res(prev(log), *[][2]string)))

define Strings(m: map[string]string, as: Annotations): bool =
    (forall j: math :: {as[j]} 0 <= j < len(as) ==> as[j].Key in m)
    && (forall k: string :: {k in m} k in m ==> (exists j: math :: {as[j]} 0 <= j < len(as) && as[j].Key == k && bytes(m[k]) == seq(as[j].Value)))

func RegisterEvent(e)
  property C22
  requires event: e != nil
  requires table: registeredEvents != nil
  panics when SchemaOf(e) in registeredEvents || SchemaOf(e) == ""
  ensures accepted: SchemaOf(e) != "" && !(SchemaOf(e) in old(keys(registeredEvents)))
  ensures table: SchemaOf(e) in registeredEvents && registeredEvents[SchemaOf(e)] == e && keys(registeredEvents) == add(old(keys(registeredEvents)), SchemaOf(e))
  ensures others: forall k: string :: {k in registeredEvents} k != SchemaOf(e) && k in registeredEvents ==> registeredEvents[k] == old(registeredEvents[k])

# Decoding all events: the history after, and the events decoded from, the first i
# markers of the annotations q with the table of registered events reg.
extern "sourcegraph.com/sourcegraph/appdash.UnmarshalEvent" event force
define Known(s: string): bool = s in registeredEvents && registeredEvents[s] != nil
define NewLog(l: Log, s: string): Log = l + ev.New(pure("reflect.TypeOf", reflect.Type, registeredEvents[s]))
define TargetLog(l: Log, s: string): Log = NewLog(l, s) + ev.Interface(res(NewLog(l, s), reflect.Value))
define DecodedLog(l: Log, q: seq[Annotation], s: string): Log = TargetLog(l, s) + ev.UnmarshalEvent(q, res(TargetLog(l, s), any))
define ReadLog(l: Log, q: seq[Annotation], s: string): Log = DecodedLog(l, q, s) + ev.Interface(pure("(reflect.Value).Elem", reflect.Value, res(NewLog(l, s), reflect.Value)))
function decoding(Log, seq[Annotation], math): Log
function decoded(Log, seq[Annotation], math): seq[Event]
function decodes(Log, seq[Annotation], math): bool
define Decoding(l: Log, q: seq[Annotation]): bool = (let ms = marks(q, len(q));
    decoding(l, q, 0) == l && decoded(l, q, 0) == emptyseq(Event) && decodes(l, q, 0)
    && (forall i: math :: {ms[i], decoding(l, q, i)} 0 <= i < len(ms) ==> (let d = decoding(l, q, i); let s = ms[i];
         decoding(l, q, i + 1) == (if Known(s) then ReadLog(d, q, s) else d)
         && decodes(l, q, i + 1) == (decodes(l, q, i) && (Known(s) ==> res(DecodedLog(d, q, s), error) == nil))
         && decoded(l, q, i + 1) == (if Known(s) then snoc(decoded(l, q, i), res(ReadLog(d, q, s), any)) else decoded(l, q, i)))))

func UnmarshalEvents(anns, events) (err)
  property C22
  requires target: events != nil
  # RegisterEvent takes values, not pointers: what reflect.New and Elem give for their types are events.
  requires values: forall l: Log, v: reflect.Value :: {l + ev.Interface(v)} typeis(res(l + ev.Interface(v), any), Event)
  requires fold: Decoding(log, seq(anns))
  loop (i: math): 0 <= i && i <= len(marks(seq(anns), len(anns))) && log == decoding(old(log), old(seq(anns)), i) && decodes(old(log), old(seq(anns)), i)
      && seq(*events) == cat(old(seq(*events)), decoded(old(log), old(seq(anns)), i))
  ensures all: err == nil ==> (let n = len(marks(old(seq(anns)), len(anns))); log == decoding(old(log), old(seq(anns)), n) && decodes(old(log), old(seq(anns)), n)
      && seq(*events) == cat(old(seq(*events)), decoded(old(log), old(seq(anns)), n)))
  ensures failed: err != nil ==> res(log, error) == err
      && (exists i: math :: {decoding(old(log), old(seq(anns)), i)} 0 <= i < len(marks(old(seq(anns)), len(anns))) && Known(marks(old(seq(anns)), len(anns))[i])
        && log == DecodedLog(decoding(old(log), old(seq(anns)), i), old(seq(anns)), marks(old(seq(anns)), len(anns))[i]))
