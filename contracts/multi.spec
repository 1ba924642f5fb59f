package appdash "sourcegraph.com/sourcegraph/appdash"

# ---- C15: multi-stores and multi-queryers ----

# The history after the first i stores were asked.
function collects(Log, seq[Store], SpanID, seq[Annotation], math): Log
axiom collects0: forall l: Log, s: seq[Store], id: SpanID, a: seq[Annotation] :: {collects(l, s, id, a, 0)} collects(l, s, id, a, 0) == l
axiom collectsN: forall l: Log, s: seq[Store], id: SpanID, a: seq[Annotation], i: math :: {collects(l, s, id, a, i), s[i]}
    0 <= i < len(s) ==> collects(l, s, id, a, i + 1) == collects(l, s, id, a, i) + ev.Collect(s[i], id, a)

function lookups(Log, seq[Store], ID, math): Log
axiom lookups0: forall l: Log, s: seq[Store], t: ID :: {lookups(l, s, t, 0)} lookups(l, s, t, 0) == l
axiom lookupsN: forall l: Log, s: seq[Store], t: ID, i: math :: {lookups(l, s, t, i), s[i]}
    0 <= i < len(s) ==> lookups(l, s, t, i + 1) == lookups(l, s, t, i) + ev.Trace(s[i], t)

function queries(Log, seq[Queryer], TracesOpts, math): Log
axiom queries0: forall l: Log, s: seq[Queryer], o: TracesOpts :: {queries(l, s, o, 0)} queries(l, s, o, 0) == l
axiom queriesN: forall l: Log, s: seq[Queryer], o: TracesOpts, i: math :: {queries(l, s, o, i), s[i]}
    0 <= i < len(s) ==> queries(l, s, o, i + 1) == queries(l, s, o, i) + ev.Traces(s[i], o)

# The distinct traces of a list, by trace ID, in first-seen order; h gives each
# trace's ID.
function seenIDs(fmap[*Trace, ID], seq[*Trace]): set[ID]
function firsts(fmap[*Trace, ID], seq[*Trace]): seq[*Trace]
axiom seen0: forall h: fmap[*Trace, ID] :: {seenIDs(h, emptyseq(*Trace))} seenIDs(h, emptyseq(*Trace)) == emptyset(ID)
axiom seenN: forall h: fmap[*Trace, ID], s: seq[*Trace], t: *Trace :: {seenIDs(h, snoc(s, t))} {firsts(h, snoc(s, t))} seenIDs(h, snoc(s, t)) == add(seenIDs(h, s), h[t])
axiom firsts0: forall h: fmap[*Trace, ID] :: {firsts(h, emptyseq(*Trace))} firsts(h, emptyseq(*Trace)) == emptyseq(*Trace)
axiom firstsN: forall h: fmap[*Trace, ID], s: seq[*Trace], t: *Trace :: {firsts(h, snoc(s, t))}
    firsts(h, snoc(s, t)) == (if h[t] in seenIDs(h, s) then firsts(h, s) else snoc(firsts(h, s), t))

func (*multiStore).Collect(ms, id, anns) (err)
  property C15
  requires stores: forall i: math :: {ms.stores[i]} 0 <= i < len(ms.stores) ==> ms.stores[i] != nil
  ghost n: math = 0
  on Collect(s, i, a): n = n + 1
  loop (i: math): n == i && 0 <= n && n <= len(ms.stores) && log == collects(old(log), old(seq(ms.stores)), id, old(seq(anns)), n)
  loop (i: math): forall k: math :: {collects(old(log), old(seq(ms.stores)), id, old(seq(anns)), k)} 0 < k <= n ==> res(collects(old(log), old(seq(ms.stores)), id, old(seq(anns)), k), error) == nil
  ensures order: log == collects(old(log), old(seq(ms.stores)), id, old(seq(anns)), n) && 0 <= n <= len(ms.stores)
  ensures before: forall k: math :: {collects(old(log), old(seq(ms.stores)), id, old(seq(anns)), k)} 0 < k < n ==> res(collects(old(log), old(seq(ms.stores)), id, old(seq(anns)), k), error) == nil
  ensures ok: err == nil ==> n == len(ms.stores) && (n > 0 ==> res(log, error) == nil)
  ensures failed: err != nil ==> n > 0 && err == res(log, error)
  modifies log

func (*multiStore).Trace(ms, t) (tr, err)
  property C15
  requires stores: forall i: math :: {ms.stores[i]} 0 <= i < len(ms.stores) ==> ms.stores[i] != nil
  ghost n: math = 0
  on Trace(s, i): n = n + 1
  loop (i: math): n == i && 0 <= n && n <= len(ms.stores) && log == lookups(old(log), old(seq(ms.stores)), t, n)
  loop (i: math): forall k: math :: {lookups(old(log), old(seq(ms.stores)), t, k)} 0 < k <= n ==> res1(lookups(old(log), old(seq(ms.stores)), t, k), error) == ErrTraceNotFound
  ensures order: log == lookups(old(log), old(seq(ms.stores)), t, n) && 0 <= n <= len(ms.stores)
  ensures before: forall k: math :: {lookups(old(log), old(seq(ms.stores)), t, k)} 0 < k < n ==> res1(lookups(old(log), old(seq(ms.stores)), t, k), error) == ErrTraceNotFound
  ensures notFound: n == 0 || res1(log, error) == ErrTraceNotFound ==> n == len(ms.stores) && err == ErrTraceNotFound && tr == nil
  ensures answer: n > 0 && res1(log, error) != ErrTraceNotFound ==> err == res1(log, error) && (err == nil ==> tr == res(log, *Trace)) && (err != nil ==> tr == nil)
  modifies log

func (*multiQueryer).Traces(mq, opts) (all, err)
  property C15
  requires queryers: forall i: math :: {mq.queryers[i]} 0 <= i < len(mq.queryers) ==> mq.queryers[i] != nil
  assume-after Traces(q, o) [a queryer returns no nil traces]: forall j: math :: {res(log, []*Trace)[j]} 0 <= j < len(res(log, []*Trace)) ==> res(log, []*Trace)[j] != nil
  assume-after Traces(q, o) [a queryer's answer shares no memory with this call's own slices]: !fresh(res(log, []*Trace))
  ghost n: math = 0
  ghost seen: seq[*Trace] = emptyseq(*Trace)
  ghost before: seq[*Trace] = emptyseq(*Trace)
  ghost cur: seq[*Trace] = emptyseq(*Trace)
  on Traces(q, o): n = n + 1
  on Traces(q, o): before = seen
  on Traces(q, o): cur = seq(res(log, []*Trace))
  on Traces(q, o): seen = cat(seen, seq(res(log, []*Trace)))
  loop (i: math): n == i && 0 <= n && n <= len(mq.queryers) && log == queries(old(log), old(seq(mq.queryers)), opts, n)
  loop (i: math): forall k: math :: {queries(old(log), old(seq(mq.queryers)), opts, k)} 0 < k <= n ==> res1(queries(old(log), old(seq(mq.queryers)), opts, k), error) == nil
  loop (a: []*Trace): seq(a) == firsts(heapof("Trace.ID.Trace"), seen)
  loop (u: map[ID]struct{}): keys(u) == seenIDs(heapof("Trace.ID.Trace"), seen)
  loop (u: map[ID]bool): keys(u) == seenIDs(heapof("Trace.ID.Trace"), seen)
  loop (a: []*Trace, j: math): seq(a) == firsts(heapof("Trace.ID.Trace"), cat(before, take(cur, j)))
  loop (u: map[ID]struct{}, j: math): keys(u) == seenIDs(heapof("Trace.ID.Trace"), cat(before, take(cur, j)))
  loop (u: map[ID]bool, j: math): keys(u) == seenIDs(heapof("Trace.ID.Trace"), cat(before, take(cur, j)))
  ensures order: log == queries(old(log), old(seq(mq.queryers)), opts, n) && 0 <= n <= len(mq.queryers)
  ensures before: forall k: math :: {queries(old(log), old(seq(mq.queryers)), opts, k)} 0 < k < n ==> res1(queries(old(log), old(seq(mq.queryers)), opts, k), error) == nil
  ensures failed: n > 0 && res1(log, error) != nil ==> err == res1(log, error) && all == nil
  ensures union: n == 0 || res1(log, error) == nil ==> err == nil && n == len(mq.queryers) && seq(all) == firsts(heapof("Trace.ID.Trace"), seen)
  modifies log

func MultiStore(s) (r)
  property C15
  ensures stores: typeis(r, *multiStore) && seq(unbox(r, *multiStore).stores) == seq(s)
  modifies nothing

func MultiQueryer(q) (r)
  property C15
  ensures queryers: typeis(r, *multiQueryer) && seq(unbox(r, *multiQueryer).queryers) == seq(q)
  modifies nothing
