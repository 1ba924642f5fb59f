package appdash "sourcegraph.com/sourcegraph/appdash"

# ---- C24: searching a tree ----

# root is the tree that is searched, inTree(t, n): n is a node of the tree t,
# height: a bound on the depth (trees are finite). The equation determines inTree
# on finite trees.
function root(): *Trace
function inTree(*Trace, *Trace): bool
function height(*Trace): math
define IsTree(r: *Trace): bool = inTree(r, r) && r != nil
    && (forall t: *Trace, n: *Trace :: {inTree(t, n)} inTree(r, t) ==>
        (inTree(t, n) <==> n == t || (exists i: math :: {t.Sub[i]} 0 <= i < len(t.Sub) && inTree(t.Sub[i], n))))
    && (forall t: *Trace, i: math :: {t.Sub[i]} inTree(r, t) && 0 <= i < len(t.Sub) ==> t.Sub[i] != nil && inTree(r, t.Sub[i]) && 0 <= height(t.Sub[i]) && height(t.Sub[i]) < height(t))

func (*Trace).FindSpan(t, spanID) (r)
  property C24
  requires tree: IsTree(root())
  requires node: inTree(root(), t)
  decreases height(t)
  loop (i: math): 0 <= i && (forall j: math, n: *Trace :: {inTree(t.Sub[j], n)} 0 <= j < i && j < len(t.Sub) && inTree(t.Sub[j], n) ==> n.ID.Span != spanID)
  ensures found: r != nil ==> inTree(t, r) && r.ID.Span == spanID
  ensures none: r == nil ==> (forall n: *Trace :: {inTree(t, n)} inTree(t, n) ==> n.ID.Span != spanID)
  modifies nothing

# ---- C24: time extents ----

extern ".Start" pure
extern ".End" pure
define StartOf(e: Event): time.Time = pure("Start", time.Time, e)
define EndOf(e: Event): time.Time = pure("End", time.Time, e)
define Timed(e: Event): bool = typeis(e, TimespanEvent) && !iszero(StartOf(e))
define ExtentOf(es: seq[Event], n: math, start: time.Time, end: time.Time, ok: bool): bool =
    (ok <==> (exists i: math :: {es[i]} 0 <= i < n && Timed(es[i])))
    && (ok ==> (exists i: math :: {es[i]} 0 <= i < n && Timed(es[i]) && start == StartOf(es[i]))
      && (exists i: math :: {es[i]} 0 <= i < n && Timed(es[i]) && end == EndOf(es[i]))
      && (forall i: math :: {es[i]} 0 <= i < n && Timed(es[i]) ==> nano(start) <= nano(StartOf(es[i])) && nano(EndOf(es[i])) <= nano(end)))

func findTraceTimes(events) (start, end, ok)
  property C24
  modular
  loop (i: math, s: time.Time, e: time.Time): 0 <= i && i <= len(events) && ExtentOf(seq(events), i, s, e, !iszero(s))
  ensures extent: ExtentOf(seq(events), len(events), start, end, ok)
  modifies nothing

# The time span of a span: the extent of its decoded events.
define SpanEvents(t: *Trace): seq[Event] = pure("sourcegraph.com/sourcegraph/appdash.UnmarshalEvents", seq[Event], seq(t.Annotations))
define SpanEventsErr(t: *Trace): error = pure("sourcegraph.com/sourcegraph/appdash.UnmarshalEvents.err", error, seq(t.Annotations))

func (*Trace).TimespanEvent(t) (r, err)
  property C24
  requires span: t != nil
  ensures undecodable: SpanEventsErr(t) != nil ==> err == SpanEventsErr(t)
  ensures none: SpanEventsErr(t) == nil && (forall i: math :: {SpanEvents(t)[i]} 0 <= i < len(SpanEvents(t)) ==> !Timed(SpanEvents(t)[i])) ==> err != nil
  ensures extent: SpanEventsErr(t) == nil && (exists i: math :: {SpanEvents(t)[i]} 0 <= i < len(SpanEvents(t)) && Timed(SpanEvents(t)[i])) ==> err == nil
  ensures value: err == nil ==> typeis(r, timespanEvent) && ExtentOf(SpanEvents(t), len(SpanEvents(t)), unbox(r, timespanEvent).S, unbox(r, timespanEvent).E, true)
