package traceapp "sourcegraph.com/sourcegraph/appdash/traceapp"

# ---- C27: uploading ----

# node: the spans of the uploaded trees; trees are finite: height falls.
function node(*appdash.Trace): bool
function height(*appdash.Trace): math
define Trees(): bool = forall t: *appdash.Trace :: {node(t)} node(t) ==> t != nil && 0 <= height(t)
    && (forall i: math :: {t.Sub[i]} 0 <= i < len(t.Sub) ==> node(t.Sub[i]) && height(t.Sub[i]) < height(t))

# walk: the history after a whole tree was collected, parents first; walks: after its
# root's first i subtrees. The equations define both on finite trees.
function walk(Log, appdash.Collector, *appdash.Trace): Log
function walks(Log, appdash.Collector, *appdash.Trace, math): Log
define Walks(): bool =
    (forall l: Log, c: appdash.Collector, t: *appdash.Trace :: {walk(l, c, t)} node(t) ==> walk(l, c, t) == walks(l + ev.Collect(c, t.ID, seq(t.Annotations)), c, t, len(t.Sub)))
    && (forall l: Log, c: appdash.Collector, t: *appdash.Trace :: {walks(l, c, t, 0)} walks(l, c, t, 0) == l)
    && (forall l: Log, c: appdash.Collector, t: *appdash.Trace, i: math :: {walks(l, c, t, i), t.Sub[i]} node(t) && 0 <= i < len(t.Sub) ==> walks(l, c, t, i + 1) == walk(walks(l, c, t, i), c, t.Sub[i]))

# allok(a, b): between the histories a and b every collection succeeded.
function allok(Log, Log): bool
axiom allok0: forall l: Log :: {allok(l, l)} allok(l, l)
axiom allokC: forall l: Log, m: Log, c: appdash.Collector, i: appdash.SpanID, a: seq[appdash.Annotation] :: {allok(l, m + ev.Collect(c, i, a))}
    allok(l, m + ev.Collect(c, i, a)) == (l == m + ev.Collect(c, i, a) || allok(l, m) && res(m + ev.Collect(c, i, a), error) == nil)
axiom allokT: forall l: Log, m: Log, c: appdash.Store, i: appdash.ID :: {allok(l, m + ev.Trace(c, i))} allok(l, m + ev.Trace(c, i)) == (l == m + ev.Trace(c, i) || allok(l, m))
axiom allokTrans: forall a: Log, b: Log, c: Log :: {allok(a, b), allok(b, c)} allok(a, b) && allok(b, c) ==> allok(a, c)

func collectTrace(c, t) (err)
  property C27
  modular
  requires trees: Trees() && Walks()
  requires tree: node(t) && c != nil
  decreases height(t)
  loop (i: math): 0 <= i && i <= len(t.Sub) && log == walks(old(log) + ev.Collect(c, t.ID, seq(t.Annotations)), c, t, i) && allok(old(log), log)
  ensures all: err == nil ==> log == walk(old(log), c, t) && allok(old(log), log)
  ensures failed: err != nil ==> allok(old(log), prev(log)) && res(log, error) == err
  modifies log

# The history after the first i traces were uploaded.
function uploads(Log, appdash.Store, seq[*appdash.Trace], math): Log
define Uploads(): bool =
    (forall l: Log, s: appdash.Store, q: seq[*appdash.Trace] :: {uploads(l, s, q, 0)} uploads(l, s, q, 0) == l)
    && (forall l: Log, s: appdash.Store, q: seq[*appdash.Trace], i: math :: {uploads(l, s, q, i), q[i]} 0 <= i < len(q) ==>
        (let m = uploads(l, s, q, i) + ev.Trace(s, q[i].ID.Trace);
         uploads(l, s, q, i + 1) == (if res1(m, error) == appdash.ErrTraceNotFound then walk(m, s, q[i]) else m)))

func (*App).uploadTraces(a, traces) (err)
  property C27
  requires store: a.Store != nil
  requires trees: Trees() && Walks() && Uploads()
  requires traces: forall i: math :: {traces[i]} 0 <= i < len(traces) ==> node(traces[i])
  loop (i: math): 0 <= i && i <= len(traces) && log == uploads(old(log), a.Store, seq(traces), i) && allok(old(log), log)
  ensures all: err == nil ==> log == uploads(old(log), a.Store, seq(traces), len(traces)) && allok(old(log), log)
  ensures failed: err != nil ==> allok(old(log), prev(log)) && res(log, error) == err
  modifies log

# ---- C25: the profile ----

extern "(*sourcegraph.com/sourcegraph/appdash/traceapp.Router).URLToTrace" pure force
extern "(*sourcegraph.com/sourcegraph/appdash/traceapp.Router).URLToTraceSpan" pure force
extern "(*net/url.URL).String" pure

# The longest time span, in rounded milliseconds, of the first i events.
define EventsOf(t: *appdash.Trace): seq[appdash.Event] = pure("sourcegraph.com/sourcegraph/appdash.UnmarshalEvents", seq[appdash.Event], seq(t.Annotations))
define Millis(e: appdash.Event): math = roundms(clampdur(nano(pure("End", time.Time, e)) - nano(pure("Start", time.Time, e))))
function longest(seq[appdash.Event], math): math
axiom longest0: forall q: seq[appdash.Event] :: {longest(q, 0)} longest(q, 0) == 0
axiom longestS: forall q: seq[appdash.Event], i: math :: {longest(q, i), q[i]} 0 <= i < len(q) ==>
    longest(q, i + 1) == (if typeis(q[i], appdash.TimespanEvent) && Millis(q[i]) > longest(q, i) then Millis(q[i]) else longest(q, i))
define TimeOf(t: *appdash.Trace): math = longest(EventsOf(t), len(EventsOf(t)))

# preorder(t): the spans of the tree t in depth-first order; preorders(t, i): t and the
# spans of its first i subtrees. own(t, i): t's own time and those of its first i
# children; cum(t, i): its own time and the cumulative times of its first i children.
function preorder(*appdash.Trace): seq[*appdash.Trace]
function preorders(*appdash.Trace, math): seq[*appdash.Trace]
function own(*appdash.Trace, math): math
function cum(*appdash.Trace, math): math
define Profiles(): bool =
    (forall t: *appdash.Trace :: {preorder(t)} node(t) ==> preorder(t) == preorders(t, len(t.Sub)))
    && (forall t: *appdash.Trace :: {preorders(t, 0)} preorders(t, 0) == snoc(emptyseq(*appdash.Trace), t))
    && (forall t: *appdash.Trace, i: math :: {preorders(t, i), t.Sub[i]} node(t) && 0 <= i < len(t.Sub) ==> preorders(t, i + 1) == cat(preorders(t, i), preorder(t.Sub[i])))
    && (forall t: *appdash.Trace :: {own(t, 0)} node(t) ==> own(t, 0) == TimeOf(t))
    && (forall t: *appdash.Trace, i: math :: {own(t, i), t.Sub[i]} node(t) && 0 <= i < len(t.Sub) ==> own(t, i + 1) == own(t, i) + TimeOf(t.Sub[i]))
    && (forall t: *appdash.Trace :: {cum(t, 0)} node(t) ==> cum(t, 0) == TimeOf(t))
    && (forall t: *appdash.Trace, i: math :: {cum(t, i), t.Sub[i]} node(t) && 0 <= i < len(t.Sub) ==> cum(t, i + 1) == cum(t, i) + cum(t.Sub[i], len(t.Sub[i].Sub)))
# The sums of the times are representable.
define Bounded(): bool = forall t: *appdash.Trace, i: math :: {own(t, i)} {cum(t, i)} -9223372036854775808 <= own(t, i) && own(t, i) <= 9223372036854775807
    && -9223372036854775808 <= cum(t, i) && cum(t, i) <= 9223372036854775807
define ProfileOf(p: *profile, t: *appdash.Trace): bool = p.Time == TimeOf(t) && p.TimeChildren == own(t, len(t.Sub)) && p.TimeCum == cum(t, len(t.Sub))

func (*App).calcProfile(a, buf, t) (prof, childProf, err)
  property C25
  modular
  requires trees: Trees() && Profiles() && Bounded()
  requires tree: node(t)
  decreases height(t)
  loop (i: math, p: const *profile) where p.TimeChildren == 0 && p.Time == 0: 0 <= i && i <= len(EventsOf(t)) && p.Time == longest(EventsOf(t), i)
  loop (i: math, b: var []*profile): 0 <= i && i <= len(t.Sub) && len(preorders(t, i)) > 0 && preorders(t, i)[0] == t
  loop (b: var []*profile, p: const *profile): fresh(p)
  loop (b: var []*profile, p: const *profile): p.Time == TimeOf(t)
  loop (i: math, b: var []*profile, p: const *profile): p.TimeChildren == own(t, i)
  loop (i: math, b: var []*profile, p: const *profile): p.TimeCum == cum(t, i)
  loop (i: math, b: var []*profile): len(b) == len(buf) + len(preorders(t, i)) && len(b) > len(buf)
  loop (b: var []*profile, p: const *profile): b[len(buf)] == p
  loop (b: var []*profile): forall j: math :: {b[j]} 0 <= j < len(buf) ==> b[j] == old(buf[j])
  loop (i: math, b: var []*profile, p: const *profile): forall j: math :: {b[j]} len(buf) < j < len(b) ==> fresh(b[j]) && b[j] != p && ProfileOf(b[j], preorders(t, i)[j - len(buf)])
  ensures size: err == nil ==> len(prof) == len(buf) + len(preorder(t))
  ensures kept: err == nil ==> (forall j: math :: {prof[j]} 0 <= j < len(buf) ==> prof[j] == old(buf[j]))
  ensures spans: err == nil ==> (forall j: math :: {prof[j]} len(buf) <= j < len(prof) ==> fresh(prof[j]) && ProfileOf(prof[j], preorder(t)[j - len(buf)]))
  ensures own: err == nil ==> len(prof) > len(buf) && childProf == prof[len(buf)] && ProfileOf(childProf, t)
  modifies elems *profile
