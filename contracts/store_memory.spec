package appdash "sourcegraph.com/sourcegraph/appdash"

guard MemoryStore.Mutex: trace span

# ---- C06: the trace trees ----

# rank: a measure that grows from parents to children. Its existence says that the
# collected spans' parent links have no cycle; every property is for all such measures.
function rank(ID, ID): math

define Has(ms: *MemoryStore, t: ID, s: ID): bool = t in ms.span && s in ms.span[t]

define Maps(ms: *MemoryStore): bool = ms.trace != nil && ms.span != nil
    && (forall t: ID :: {t in ms.trace} {t in ms.span} t in ms.trace <==> t in ms.span)
    && (forall t: ID :: {ms.span[t]} t in ms.span ==> ms.span[t] != nil && ms.span[t] != ms.trace)
    && (forall t: ID, u: ID :: {ms.span[t], ms.span[u]} t in ms.span && u in ms.span && t != u ==> ms.span[t] != ms.span[u])

# Every span is indexed under its own IDs.
define Keyed(ms: *MemoryStore): bool =
    forall t: ID, s: ID :: {ms.span[t][s]} {s in ms.span[t]} Has(ms, t, s) ==>
        ms.span[t][s] != nil && allocated(ms.span[t][s]) && ms.span[t][s].ID.Trace == t && ms.span[t][s].ID.Span == s && s != 0

define Rooted(ms: *MemoryStore): bool =
    forall t: ID :: {ms.trace[t]} {t in ms.trace} t in ms.trace ==>
        Has(ms, t, ms.trace[t].ID.Span) && ms.span[t][ms.trace[t].ID.Span] == ms.trace[t] && !(ms.trace[t].ID.Parent in ms.span[t])

# The node a span hangs from: its parent, or the root while that is not there.
define Holder(ms: *MemoryStore, c: *Trace): *Trace =
    if c.ID.Parent in ms.span[c.ID.Trace] then ms.span[c.ID.Trace][c.ID.Parent] else ms.trace[c.ID.Trace]

# n is the collected span of its IDs.
define Node(ms: *MemoryStore, n: *Trace): bool = n != nil && Has(ms, n.ID.Trace, n.ID.Span) && ms.span[n.ID.Trace][n.ID.Span] == n

# A span's children are collected spans that hang from it, ...
define SubsOK(ms: *MemoryStore): bool =
    forall n: *Trace, c: *Trace :: {c in seq(n.Sub)} Node(ms, n) && c in seq(n.Sub) ==>
        Node(ms, c) && c.ID.Trace == n.ID.Trace && c != ms.trace[c.ID.Trace] && Holder(ms, c) == n

# ... all of them, ...
define SubsAll(ms: *MemoryStore): bool =
    forall n: *Trace :: {n.ID.Parent} Node(ms, n) && n != ms.trace[n.ID.Trace] ==> n in seq(Holder(ms, n).Sub)

# ... each once, in an array of their own.
define SubsOnce(ms: *MemoryStore): bool =
    forall n: *Trace :: {n.Sub} Node(ms, n) ==> nodup(seq(n.Sub))

define SubsOwn(ms: *MemoryStore): bool =
    (forall n: *Trace :: {n.Sub} Node(ms, n) ==> wf(n.Sub))
    && (forall n: *Trace, m: *Trace :: {n.Sub, m.Sub} Node(ms, n) && Node(ms, m) && n != m ==> cap(n.Sub) == 0 || cap(m.Sub) == 0 || arr(n.Sub) != arr(m.Sub))

# A real root, once there, stays the root.
define RootKnown(ms: *MemoryStore): bool =
    forall t: ID, s: ID :: {ms.span[t][s]} Has(ms, t, s) && ms.span[t][s].ID.Parent == 0 ==> ms.trace[t].ID.Parent == 0

define Ranked(ms: *MemoryStore): bool =
    forall n: *Trace :: {n.ID.Parent} Node(ms, n) && n.ID.Parent != 0 ==> rank(n.ID.Trace, n.ID.Parent) < rank(n.ID.Trace, n.ID.Span)

define StoreInv(ms: *MemoryStore): bool =
    Maps(ms) && Keyed(ms) && Rooted(ms) && SubsOK(ms) && SubsAll(ms) && SubsOnce(ms) && SubsOwn(ms) && RootKnown(ms)

func (*MemoryStore).topAncestor(ms, t) (r)
  property C06 C07
  auxiliary
  holds ms.Mutex
  requires index: Maps(ms) && Keyed(ms) && Ranked(ms)
  requires node: Node(ms, t)
  loop (c: *Trace): Node(ms, c) && c.ID.Trace == t.ID.Trace && rank(t.ID.Trace, c.ID.Span) <= rank(t.ID.Trace, t.ID.Span)
  loop (c: *Trace, m: const map[*Trace]bool): m != nil && (forall p: *Trace :: {p in m} p in m ==> p != nil && rank(t.ID.Trace, c.ID.Span) <= rank(t.ID.Trace, p.ID.Span))
  ensures top: Node(ms, r) && r.ID.Trace == t.ID.Trace && rank(t.ID.Trace, r.ID.Span) <= rank(t.ID.Trace, t.ID.Span) && !(r.ID.Parent in ms.span[t.ID.Trace])
  modifies nothing

# The children's arrays do not overlap, and no child occurs twice.
define Own(ms: *MemoryStore): bool = SubsOwn(ms) && SubsOnce(ms)

func (*MemoryStore).reattachChildren(ms, dst, src)
  property C06 C07
  auxiliary
  holds ms.Mutex
  requires maps: Maps(ms) && Keyed(ms)
  requires nodes: Node(ms, dst) && Node(ms, src) && dst != src
  requires children: forall c: *Trace :: {c in seq(src.Sub)} c in seq(src.Sub) ==> c != nil && !(c in seq(dst.Sub))
  requires own: Own(ms)
  loop (i: math, r: const []*Trace): 0 <= i && i <= len(r)
  loop (r: const []*Trace): seq(r) == entry(seq(r))
  loop (): (arr(dst.Sub) == entry(arr(dst.Sub)) && cap(dst.Sub) == entry(cap(dst.Sub))) || fresh(dst.Sub)
  loop (): heapof("Trace.Sub") == put(entry(heapof("Trace.Sub")), dst, dst.Sub)
  loop (): forall a: math :: {content(*Trace, a)} old(allocated(a)) && (a != old(arr(dst.Sub)) || old(cap(dst.Sub)) == 0) ==> content(*Trace, a) == old(content(*Trace, a))
  loop (l: []*Trace): cap(l) == 0 || fresh(l)
  loop (l: []*Trace): cap(l) == 0 || arr(l) != arr(dst.Sub)
  loop (i: math, r: const []*Trace, l: []*Trace): forall c: *Trace :: {c in seq(l)} c in seq(l) <==> c in take(entry(seq(r)), i) && c.ID.Parent != dst.ID.Span
  loop (i: math, r: const []*Trace): forall c: *Trace :: {c in seq(dst.Sub)} c in seq(dst.Sub) <==> c in entry(seq(dst.Sub)) || (c in take(entry(seq(r)), i) && c.ID.Parent == dst.ID.Span)
  loop (l: []*Trace): nodup(seq(l))
  loop (): nodup(seq(dst.Sub))
  ensures kept: forall c: *Trace :: {c in seq(src.Sub)} {c in old(seq(src.Sub))} c in seq(src.Sub) <==> c in old(seq(src.Sub)) && c.ID.Parent != dst.ID.Span
  ensures moved: forall c: *Trace :: {c in seq(dst.Sub)} {c in old(seq(dst.Sub))} c in seq(dst.Sub) <==> c in old(seq(dst.Sub)) || (c in old(seq(src.Sub)) && c.ID.Parent == dst.ID.Span)
  ensures own: Own(ms)
  ensures others: forall n: *Trace :: {n.Sub} Node(ms, n) && n != dst && n != src ==> seq(n.Sub) == old(seq(n.Sub))
  modifies Trace.Sub, elems *Trace

# The node below which insert puts t.
define Place(ms: *MemoryStore, root: *Trace, t: *Trace): *Trace =
    if t.ID.Parent in ms.span[t.ID.Trace] then ms.span[t.ID.Trace][t.ID.Parent] else root

func (*MemoryStore).insert(ms, root, t)
  property C06 C07
  auxiliary
  holds ms.Mutex
  requires maps: Maps(ms) && Keyed(ms)
  requires nodes: Node(ms, root) && Node(ms, t)
  requires absent: !(t in seq(Place(ms, root, t).Sub))
  requires own: Own(ms)
  ensures added: forall c: *Trace :: {c in seq(Place(ms, root, t).Sub)} {c in old(seq(Place(ms, root, t).Sub))}
      c in seq(Place(ms, root, t).Sub) <==> c in old(seq(Place(ms, root, t).Sub)) || c == t
  ensures own: Own(ms)
  ensures others: forall n: *Trace :: {n.Sub} Node(ms, n) && n != Place(ms, root, t) ==> seq(n.Sub) == old(seq(n.Sub))
  modifies Trace.Sub, elems *Trace

# The loop ranges over the children of o.
define Ranged(r: []*Trace, o: *Trace): bool = arr(r) == arr(o.Sub) && off(r) == off(o.Sub) && len(r) == len(o.Sub)

# Where the loop starts: d has become the root, o was it before. Only o's children
# are not yet where they belong, and x, the new span, may still be missing.
define Move1(ms: *MemoryStore, d: *Trace, o: *Trace, x: *Trace): bool =
    Own(ms) && Node(ms, d) && Node(ms, o) && Node(ms, x) && d != o && x != o
define Move2(ms: *MemoryStore, d: *Trace, o: *Trace, x: *Trace): bool =
    forall c: *Trace :: {c in seq(o.Sub)} c in seq(o.Sub) ==>
        Node(ms, c) && c.ID.Trace == o.ID.Trace && c != o && c != x && !(c in seq(d.Sub)) && (c != d ==> Holder(ms, c) == (if c.ID.Parent == o.ID.Span then o else if c.ID.Parent == x.ID.Span then x else d))
define Move3(ms: *MemoryStore, d: *Trace, o: *Trace, x: *Trace): bool =
    forall n: *Trace, c: *Trace :: {c in seq(n.Sub)} Node(ms, n) && n != o && c in seq(n.Sub) ==>
        Node(ms, c) && c.ID.Trace == n.ID.Trace && c != d && c != x && Holder(ms, c) == n
define Move4(ms: *MemoryStore, d: *Trace, o: *Trace, x: *Trace): bool =
    forall n: *Trace :: {n.ID.Parent} Node(ms, n) && n != x && n != ms.trace[n.ID.Trace] ==>
        n in seq(Holder(ms, n).Sub) || (n in seq(o.Sub) && (Holder(ms, n) == d || Holder(ms, n) == x))

# x, the new span, is not yet in the tree.
define Without(ms: *MemoryStore, x: *Trace, r: *Trace): bool =
    (forall n: *Trace, c: *Trace :: {c in seq(n.Sub)} Node(ms, n) && c in seq(n.Sub) ==>
        Node(ms, c) && c.ID.Trace == n.ID.Trace && c != ms.trace[c.ID.Trace] && c != x && (Holder(ms, c) == n || (n == r && Holder(ms, c) == x)))
    && (forall n: *Trace :: {n.ID.Parent} Node(ms, n) && n != ms.trace[n.ID.Trace] && n != x ==> n in seq(Holder(ms, n).Sub) || (Holder(ms, n) == x && n in seq(r.Sub)))
# x is in the tree; some of its children may still hang from the root r.
define Within(ms: *MemoryStore, x: *Trace, r: *Trace): bool =
    (forall n: *Trace, c: *Trace :: {c in seq(n.Sub)} Node(ms, n) && c in seq(n.Sub) ==>
        Node(ms, c) && c.ID.Trace == n.ID.Trace && c != ms.trace[c.ID.Trace] && (Holder(ms, c) == n || (n == r && Holder(ms, c) == x)))
    && (forall n: *Trace :: {n.ID.Parent} Node(ms, n) && n != ms.trace[n.ID.Trace] ==> n in seq(Holder(ms, n).Sub) || (Holder(ms, n) == x && n in seq(r.Sub)))

func (*MemoryStore).Collect(ms, id, anns) (err)
  property C06
  step insert(m, r, x): x == ms.span[id.Trace][id.Span] && r == ms.trace[id.Trace] ==>
      (forall n: *Trace :: {n.ID.Parent} Node(ms, n) && n != r && n != x && Holder(ms, n) == old(ms.trace[id.Trace]) ==> n in seq(Holder(ms, n).Sub))
  step insert(m, r, x): x == ms.span[id.Trace][id.Span] && r == ms.trace[id.Trace] ==>
      (forall n: *Trace :: {n.ID.Parent} Node(ms, n) && n != r && n != x && n.ID.Trace == id.Trace && Holder(ms, n) == r ==> n in seq(Holder(ms, n).Sub))
  step insert(m, r, x): x == ms.span[id.Trace][id.Span] && r == ms.trace[id.Trace] ==> Without(ms, x, r)
  step reattachChildren(m, x, r): x == ms.span[id.Trace][id.Span] && r == ms.trace[id.Trace] ==> Within(ms, x, r)
  requires state: StoreInv(ms)
  requires quiet: !ms.log
  requires id: id.Span != 0
  requires acyclic: Ranked(ms) && (!Has(ms, id.Trace, id.Span) && id.Parent != 0 ==> rank(id.Trace, id.Parent) < rank(id.Trace, id.Span))
  loop (i: math, r: const []*Trace, o: const *Trace) where Ranged(r, o): 0 <= i && i <= len(r) && seq(r) == entry(seq(r))
  loop (d: const *Trace, r: const []*Trace, o: const *Trace) where Ranged(r, o) && d == ms.trace[id.Trace]: entry(Move1(ms, d, o, ms.span[id.Trace][id.Span]))
  loop (d: const *Trace, r: const []*Trace, o: const *Trace) where Ranged(r, o) && d == ms.trace[id.Trace]: entry(Move2(ms, d, o, ms.span[id.Trace][id.Span]))
  loop (d: const *Trace, r: const []*Trace, o: const *Trace) where Ranged(r, o) && d == ms.trace[id.Trace]: entry(Move3(ms, d, o, ms.span[id.Trace][id.Span]))
  loop (d: const *Trace, r: const []*Trace, o: const *Trace) where Ranged(r, o) && d == ms.trace[id.Trace]: entry(Move4(ms, d, o, ms.span[id.Trace][id.Span]))
  loop (d: const *Trace) where d == ms.trace[id.Trace]: heapof("Trace.Sub") == put(entry(heapof("Trace.Sub")), d, d.Sub)
      && ((arr(d.Sub) == entry(arr(d.Sub)) && cap(d.Sub) == entry(cap(d.Sub))) || newer(d.Sub))
      && (forall a: math :: {content(*Trace, a)} entry(allocated(a)) && (a != entry(arr(d.Sub)) || entry(cap(d.Sub)) == 0) ==> content(*Trace, a) == entry(content(*Trace, a)))
  loop (l: []*Trace, d: const *Trace) where d == ms.trace[id.Trace]: cap(l) == 0 || (newer(l) && arr(l) != arr(d.Sub))
  loop (i: math, r: const []*Trace, l: []*Trace, d: const *Trace, o: const *Trace) where Ranged(r, o) && d == ms.trace[id.Trace]:
      forall c: *Trace :: {c in seq(l)} c in seq(l) <==> c in take(entry(seq(r)), i) && c != d && c.ID.Parent == o.ID.Span
  loop (i: math, r: const []*Trace, d: const *Trace, o: const *Trace) where Ranged(r, o) && d == ms.trace[id.Trace]:
      forall c: *Trace :: {c in seq(d.Sub)} c in seq(d.Sub) <==> c in entry(seq(d.Sub)) || (c in take(entry(seq(r)), i) && c != d && c.ID.Parent != o.ID.Span)
  loop (l: []*Trace): nodup(seq(l))
  loop (d: const *Trace) where d == ms.trace[id.Trace]: nodup(seq(d.Sub))
  ensures maps: Maps(ms)
  ensures keyed: Keyed(ms)
  ensures rooted: Rooted(ms)
  ensures children: SubsOK(ms)
  ensures complete: SubsAll(ms)
  ensures once: SubsOnce(ms)
  ensures own: SubsOwn(ms)
  ensures root: RootKnown(ms)
  ensures indexed: forall t: ID, s: ID :: {s in ms.span[t]} Has(ms, t, s) <==> old(Has(ms, t, s)) || (t == id.Trace && s == id.Span)
  ensures kept: forall t: ID, s: ID :: {ms.span[t][s]} old(Has(ms, t, s)) ==> ms.span[t][s] == old(ms.span[t][s])
  ensures new: !old(Has(ms, id.Trace, id.Span)) ==> ms.span[id.Trace][id.Span].ID == id && (id.Parent == 0 ==> ms.trace[id.Trace] == ms.span[id.Trace][id.Span])
  ensures others: forall t: ID :: {ms.trace[t]} t != id.Trace && t in ms.trace ==> old(t in ms.trace) && ms.trace[t] == old(ms.trace[t])
  ensures ids: forall n: *Trace :: {n.ID.Span} old(allocated(n)) ==> n.ID == old(n.ID)
  ensures ok: err == nil

func NewMemoryStore() (ms)
  property C06 C07 C08
  ensures state: ms != nil && fresh(ms) && StoreInv(ms) && AnnsOwn(ms) && !ms.log
  ensures empty: forall t: ID :: {t in ms.trace} !(t in ms.trace)

# ---- C07: annotations ----

# Every span's annotations are in an array of their own.
define AnnsOwn(ms: *MemoryStore): bool =
    (forall n: *Trace :: {n.Annotations} Node(ms, n) ==> wf(n.Annotations))
    && (forall n: *Trace, m: *Trace :: {n.Annotations, m.Annotations} Node(ms, n) && Node(ms, m) && n != m ==> cap(n.Annotations) == 0 || cap(m.Annotations) == 0 || arr(n.Annotations) != arr(m.Annotations))

# The store has no part in the caller's slice.
define Apart(ms: *MemoryStore, as: []Annotation): bool =
    forall n: *Trace :: {n.Annotations} Node(ms, n) ==> cap(n.Annotations) == 0 || cap(as) == 0 || arr(n.Annotations) != arr(as)

func (*MemoryStore).Collect(ms, id, anns) (err)
  property C07
  panicfree by C06
  requires state: StoreInv(ms)
  requires quiet: !ms.log
  requires id: id.Span != 0
  requires acyclic: Ranked(ms) && (!Has(ms, id.Trace, id.Span) && id.Parent != 0 ==> rank(id.Trace, id.Parent) < rank(id.Trace, id.Span))
  requires annotations: AnnsOwn(ms) && Apart(ms, anns)
  ensures first: !old(Has(ms, id.Trace, id.Span)) ==> seq(ms.span[id.Trace][id.Span].Annotations) == old(seq(anns))
  ensures later: old(Has(ms, id.Trace, id.Span)) ==> ms.span[id.Trace][id.Span] == old(ms.span[id.Trace][id.Span])
      && seq(ms.span[id.Trace][id.Span].Annotations) == cat(old(seq(ms.span[id.Trace][id.Span].Annotations)), old(seq(anns)))
  ensures others: forall n: *Trace :: {n.Annotations} old(Node(ms, n)) && !(n.ID.Trace == id.Trace && n.ID.Span == id.Span) ==> seq(n.Annotations) == old(seq(n.Annotations))
  ensures same: forall t: ID, s: ID :: {ms.span[t][s]} old(Has(ms, t, s)) ==> Has(ms, t, s) && ms.span[t][s] == old(ms.span[t][s])
  ensures own: AnnsOwn(ms)
  ensures apart: Apart(ms, anns)
  ensures untouched: content(Annotation, arr(anns)) == old(content(Annotation, arr(anns)))
  ensures ok: err == nil

# ---- C08: lookup, listing, deletion ----

func (*MemoryStore).Trace(ms, id) (t, err)
  property C08
  ensures found: id in ms.trace ==> err == nil && t == ms.trace[id]
  ensures missing: !(id in ms.trace) ==> err == ErrTraceNotFound && t == nil
  modifies nothing

# Every trace is stored under its own ID.
define Filed(ms: *MemoryStore): bool = forall t: ID :: {ms.trace[t]} {t in ms.trace} t in ms.trace ==> ms.trace[t] != nil && ms.trace[t].ID.Trace == t

func (*MemoryStore).Traces(ms, opts) (ts, err)
  property C08
  requires filed: Filed(ms)
  loop (i: math, f: map[ID]struct{}): forall k: ID :: {k in f} k in f <==> k in take(seq(opts.TraceIDs), i)
  loop (w: set[ID], l: []*Trace): cap(l) == 0 || fresh(l)
  loop (w: set[ID], l: []*Trace): forall t: *Trace :: {t in seq(l)} t in seq(l) <==> t != nil && t.ID.Trace in w && ms.trace[t.ID.Trace] == t && (len(opts.TraceIDs) == 0 || t.ID.Trace in seq(opts.TraceIDs))
  loop (l: []*Trace): nodup(seq(l))
  ensures ok: err == nil
  ensures exact: forall t: *Trace :: {t in seq(ts)} t in seq(ts) <==> t != nil && t.ID.Trace in ms.trace && ms.trace[t.ID.Trace] == t && (len(opts.TraceIDs) == 0 || t.ID.Trace in seq(opts.TraceIDs))
  ensures once: nodup(seq(ts))
  modifies elems *Trace, map map[ID]struct{}

func (*MemoryStore).Delete(ms, traces) (err)
  property C08
  requires state: StoreInv(ms)
  loop (i: math): forall t: ID :: {t in ms.trace} t in ms.trace <==> t in entry(keys(ms.trace)) && !(t in take(seq(traces), i))
  loop (i: math): forall t: ID :: {t in ms.span} t in ms.span <==> t in entry(keys(ms.span)) && !(t in take(seq(traces), i))
  loop (): forall t: ID :: {ms.trace[t]} t in ms.trace ==> ms.trace[t] == entry(ms.trace[t])
  loop (): forall t: ID :: {ms.span[t]} t in ms.span ==> ms.span[t] == entry(ms.span[t])
  ensures state: StoreInv(ms)
  ensures exact: forall t: ID :: {t in ms.trace} t in ms.trace <==> old(t in ms.trace) && !(t in seq(traces))
  ensures spans: forall t: ID, s: ID :: {ms.span[t][s]} {s in ms.span[t]} Has(ms, t, s) <==> old(Has(ms, t, s)) && !(t in seq(traces))
  ensures same: forall t: ID :: {ms.trace[t]} t in ms.trace ==> ms.trace[t] == old(ms.trace[t])
  ensures nodes: forall t: ID, s: ID :: {ms.span[t][s]} Has(ms, t, s) ==> ms.span[t][s] == old(ms.span[t][s])
  ensures ok: err == nil
  modifies map map[ID]*Trace, map map[ID]map[ID]*Trace
