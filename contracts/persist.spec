package appdash "sourcegraph.com/sourcegraph/appdash"

# ---- C09: saving and loading ----

extern "encoding/gob.NewEncoder" event
extern "encoding/gob.NewDecoder" event
extern "(*encoding/gob.Encoder).Encode" event
extern "(*encoding/gob.Decoder).Decode" event modifies 1

extern "(*os.File).Name" pure
extern "(*os.File).Close" event
extern "io/ioutil.TempFile" event
extern "os.CreateTemp" event
extern "os.Rename" event

# spannode: the spans of the decoded trees; trees are finite: depth falls.
# spanof(t, n): n is a span of the tree t. The equations determine it on finite trees.
function spannode(*Trace): bool
function depth(*Trace): math
function spanof(*Trace, *Trace): bool
define Forest(): bool =
    (forall t: *Trace :: {spannode(t)} spannode(t) ==> t != nil && 0 <= depth(t)
        && (forall i: math :: {t.Sub[i]} 0 <= i < len(t.Sub) ==> spannode(t.Sub[i]) && depth(t.Sub[i]) < depth(t)))
    && (forall t: *Trace, n: *Trace :: {spanof(t, n)} spannode(t) ==>
        (spanof(t, n) <==> n == t || (exists i: math :: {t.Sub[i]} 0 <= i < len(t.Sub) && spanof(t.Sub[i], n))))

# The index maps the span IDs of the tree's spans, and only those, to such spans.
define Indexed(index: map[ID]*Trace, t: *Trace): bool =
    forall n: *Trace :: {spanof(t, n)} spanof(t, n) ==> n.ID.Span in index && spanof(t, index[n.ID.Span]) && index[n.ID.Span].ID.Span == n.ID.Span

func indexSpans(index, t)
  property C09
  modular
  requires forest: Forest()
  requires tree: spannode(t) && index != nil
  decreases depth(t)
  loop (i: math): 0 <= i && i <= len(t.Sub)
  loop (): t.ID.Span in index && spanof(t, index[t.ID.Span]) && index[t.ID.Span].ID.Span == t.ID.Span
  loop (i: math): forall j: math, n: *Trace :: {spanof(t.Sub[j], n)} 0 <= j < i && spanof(t.Sub[j], n) ==> n.ID.Span in index && spanof(t, index[n.ID.Span]) && index[n.ID.Span].ID.Span == n.ID.Span
  loop (): forall k: ID :: {index[k]} {k in index} k in index ==> (old(k in index) && index[k] == old(index[k])) || (spanof(t, index[k]) && index[k].ID.Span == k)
  loop (): forall k: ID :: {k in index} {old(k in index)} old(k in index) ==> k in index
  loop (): forall m: map[ID]*Trace :: {keys(m)} {vals(m)} m != index ==> keys(m) == old(keys(m)) && vals(m) == old(vals(m))
  ensures all: Indexed(index, t)
  ensures only: forall k: ID :: {index[k]} {k in index} k in index ==> (old(k in index) && index[k] == old(index[k])) || (spanof(t, index[k]) && index[k].ID.Span == k)
  ensures kept: forall k: ID :: {k in index} {old(k in index)} old(k in index) ==> k in index
  ensures others: forall m: map[ID]*Trace :: {keys(m)} {vals(m)} m != index ==> keys(m) == old(keys(m)) && vals(m) == old(vals(m))
  modifies map map[ID]*Trace

# What the decoder yielded.
define Decoded(v: any): map[ID]*Trace = unbox(v, *memoryStoreData).Trace

# What a store's trees satisfy (the invariant of C06, said of the trees alone).
define Member(ms: *MemoryStore, t: ID, n: *Trace): bool = t in ms.trace && spanof(ms.trace[t], n)
define Stored(ms: *MemoryStore): bool =
    (forall t: ID, n: *Trace :: {spanof(ms.trace[t], n)} Member(ms, t, n) ==> n != nil && allocated(n) && n.ID.Trace == t && n.ID.Span != 0 && nodup(seq(n.Sub)) && wf(n.Sub))
    && (forall t: ID, n: *Trace, m: *Trace :: {spanof(ms.trace[t], n), spanof(ms.trace[t], m)} Member(ms, t, n) && Member(ms, t, m) && n.ID.Span == m.ID.Span ==> n == m)
    && (forall t: ID, n: *Trace, c: *Trace :: {spanof(ms.trace[t], n), c in seq(n.Sub)} Member(ms, t, n) && c in seq(n.Sub) ==> Member(ms, t, c) && c != ms.trace[t]
        && (c.ID.Parent == n.ID.Span || (n == ms.trace[t] && (forall m: *Trace :: {spanof(ms.trace[t], m)} Member(ms, t, m) ==> m.ID.Span != c.ID.Parent))))
    && (forall t: ID, n: *Trace :: {spanof(ms.trace[t], n)} Member(ms, t, n) && n != ms.trace[t] ==> (exists p: *Trace :: {spanof(ms.trace[t], p)} Member(ms, t, p) && n in seq(p.Sub)))
    && (forall t: ID, n: *Trace :: {spanof(ms.trace[t], n)} Member(ms, t, n) ==> n.ID.Span != ms.trace[t].ID.Parent && (n.ID.Parent == 0 ==> ms.trace[t].ID.Parent == 0))
    && (forall t: ID, u: ID, n: *Trace, m: *Trace :: {spanof(ms.trace[t], n), spanof(ms.trace[u], m)} Member(ms, t, n) && Member(ms, u, m) && n != m ==>
        (cap(n.Sub) == 0 || cap(m.Sub) == 0 || arr(n.Sub) != arr(m.Sub)))

func (*MemoryStore).ReadFrom(ms, r) (n, err)
  property C09
  ghost trees: map[ID]*Trace = ms.trace
  ghost ids: set[ID] = emptyset(ID)
  assume-after Decode(d, v) [decoded trees are finite]: Forest() && (forall t: ID :: {Decoded(v)[t]} t in Decoded(v) ==> spannode(Decoded(v)[t]))
  on Decode(d, v): trees = Decoded(v)
  on Decode(d, v): ids = keys(Decoded(v))
  oncall Decode(d, v) [from the reader, once]: log == old(log) + ev.NewDecoder(r) && d == res(log, *gob.Decoder)
  loop (w: set[ID]): ms.trace != nil && ms.span != nil
  loop (w: set[ID]): forall t: ID :: {t in ms.span} t in ms.span <==> t in w
  loop (w: set[ID]): forall t: ID :: {t in w} t in w ==> t in ms.trace
  loop (w: set[ID]): forall t: ID :: {ms.span[t]} t in ms.span ==> ms.span[t] != nil && fresh(ms.span[t]) && ms.span[t] != ms.trace
  loop (w: set[ID]): forall t: ID, u: ID :: {ms.span[t], ms.span[u]} t in ms.span && u in ms.span && t != u ==> ms.span[t] != ms.span[u]
  loop (w: set[ID]): keys(ms.trace) == entry(keys(ms.trace)) && vals(ms.trace) == entry(vals(ms.trace))
  loop (w: set[ID]): forall t: ID :: {ms.span[t]} t in w ==> Indexed(ms.span[t], ms.trace[t])
  loop (w: set[ID]): forall t: ID, k: ID :: {ms.span[t][k]} {k in ms.span[t]} t in w && k in ms.span[t] ==> spanof(ms.trace[t], ms.span[t][k]) && ms.span[t][k].ID.Span == k
  loop (w: set[ID], tr: map[ID]*Trace, sp: map[ID]map[ID]*Trace): tr != nil && sp != nil && fresh(sp)
  loop (w: set[ID], sp: map[ID]map[ID]*Trace): forall t: ID :: {t in sp} t in sp <==> t in w
  loop (w: set[ID], tr: map[ID]*Trace): forall t: ID :: {t in w} t in w ==> t in tr
  loop (w: set[ID], tr: map[ID]*Trace, sp: map[ID]map[ID]*Trace): forall t: ID :: {sp[t]} t in sp ==> sp[t] != nil && fresh(sp[t]) && sp[t] != tr
  loop (w: set[ID], sp: map[ID]map[ID]*Trace): forall t: ID, u: ID :: {sp[t], sp[u]} t in sp && u in sp && t != u ==> sp[t] != sp[u]
  loop (w: set[ID], tr: map[ID]*Trace): keys(tr) == entry(keys(tr)) && vals(tr) == entry(vals(tr))
  loop (w: set[ID], tr: map[ID]*Trace, sp: map[ID]map[ID]*Trace): forall t: ID :: {sp[t]} t in w ==> Indexed(sp[t], tr[t])
  loop (w: set[ID], tr: map[ID]*Trace, sp: map[ID]map[ID]*Trace): forall t: ID, k: ID :: {sp[t][k]} {k in sp[t]} t in w && k in sp[t] ==> spanof(tr[t], sp[t][k]) && sp[t][k].ID.Span == k
  ensures failed: err != nil ==> ms.trace == old(ms.trace) && ms.span == old(ms.span) && n == 0
  ensures unchanged: err != nil ==> (forall m: map[ID]*Trace :: {keys(m)} {vals(m)} old(allocated(m)) ==> keys(m) == old(keys(m)) && vals(m) == old(vals(m)))
  ensures error: err == res(log, error)
  ensures loaded: err == nil ==> (if trees == nil then fresh(ms.trace) && (forall t: ID :: {t in ms.trace} !(t in ms.trace)) else ms.trace == trees && keys(ms.trace) == ids)
  ensures maps: err == nil ==> Maps(ms)
  ensures indexed: err == nil ==> (forall t: ID :: {ms.span[t]} t in ms.trace ==> Indexed(ms.span[t], ms.trace[t]))
  ensures exact: err == nil ==> (forall t: ID, k: ID :: {ms.span[t][k]} {k in ms.span[t]} t in ms.trace && k in ms.span[t] ==> spanof(ms.trace[t], ms.span[t][k]) && ms.span[t][k].ID.Span == k)
  ensures keyed: err == nil && Stored(ms) ==> Keyed(ms)
  ensures rooted: err == nil && Stored(ms) ==> Rooted(ms)
  ensures children: err == nil && Stored(ms) ==> SubsOK(ms)
  ensures complete: err == nil && Stored(ms) ==> SubsAll(ms)
  ensures once: err == nil && Stored(ms) ==> SubsOnce(ms)
  ensures own: err == nil && Stored(ms) ==> SubsOwn(ms)
  ensures root: err == nil && Stored(ms) ==> RootKnown(ms)
  ensures count: err == nil ==> n == len(ms.trace)

# What is written is the whole store, in one value.
define Encoding(l: Log, w: io.Writer): Log = l + ev.NewEncoder(w)

func (*MemoryStore).Write(ms, w) (err)
  property C09
  ensures all: log == Encoding(old(log), w) + ev.Encode(res(Encoding(old(log), w), *gob.Encoder), iface(mk(memoryStoreData, ms.trace, ms.span), memoryStoreData))
  ensures error: err == res(log, error)
  ensures same: ms.trace == old(ms.trace) && ms.span == old(ms.span)

func PersistEvery(s, interval, file) (err)
  property C09
  requires store: s != nil
  ghost tmp: *os.File = old(nil)
  ghost stage: math = 0
  ghost problem: error = old(nil)
  on TempFile(d, p): tmp = res(log, *os.File)
  on CreateTemp(d, p): tmp = res(log, *os.File)
  on TempFile(d, p): stage = (if res1(log, error) == nil then 1 else 0)
  on CreateTemp(d, p): stage = (if res1(log, error) == nil then 1 else 0)
  on TempFile(d, p): problem = res1(log, error)
  on CreateTemp(d, p): problem = res1(log, error)
  on Write(x, f): problem = res(log, error)
  on Write(x, f): stage = (if stage == 1 && x == s && f == iface(tmp, *os.File) && res(log, error) == nil then 2 else 0)
  on Close(f): problem = (if stage == 2 then res(log, error) else problem)
  on Close(f): stage = (if stage == 2 && f == tmp && res(log, error) == nil then 3 else 0)
  on Rename(from, to): problem = res(log, error)
  oncall Rename(from, to) [the file is replaced by what was written and closed without an error]: stage == 3 && to == file && from == pure("(*os.File).Name", string, tmp)
  ensures failed: err != nil && err == problem
