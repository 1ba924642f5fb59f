package appdash "sourcegraph.com/sourcegraph/appdash"

# ---- C01: text forms of span IDs ----

define SpanText(id: SpanID): string =
    if id.Parent == 0 then hex16(id.Trace) + "/" + hex16(id.Span)
    else hex16(id.Trace) + "/" + hex16(id.Span) + "/" + hex16(id.Parent)

# What ParseSpanID accepts.
define SpanParts(s: string): seq[string] = split(s, "/")
define SpanTextOK(s: string): bool =
    (len(SpanParts(s)) == 2 || len(SpanParts(s)) == 3)
    && parseok(SpanParts(s)[0]) && parseok(SpanParts(s)[1])
    && (len(SpanParts(s)) == 3 ==> parseok(SpanParts(s)[2]))
define SpanTextVal(s: string): SpanID =
    mk(SpanID, parseval(SpanParts(s)[0]), parseval(SpanParts(s)[1]),
       if len(SpanParts(s)) == 3 then parseval(SpanParts(s)[2]) else 0)

func (SpanID).String(id) (r)
  property C01
  ensures text: r == SpanText(id)
  ensures roundtrip: SpanTextOK(r) && SpanTextVal(r) == id
  modifies nothing

func ParseSpanID(s) (id, err)
  property C01
  ensures ok: SpanTextOK(s) ==> err == nil && id != nil && *id == SpanTextVal(s)
  ensures rejected: !SpanTextOK(s) ==> err != nil && id == nil
  modifies nothing

func (ID).String(id) (r)
  property C01
  ensures text: r == hex16(id)
  ensures roundtrip: parseok(r) && parseval(r) == id
  modifies nothing

func ParseID(s) (id, err)
  property C01
  ensures ok: parseok(s) ==> err == nil && id == parseval(s)
  ensures rejected: !parseok(s) ==> err != nil && id == 0
  modifies nothing

func (ID).MarshalJSON(id) (b, err)
  property C01
  ensures text: err == nil && seq(b) == bytes(jsonstr(hex16(id)))
  ensures decodes: jsonstrok(b) && jsonstrval(b) == hex16(id)
  modifies nothing

func (*ID).UnmarshalJSON(id, data) (err)
  property C01
  requires dest: id != nil
  ensures string: jsonstrok(data) && parseok(jsonstrval(data)) ==> err == nil && *id == parseval(jsonstrval(data))
  ensures number: !(jsonstrok(data) && parseok(jsonstrval(data))) && jsonuintok(data) ==> err == nil && *id == jsonuintval(data)
  ensures rejected: !(jsonstrok(data) && parseok(jsonstrval(data))) && !jsonuintok(data) ==> err != nil && *id == old(*id)
  modifies cells ID

# ---- C02: fresh span IDs ----

extern "sourcegraph.com/sourcegraph/appdash.generateID" event force
extern ".Encrypt" event modifies 0
guard global m: ctr n b

# The keystream is block after block; word(b, 0) and word(b, 8) are the two IDs of
# the current block, n the offset of the first one not handed out yet.
define KeyInv(): bool = c != nil && len(ctr) == 16 && len(b) == 16 && arr(b) != arr(ctr) && (n == 0 || n == 8 || n == 16)
# Big-endian increment of the 16-byte counter.
define CtrNext(o: seq[byte], w: seq[byte]): bool =
    len(w) == 16 && (forall k: math :: {w[k]} 0 <= k < 16 ==>
        w[k] == (if (forall i: math :: {o[i]} k < i < 16 ==> o[i] == 255) then (o[k] + 1) % 256 else o[k]))

func generateID() (id)
  property C02
  requires inv: KeyInv()
  ensures inv: KeyInv()
  ensures used: old(n) < 16 ==> log == old(log) && id == old(word(b, n)) && n == old(n) + 8 && seq(b) == old(seq(b)) && seq(ctr) == old(seq(ctr))
  ensures block: old(n) == 16 ==> log == old(log) + ev.Encrypt(c, old(seq(b)), old(seq(ctr))) && id == word(b, 0) && n == 8 && CtrNext(old(seq(ctr)), seq(ctr))
  ensures same: c == old(c) && arr(b) == old(arr(b)) && off(b) == old(off(b)) && arr(ctr) == old(arr(ctr)) && off(ctr) == old(off(ctr))

func NewRootSpanID() (id)
  property C02
  ensures fresh: (let l1 = old(log) + ev.generateID(); let l2 = l1 + ev.generateID(); log == l2
      && ((id.Trace == res(l1, ID) && id.Span == res(l2, ID)) || (id.Trace == res(l2, ID) && id.Span == res(l1, ID))))
  ensures root: id.Parent == 0
  modifies log

func NewSpanID(parent) (id)
  property C02
  ensures child: id.Trace == parent.Trace && id.Parent == parent.Span
  ensures fresh: log == old(log) + ev.generateID() && id.Span == res(log, ID)
  modifies log

func (SpanID).IsRoot(id) (r)
  property C02
  ensures root: r == (id.Parent == 0)
  modifies nothing
