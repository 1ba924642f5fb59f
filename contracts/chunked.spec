package appdash "sourcegraph.com/sourcegraph/appdash"

guard ChunkedCollector.mu: pendingBySpanID queueSizeBytes lastErr started stopped

# ---- C12: the queue ----

# Accounted size of the first i annotations.
function annSizes(seq[Annotation], math): math
axiom annSizes0: forall s: seq[Annotation] :: {annSizes(s, 0)} annSizes(s, 0) == 0
axiom annSizesN: forall s: seq[Annotation], i: math :: {annSizes(s, i), s[i]}
    0 <= i < len(s) ==> annSizes(s, i + 1) == annSizes(s, i) + len(s[i].Key) + len(s[i].Value)
define EntrySize(s: seq[Annotation]): math = 24 + annSizes(s, len(s))

# The pending entries own their memory: no two share an array.
define QInv(cc: *ChunkedCollector): bool =
    (forall a: SpanID, b: SpanID :: {cc.pendingBySpanID[a], cc.pendingBySpanID[b]}
        a in cc.pendingBySpanID && b in cc.pendingBySpanID && a != b ==> cap(cc.pendingBySpanID[a]) == 0 || arr(cc.pendingBySpanID[a]) != arr(cc.pendingBySpanID[b]))
    && (cc.MaxQueueSize != 0 ==> cc.queueSizeBytes <= cc.MaxQueueSize)

define QSame(cc: *ChunkedCollector): bool =
    keys(cc.pendingBySpanID) == old(keys(cc.pendingBySpanID)) && cc.queueSizeBytes == old(cc.queueSizeBytes)
    && (forall k: SpanID :: {cc.pendingBySpanID[k]} k in cc.pendingBySpanID ==> seq(cc.pendingBySpanID[k]) == old(seq(cc.pendingBySpanID[k])))

func (*ChunkedCollector).Collect(cc, span, anns) (err)
  property C12 C07
  spawn skip
  requires inv: QInv(cc)
  requires caller: forall k: SpanID :: {cc.pendingBySpanID[k]} k in cc.pendingBySpanID ==> cap(cc.pendingBySpanID[k]) == 0 || arr(cc.pendingBySpanID[k]) != arr(anns)
  requires memory: forall i: math :: {annSizes(seq(anns), i)} 0 <= i <= len(anns) ==> 0 <= annSizes(seq(anns), i) <= 4611686018427387904 && cc.queueSizeBytes <= 4611686018427387904
  loop (i: math, z: uint64): 0 <= i && i <= len(anns) && z == 24 + annSizes(old(seq(anns)), i)
  loop (i: math, z: uint64): 0 <= i && i <= len(anns) && z == cc.queueSizeBytes + 24 + annSizes(old(seq(anns)), i)
  ensures inv: QInv(cc)
  ensures quiet: log == old(log)
  ensures stopped: old(cc.stopped) ==> err != nil && QSame(cc) && cc.lastErr == old(cc.lastErr) && cc.stopped
  ensures dropped: !old(cc.stopped) && cc.MaxQueueSize != 0 && old(cc.queueSizeBytes) + EntrySize(old(seq(anns))) > cc.MaxQueueSize ==>
      err == ErrQueueDropped && keys(cc.pendingBySpanID) == emptyset(SpanID) && cc.queueSizeBytes == 0 && cc.lastErr == old(cc.lastErr)
  ensures accepted: !old(cc.stopped) && !(cc.MaxQueueSize != 0 && old(cc.queueSizeBytes) + EntrySize(old(seq(anns))) > cc.MaxQueueSize) ==>
      cc.queueSizeBytes == old(cc.queueSizeBytes) + EntrySize(old(seq(anns)))
      && keys(cc.pendingBySpanID) == add(old(keys(cc.pendingBySpanID)), span)
      && (forall k: SpanID :: {cc.pendingBySpanID[k]} k != span && k in cc.pendingBySpanID ==> seq(cc.pendingBySpanID[k]) == old(seq(cc.pendingBySpanID[k])))
      && seq(cc.pendingBySpanID[span]) == (if old(span in cc.pendingBySpanID) then cat(old(seq(cc.pendingBySpanID[span])), old(seq(anns))) else old(seq(anns)))
      && err == old(cc.lastErr) && cc.lastErr == nil
  ensures own: !old(cc.stopped) && span in cc.pendingBySpanID ==> cap(cc.pendingBySpanID[span]) == 0 || arr(cc.pendingBySpanID[span]) != arr(anns)
  ensures running: !cc.stopped ==> cc.started

# ---- C13: flushing and stopping ----

function addErr(seq[error], error): seq[error]
axiom addErr0: forall s: seq[error], e: error :: {addErr(s, e)} addErr(s, e) == (if e == nil then s else snoc(s, e))

# What a list of failures is reported as: one as it is, several by an error that reports all.
define Report(errs: seq[error], err: error): bool =
    (len(errs) == 0 ==> err == nil) && (len(errs) == 1 ==> err == errs[0]) && (len(errs) > 1 ==> err != nil && reports(err) == errs)

define Late(cc: *ChunkedCollector, from: math): bool = cc.FlushTimeout != 0 && nano(now(clock)) - nano(now(from)) > cc.FlushTimeout

func (*ChunkedCollector).Flush(cc) (err)
  property C13
  requires collector: cc.Collector != nil
  ghost sent: set[SpanID] = emptyset(SpanID)
  ghost fails: seq[error] = emptyseq(error)
  on Collect(c, id, as): sent = add(sent, id)
  on Collect(c, id, as): fails = addErr(fails, res(log, error))
  ghost rounds: math = 0
  ghost qk: set[SpanID] = keys(cc.pendingBySpanID)
  ghost qs: uint64 = cc.queueSizeBytes
  ghost le: error = cc.lastErr
  ghost fl: bool = cc.started
  ghost fs: bool = cc.stopped
  on Lock(m): qk = keys(cc.pendingBySpanID)
  on Lock(m): qs = cc.queueSizeBytes
  on Lock(m): le = cc.lastErr
  on Lock(m): fl = cc.started
  on Lock(m): fs = cc.stopped
  on Unlock(m): rounds = rounds + 1
  oncall Unlock(m) [the queue is taken once and never put back]:
      (rounds == 0 ==> keys(cc.pendingBySpanID) == emptyset(SpanID) && cc.queueSizeBytes == 0)
      && (rounds > 0 ==> keys(cc.pendingBySpanID) == qk && cc.queueSizeBytes == qs)
  oncall Unlock(m) [nothing else is changed]: cc.lastErr == le && cc.started == fl && cc.stopped == fs
  oncall Collect(c, id, as) [each queued span once, with its annotations, after the queue was taken]:
      c == cc.Collector && !(id in sent) && old(id in cc.pendingBySpanID) && seq(as) == old(seq(cc.pendingBySpanID[id]))
      && keys(cc.pendingBySpanID) == emptyset(SpanID) && cc.queueSizeBytes == 0
  loop (w: set[SpanID]): sent == w
  loop (es: []error): seq(es) == fails
  ensures taken: rounds >= 1
  ensures all: (sent == old(keys(cc.pendingBySpanID)) && Report(fails, err)) || (Late(cc, old(clock)) && Report(snoc(fails, ErrQueueDropped), err))

func (*ChunkedCollector).Stop(cc)
  property C13
  requires inv: cc.started ==> cc.stopChan != nil && (!cc.stopped ==> !closed(cc.stopChan))
  ensures inv: cc.started ==> cc.stopChan != nil && (!cc.stopped ==> !closed(cc.stopChan))
  ensures stopped: cc.stopped
  ensures signal: cc.started ==> old(cc.stopped) || closed(cc.stopChan)

# The background goroutine: what a flush reports is kept for the next Collect.
extern "(*sourcegraph.com/sourcegraph/appdash.ChunkedCollector).Flush" event force
func (*ChunkedCollector).start(cc)
  property C13
  spawn inline
  holds cc.mu
  ghost pend: error = nil
  on Flush(c): pend = res(log, error)
  on Unlock(m): pend = nil
  oncall After(d) [flushes are MinInterval apart]: d == cc.MinInterval
  oncall Flush(c) [the failure of the flush before was kept]: c == cc && pend == nil
  oncall Unlock(m) [the failure of the flush is kept]: pend != nil && cc.lastErr == pend
  loop (): pend == nil
  ensures started: cc.started && cc.stopChan != nil && !closed(cc.stopChan)
