package appdash "sourcegraph.com/sourcegraph/appdash"

guard LimitStore.mu: traces ring nextInsertIdx

// The limit store's ring is a queue of the tracked trace IDs: while fewer than
// Max traces are tracked the queue is ring[0..next), afterwards it starts at
// ring[next] and wraps around.
define LSn(ls: *LimitStore): math = len(ls.traces)
define LSslot(ls: *LimitStore, i: math): math =
    if LSn(ls) < ls.Max then i else (if ls.nextInsertIdx + i < ls.Max then ls.nextInsertIdx + i else ls.nextInsertIdx + i - ls.Max)
define LSat(ls: *LimitStore, i: math): math = ls.ring[LSslot(ls, i)] % 18446744073709551616

define LSinv(ls: *LimitStore): bool =
    ls.Max <= 1125899906842624 && (ls.ring == nil ==> LSn(ls) == 0 && ls.nextInsertIdx == 0 && (forall k: ID :: {k in ls.traces} !(k in ls.traces)))
    && (ls.ring != nil ==> ls.traces != nil && len(ls.ring) == ls.Max && 0 <= LSn(ls) <= ls.Max
      && 0 <= ls.nextInsertIdx < ls.Max
      && (LSn(ls) < ls.Max ==> ls.nextInsertIdx == LSn(ls))
      && (forall i: math :: {ls.ring[i]} 0 <= i < LSn(ls) ==> (ls.ring[i] % 18446744073709551616) in ls.traces)
      && (forall i: math, j: math :: {ls.ring[i], ls.ring[j]} 0 <= i < j && j < LSn(ls) ==> ls.ring[i] != ls.ring[j])
      && (forall k: ID :: {k in ls.traces} k in ls.traces ==> (exists i: math :: {ls.ring[i]} 0 <= i < LSn(ls) && ls.ring[i] % 18446744073709551616 == k)))

func (*LimitStore).Collect(ls, id, anns) (err)
  property C10
  requires inv: LSinv(ls)
  requires max: ls.Max > 0
  requires store: ls.DeleteStore != nil
  ensures inv: LSinv(ls)
  ensures bound: LSn(ls) <= ls.Max && ls.Max == old(ls.Max)
  ensures known: old(id.Trace in ls.traces) ==> log == old(log) + ev.Collect(ls.DeleteStore, id, old(seq(anns))) && err == res(log, error)
      && keys(ls.traces) == old(keys(ls.traces)) && LSn(ls) == old(LSn(ls))
      && (forall i: math :: 0 <= i < LSn(ls) ==> LSat(ls, i) == old(LSat(ls, i)))
  ensures room: old(!(id.Trace in ls.traces) && LSn(ls) < ls.Max) ==>
      log == old(log) + ev.Collect(ls.DeleteStore, id, old(seq(anns))) && err == res(log, error)
      && LSn(ls) == old(LSn(ls)) + 1 && LSat(ls, LSn(ls) - 1) == id.Trace
      && (forall i: math :: 0 <= i < old(LSn(ls)) ==> LSat(ls, i) == old(LSat(ls, i)))
      && id.Trace in ls.traces
  ensures evict: old(!(id.Trace in ls.traces) && LSn(ls) == ls.Max) ==>
      (let l1 = old(log) + ev.Delete(ls.DeleteStore, snoc(emptyseq(ID), old(LSat(ls, 0))));
      (res(l1, error) != nil ==> log == l1 && err == res(l1, error)
          && keys(ls.traces) == old(keys(ls.traces)) && LSn(ls) == old(LSn(ls)) && (forall i: math :: 0 <= i < LSn(ls) ==> LSat(ls, i) == old(LSat(ls, i))))
      && (res(l1, error) == nil ==> log == l1 + ev.Collect(ls.DeleteStore, id, old(seq(anns))) && err == res(log, error)
          && LSn(ls) == ls.Max && LSat(ls, ls.Max - 1) == id.Trace
          && (forall i: math :: 0 <= i < ls.Max - 1 ==> LSat(ls, i) == old(LSat(ls, i + 1)))
          && !(old(LSat(ls, 0)) in ls.traces && old(LSat(ls, 0)) != id.Trace) && id.Trace in ls.traces))
