package appdash "sourcegraph.com/sourcegraph/appdash"

guard RecentStore.mu: created lastEvicted

# ---- C11 ----

# Trace t was tracked and first seen before the time c (as UnixNano).
define RSexpired(rs: *RecentStore, t: ID, c: math): bool = old(t in rs.created) && old(rs.created[t]) < c

# An eviction at the k-th clock reading.
define RSevicted(rs: *RecentStore, cur: ID, del: seq[ID], dels: math, c: math): bool =
    nodup(del) && (forall t: ID :: {t in del} {old(t in rs.created)} t in del <==> RSexpired(rs, t, c))
    && dels == (if len(del) > 0 then 1 else 0)
    && (forall t: ID :: {t in rs.created} {old(t in rs.created)} t != cur ==> (t in rs.created <==> old(t in rs.created) && !RSexpired(rs, t, c)))
    && (forall t: ID :: {rs.created[t]} t in rs.created && old(t in rs.created) && !RSexpired(rs, t, c) ==> rs.created[t] == old(rs.created[t]))

func (*RecentStore).Collect(rs, id, anns) (err)
  property C11
  spawn inline
  requires store: rs.DeleteStore != nil
  requires age: 0 <= rs.MinEvictAge < 9223372036854775807
  ghost del: seq[ID] = emptyseq(ID)
  ghost dels: math = 0
  on Delete(s, ids): del = seq(ids)
  on Delete(s, ids): dels = dels + 1
  oncall Delete(s, ids) [on the wrapped store, once]: s == rs.DeleteStore && dels == 0
  oncall Collect(s, i, as) [the trace is tracked when its collection is forwarded]: i.Trace in rs.created
  loop (w: set[ID], ids: []ID, c: const int64):
      nodup(seq(ids)) && (forall t: ID :: {t in seq(ids)} {old(t in rs.created)} t in seq(ids) <==> t in w && RSexpired(rs, t, c))
  loop (w: set[ID], c: const int64):
      (forall t: ID :: {t in rs.created} {old(t in rs.created)} t in rs.created <==> old(t in rs.created) && !(t in w && RSexpired(rs, t, c)))
      && (forall t: ID :: {t in w} t in w ==> old(t in rs.created))
      && (forall t: ID :: {rs.created[t]} t in rs.created ==> rs.created[t] == old(rs.created[t]))
  loop (w: set[ID]): (forall t: ID :: {t in rs.created} {old(t in rs.created)} t in rs.created <==> old(t in rs.created))
      && (forall t: ID :: {t in w} t in w ==> old(t in rs.created))
      && (forall t: ID :: {rs.created[t]} t in rs.created ==> rs.created[t] == old(rs.created[t]))
  loop (i: math, ids: []ID): 0 <= i && i <= len(ids)
      && (forall t: ID :: {t in rs.created} {old(t in rs.created)} t in rs.created <==> old(t in rs.created) && !(t in take(seq(ids), i)))
      && (forall t: ID :: {rs.created[t]} t in rs.created ==> rs.created[t] == old(rs.created[t]))
  ensures forwarded: log == old(log) + ev.Collect(rs.DeleteStore, id, old(seq(anns))) && err == res(log, error)
  ensures due: nano(now(old(clock) + 1)) - nano(old(rs.lastEvicted)) > rs.MinEvictAge ==>
      (exists k: math :: {now(k)} old(clock) < k <= clock && RSevicted(rs, id.Trace, del, dels, nano(now(k)) - rs.MinEvictAge)
        && (id.Trace in rs.created && (old(id.Trace in rs.created) && !RSexpired(rs, id.Trace, nano(now(k)) - rs.MinEvictAge) ==> rs.created[id.Trace] == old(rs.created[id.Trace]))))
  ensures early: nano(now(old(clock) + 1)) - nano(old(rs.lastEvicted)) <= rs.MinEvictAge ==> dels == 0 && rs.lastEvicted == old(rs.lastEvicted)
      && (forall t: ID :: {t in rs.created} {old(t in rs.created)} t != id.Trace ==> (t in rs.created <==> old(t in rs.created)))
      && (forall t: ID :: {rs.created[t]} old(t in rs.created) ==> rs.created[t] == old(rs.created[t]))
  ensures tracked: id.Trace in rs.created && (rs.created[id.Trace] == old(rs.created[id.Trace]) && old(id.Trace in rs.created) || (exists k: math :: {now(k)} old(clock) < k <= clock && rs.created[id.Trace] == nano(now(k))))
  ensures ran: dels > 0 ==> (exists k: math :: {now(k)} old(clock) < k <= clock && rs.lastEvicted == now(k))
