package appdash "sourcegraph.com/sourcegraph/appdash"

extern "sourcegraph.com/sourcegraph/appdash.MarshalEvent" event force

guard Recorder.errorsMu: errors

# ---- C14 ----

# The history after a failure was reported, starting from l: the report itself is
# collected for the same span, and nothing else is.
define Reported(l: Log, r: *Recorder, lg: Log): bool =
    prev(prev(lg)) == l
    && lg == prev(lg) + ev.Collect(r.collector, r.SpanID, seq(res(prev(lg), Annotations)))
    && (exists m: any :: {ev.MarshalEvent(m)} prev(lg) == l + ev.MarshalEvent(m))

define ErrorsAdd(r: *Recorder, errs: seq[error], e: error): bool =
    if r.Logger == nil then seq(r.errors) == snoc(errs, e) else seq(r.errors) == errs

func NewRecorder(span, c) (r)
  property C14
  panics when c == nil
  ensures new: r != nil && r.SpanID == span && r.collector == c && !r.finished && len(r.annotations) == 0 && len(r.errors) == 0 && r.Logger == nil
  modifies nothing

func (*Recorder).Event(r, e)
  property C14
  requires collector: r.collector != nil
  ensures first: log == old(log) + ev.MarshalEvent(e) || Reported(old(log) + ev.MarshalEvent(e), r, log)
  ensures recorded: (let l = old(log) + ev.MarshalEvent(e); res1(l, error) == nil ==> log == l
      && seq(r.annotations) == cat(old(seq(r.annotations)), old(seq(res(l, Annotations)))) && seq(r.errors) == old(seq(r.errors)))
  ensures failed: (let l = old(log) + ev.MarshalEvent(e); res1(l, error) != nil ==> Reported(l, r, log)
      && seq(r.annotations) == old(seq(r.annotations)) && ErrorsAdd(r, old(seq(r.errors)), res1(l, error)))

func (*Recorder).Finish(r)
  property C14
  requires collector: r.collector != nil
  ensures finished: r.finished && seq(r.annotations) == old(seq(r.annotations))
  ensures delivered: !old(r.finished) ==> (let l = old(log) + ev.Collect(r.collector, r.SpanID, old(seq(r.annotations)));
      (res(l, error) == nil ==> log == l && seq(r.errors) == old(seq(r.errors)))
      && (res(l, error) != nil ==> Reported(l, r, log) && ErrorsAdd(r, old(seq(r.errors)), res(l, error))))
  ensures again: old(r.finished) ==> Reported(old(log), r, log) && ErrorsAdd(r, old(seq(r.errors)), errMultipleFinishCalls)

func (*Recorder).Annotation(r, as)
  property C14
  requires collector: r.collector != nil
  ensures collected: (let l = old(log) + ev.Collect(r.collector, r.SpanID, old(seq(as)));
      (res(l, error) == nil ==> log == l && seq(r.errors) == old(seq(r.errors)))
      && (res(l, error) != nil ==> Reported(l, r, log) && ErrorsAdd(r, old(seq(r.errors)), res(l, error))))
  ensures own: seq(r.annotations) == old(seq(r.annotations)) && r.finished == old(r.finished)

func (*Recorder).Errors(r) (errs)
  property C14
  ensures handed: seq(errs) == old(seq(r.errors))
  ensures once: len(r.errors) == 0
  modifies Recorder.errors

func (*Recorder).Name(r, name)
  property C14
  requires collector: r.collector != nil
  ensures event: log == old(log) + ev.MarshalEvent(iface(mk(SpanNameEvent, name), SpanNameEvent)) || Reported(old(log) + ev.MarshalEvent(iface(mk(SpanNameEvent, name), SpanNameEvent)), r, log)
  ensures recorded: (let l = old(log) + ev.MarshalEvent(iface(mk(SpanNameEvent, name), SpanNameEvent)); res1(l, error) == nil ==> log == l
      && seq(r.annotations) == cat(old(seq(r.annotations)), old(seq(res(l, Annotations)))))

func (*Recorder).Msg(r, msg)
  property C14
  requires collector: r.collector != nil
  ensures recorded: (let l = old(log) + ev.MarshalEvent(iface(mk(msgEvent, msg), msgEvent)); res1(l, error) == nil ==> log == l
      && seq(r.annotations) == cat(old(seq(r.annotations)), old(seq(res(l, Annotations)))))

func (*Recorder).LogWithTimestamp(r, msg, timestamp)
  property C14
  requires collector: r.collector != nil
  ensures recorded: (let l = old(log) + ev.MarshalEvent(iface(mk(logEvent, msg, timestamp), logEvent)); res1(l, error) == nil ==> log == l
      && seq(r.annotations) == cat(old(seq(r.annotations)), old(seq(res(l, Annotations)))))

func (*Recorder).Child(r) (c)
  property C14
  requires collector: r.collector != nil
  ensures child: log == old(log) + ev.generateID() && c.SpanID.Span == res(log, ID) && c != nil && c.collector == r.collector && c.SpanID.Trace == r.SpanID.Trace && c.SpanID.Parent == r.SpanID.Span
      && !c.finished && len(c.annotations) == 0 && len(c.errors) == 0
