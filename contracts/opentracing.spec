package opentracing "sourcegraph.com/sourcegraph/appdash/opentracing"

# ---- C20 ----

extern "sourcegraph.com/sourcegraph/appdash/opentracing.materializeWithJSON" event force

func NewRecorder(collector, opts) (r)
  property C20
  ensures new: r != nil && fresh(r) && r.collector == collector && r.Log != nil && (opts.Logger != nil ==> r.Log == opts.Logger) && r.verbose == opts.Verbose

define RawID(sp: basictracer.RawSpan): appdash.SpanID = mk(appdash.SpanID, sp.Context.TraceID, sp.Context.SpanID, sp.ParentSpanID)

# What is collected without being an event: one annotation, of a tag not yet recorded ...
define IsTag(sp: basictracer.RawSpan, done: set[string], a: seq[appdash.Annotation]): bool =
    len(a) == 1 && a[0].Key in sp.Tags && !(a[0].Key in done) && seq(a[0].Value) == bytes(fmt("%+v", sp.Tags[a[0].Key]))
# ... or of a baggage item not yet recorded.
define IsBaggage(sp: basictracer.RawSpan, done: set[string], a: seq[appdash.Annotation]): bool =
    len(a) == 1 && a[0].Key in sp.Context.Baggage && !(a[0].Key in done) && seq(a[0].Value) == bytes(sp.Context.Baggage[a[0].Key])

# named, spanned: the operation name and the time span were marshalled; mats log
# records were encoded, text: the last of them is still to be marshalled; failing:
# the failure still to be reported; pend: a marshalled event is to be collected;
# telling: that event is a report.
func (*Recorder).RecordSpan(r, sp)
  property C20
  requires recorder: r.collector != nil && r.Log != nil
  ghost named: bool = false
  ghost spanned: bool = false
  ghost mats: math = 0
  ghost text: bool = false
  ghost failing: error = nil
  ghost pend: bool = false
  ghost telling: bool = false
  ghost tags: set[string] = emptyset(string)
  ghost bags: set[string] = emptyset(string)
  oncall materializeWithJSON(f) [the next log record]: mats < len(sp.Logs) && seq(f) == seq(sp.Logs[mats].Fields) && failing == nil && !pend && !text
  on materializeWithJSON(f): mats = mats + 1
  on materializeWithJSON(f): failing = res1(log, error)
  on materializeWithJSON(f): text = failing == nil
  oncall MarshalEvent(e) [an event of the span, or the report of a failure]: !pend && (
      if failing != nil then typeis(e, appdash.logEvent) && log == prev(log) + ev.Error(failing) && unbox(e, appdash.logEvent).Msg == res(log, string)
      else if text then typeis(e, appdash.logEvent) && bytes(unbox(e, appdash.logEvent).Msg) == seq(res(log, []byte)) && unbox(e, appdash.logEvent).Time == sp.Logs[mats - 1].Timestamp
      else (typeis(e, appdash.SpanNameEvent) && !named && unbox(e, appdash.SpanNameEvent).Name == sp.Operation)
        || (typeis(e, appdash.Timespan) && !spanned && unbox(e, appdash.Timespan).S == sp.Start && nano(unbox(e, appdash.Timespan).E) == nano(sp.Start) + sp.Duration))
  on MarshalEvent(e): named = named || (failing == nil && typeis(e, appdash.SpanNameEvent))
  on MarshalEvent(e): spanned = spanned || (failing == nil && typeis(e, appdash.Timespan))
  on MarshalEvent(e): text = text && failing != nil
  on MarshalEvent(e): telling = failing != nil
  on MarshalEvent(e): failing = (if telling then nil else res1(log, error))
  on MarshalEvent(e): pend = failing == nil
  oncall Collect(c, id, a) [under the span's ID, what was marshalled or the next item]: c == r.collector && id == RawID(sp) && failing == nil && !text
      && (if pend then seq(a) == seq(res(log, appdash.Annotations)) else IsTag(sp, tags, seq(a)) || IsBaggage(sp, bags, seq(a)))
  before Collect(c, id, a): bags = (if !pend && !IsTag(sp, tags, seq(a)) then add(bags, seq(a)[0].Key) else bags)
  before Collect(c, id, a): tags = (if !pend && IsTag(sp, tags, seq(a)) then add(tags, seq(a)[0].Key) else tags)
  on Collect(c, id, a): failing = (if telling then nil else res(log, error))
  on Collect(c, id, a): pend = false
  on Collect(c, id, a): telling = false
  loop (i: math): mats == i && i <= len(sp.Logs)
  loop (): mats == len(sp.Logs)
  loop (): named && !pend && !text && !telling && failing == nil && !spanned
  loop (): tags == emptyset(string)
  loop (): bags == emptyset(string)
  loop (w: set[string]): tags == w
  loop (w: set[string]): bags == w
  loop (): tags == keys(sp.Tags)
  ensures unsampled: !sp.Context.Sampled ==> log == old(log)
  ensures all: sp.Context.Sampled ==> named && spanned && mats == len(sp.Logs) && tags == keys(sp.Tags) && bags == keys(sp.Context.Baggage)
  ensures reported: failing == nil && !pend && !text && !telling
