package appdash "sourcegraph.com/sourcegraph/appdash"

# ---- C21: parsing and printing scalars ----

extern ".Kind" pure
extern ".Bits" pure
extern ".Elem" pure
extern ".PkgPath" pure
extern "(reflect.Type).Name" pure
extern "strconv.ParseInt" pure
extern "strconv.ParseFloat" pure
extern "strconv.ParseBool" pure
extern "time.Parse" pure
extern "(reflect.Value).SetBool" event
extern "(reflect.Value).SetInt" event
extern "(reflect.Value).SetUint" event
extern "(reflect.Value).SetFloat" event
extern "(reflect.Value).SetString" event

define Kind(t: reflect.Type): math = pure("Kind", reflect.Kind, t)
define Bits(t: reflect.Type): math = pure("Bits", int, t)
define ElemOf(t: reflect.Type): reflect.Type = pure("Elem", reflect.Type, t)
define IsTime(t: reflect.Type): bool = pure("PkgPath", string, t) == "time" && pure("Name", string, t) == "Time"
define IsDuration(t: reflect.Type): bool = pure("PkgPath", string, t) == "time" && pure("Name", string, t) == "Duration"
define NewOf(l: Log, t: reflect.Type): Log = l + ev.New(t)
define Cell(l: Log, t: reflect.Type): reflect.Value = pure("(reflect.Value).Elem", reflect.Value, res(NewOf(l, t), reflect.Value))

# The element type of a pointer type is a type.
define Types(): bool = forall t: reflect.Type :: {ElemOf(t)} Kind(t) == 22 ==> ElemOf(t) != nil

# Each text is parsed as exactly the type that is asked for, with its own width, and
# what is set is what the parser gave.
# l, m: the history before and after the text s was parsed as the type t, giving r, err.
define ParsedBool(l: Log, m: Log, t: reflect.Type, s: string, r: reflect.Value, err: error): bool =
    err == pure1("strconv.ParseBool", error, s)
    && (err == nil ==> r == res(NewOf(l, t), reflect.Value) && m == NewOf(l, t) + ev.SetBool(Cell(l, t), pure("strconv.ParseBool", bool, s)))
define ParsedInt(l: Log, m: Log, t: reflect.Type, s: string, r: reflect.Value, err: error): bool =
    err == pure1("strconv.ParseInt", error, s, 10, Bits(t))
    && (err == nil ==> r == res(NewOf(l, t), reflect.Value) && m == NewOf(l, t) + ev.SetInt(Cell(l, t), pure("strconv.ParseInt", int64, s, 10, Bits(t))))
define ParsedUint(l: Log, m: Log, t: reflect.Type, s: string, r: reflect.Value, err: error): bool =
    (err == nil) == parsesuint(s, 10, Bits(t))
    && (err == nil ==> r == res(NewOf(l, t), reflect.Value) && m == NewOf(l, t) + ev.SetUint(Cell(l, t), parseuint(s, 10, Bits(t))))
define ParsedFloat(l: Log, m: Log, t: reflect.Type, s: string, r: reflect.Value, err: error): bool =
    err == pure1("strconv.ParseFloat", error, s, Bits(t))
    && (err == nil ==> r == res(NewOf(l, t), reflect.Value) && m == NewOf(l, t) + ev.SetFloat(Cell(l, t), pure("strconv.ParseFloat", float64, s, Bits(t))))
define ParsedString(l: Log, m: Log, t: reflect.Type, s: string, r: reflect.Value, err: error): bool =
    err == nil && r == res(NewOf(l, t), reflect.Value) && m == NewOf(l, t) + ev.SetString(Cell(l, t), s)
define ParsedTime(l: Log, m: Log, s: string, r: reflect.Value, err: error): bool =
    err == pure1("time.Parse", error, "2006-01-02T15:04:05.999999999Z07:00", s) && m == l
    && (err == nil ==> (exists p: *time.Time :: {iface(p, *time.Time)} p != nil && r == pure("reflect.ValueOf", reflect.Value, iface(p, *time.Time)) && *p == pure("time.Parse", time.Time, "2006-01-02T15:04:05.999999999Z07:00", s)))
# Of a duration's value only that it is a duration: its arithmetic is in floats.
define ParsedDuration(l: Log, m: Log, s: string, r: reflect.Value, err: error): bool =
    m == l && (pure1("strconv.ParseFloat", error, s, 64) != nil ==> err != nil)
    && (err == nil ==> (exists p: *time.Duration :: {iface(p, *time.Duration)} p != nil && r == pure("reflect.ValueOf", reflect.Value, iface(p, *time.Duration))))

define Scalar(t: reflect.Type): bool = IsTime(t) || IsDuration(t) || 1 <= Kind(t) <= 11 || 13 <= Kind(t) <= 14 || Kind(t) == 24
define Parsed(l: Log, m: Log, t: reflect.Type, s: string, r: reflect.Value, err: error): bool =
    if IsTime(t) then ParsedTime(l, m, s, r, err)
    else if IsDuration(t) then ParsedDuration(l, m, s, r, err)
    else (Kind(t) == 1 ==> ParsedBool(l, m, t, s, r, err)) && (2 <= Kind(t) <= 6 ==> ParsedInt(l, m, t, s, r, err)) && (7 <= Kind(t) <= 11 ==> ParsedUint(l, m, t, s, r, err))
      && (13 <= Kind(t) <= 14 ==> ParsedFloat(l, m, t, s, r, err)) && (Kind(t) == 24 ==> ParsedString(l, m, t, s, r, err))

func parseValueToPtr(as, s) (r, err)
  property C21
  modular
  requires type: as != nil && Types()
  ensures scalar: Parsed(old(log), log, as, s, r, err)
  ensures pointer: !IsTime(as) && !IsDuration(as) && Kind(as) == 22 ==> Parsed(old(log), log, ElemOf(as), s, r, err)
  ensures failed: err != nil ==> log == old(log)
  modifies log

func parseValue(as, s) (r, err)
  property C21
  modular
  requires type: as != nil && Types()
  ensures pointer: Kind(as) == 22 && !IsTime(as) && !IsDuration(as) ==> Parsed(old(log), log, ElemOf(as), s, r, err)
  ensures scalar: Kind(as) != 22 ==> (err != nil ==> (exists p: reflect.Value :: {Parsed(old(log), log, as, s, p, err)} Parsed(old(log), log, as, s, p, err)))
      && (err == nil ==> (exists p: reflect.Value :: {pure("(reflect.Value).Elem", reflect.Value, p)} Parsed(old(log), log, as, s, p, err) && r == pure("(reflect.Value).Elem", reflect.Value, p)))
  ensures failed: err != nil ==> log == old(log)
  modifies log

# ---- C21: printing ----

extern "(reflect.Value).Kind" pure
extern "(reflect.Value).Bool" pure
extern "(reflect.Value).Int" pure
extern "(reflect.Value).Uint" pure
extern "(reflect.Value).Float" pure
extern "(reflect.Value).String" pure
extern "(time.Time).Format" pure
extern "strconv.FormatInt" pure
extern "strconv.FormatBool" pure
extern "strconv.FormatFloat" pure

define VKind(v: reflect.Value): math = pure("(reflect.Value).Kind", reflect.Kind, v)
define Boxed(l: Log, v: reflect.Value): any = res(l + ev.Interface(v), any)
define Special(x: any): bool = typeis(x, time.Time) || typeis(x, time.Duration) || typeis(x, fmt.Stringer)

func flattenValue(prefix, v, f)
  property C21
  requires sink: f != nil
  # Only scalars: structs, maps and slices are part of the bounded check.
  requires scalar: 1 <= VKind(v) <= 11 || 13 <= VKind(v) <= 14 || VKind(v) == 24 || Special(Boxed(log, v))
  ghost n: math = 0
  ghost key: string = old("")
  ghost text: string = old("")
  on call(g, k: string, s: string): n = n + 1
  on call(g, k: string, s: string): key = k
  on call(g, k: string, s: string): text = s
  ensures time: typeis(Boxed(old(log), v), time.Time) ==> n == 1 && key == prefix && text == pure("(time.Time).Format", string, unbox(Boxed(old(log), v), time.Time), "2006-01-02T15:04:05.999999999Z07:00")
  ensures duration: typeis(Boxed(old(log), v), time.Duration) ==> n == 1 && key == prefix
  ensures bool: !Special(Boxed(old(log), v)) && VKind(v) == 1 ==> n == 1 && key == prefix && text == pure("strconv.FormatBool", string, pure("(reflect.Value).Bool", bool, v))
  ensures int: !Special(Boxed(old(log), v)) && 2 <= VKind(v) <= 6 ==> n == 1 && key == prefix && text == pure("strconv.FormatInt", string, pure("(reflect.Value).Int", int64, v), 10)
  ensures uint: !Special(Boxed(old(log), v)) && 7 <= VKind(v) <= 11 ==> n == 1 && key == prefix && text == fmtuint(pure("(reflect.Value).Uint", uint64, v), 10)
  ensures float: !Special(Boxed(old(log), v)) && 13 <= VKind(v) <= 14 ==> n == 1 && key == prefix && text == pure("strconv.FormatFloat", string, pure("(reflect.Value).Float", float64, v), 102, 0 - 1, 64)
  ensures string: !Special(Boxed(old(log), v)) && VKind(v) == 24 ==> n == 1 && key == prefix && text == pure("(reflect.Value).String", string, v)

# ---- C21: decoding one scalar field ----

extern "(reflect.Value).IsValid" pure
extern "(reflect.Value).Type" pure
extern ".AssignableTo" pure
extern "sort.IsSorted" pure

define TypeOfV(v: reflect.Value): reflect.Type = pure("(reflect.Value).Type", reflect.Type, v)

# The first pair is the field's: its text is parsed as the field's type and set, or, if it
# cannot be, nothing is set.
func unflattenValue(prefix, v, t, kv) (err)
  property C21
  requires types: Types() && t != nil && (forall x: reflect.Value :: {TypeOfV(x)} TypeOfV(x) != nil)
  requires field: kv != nil && len(*kv) > 0 && hasprefix((*kv)[0][0], prefix) && pure("(reflect.Value).IsValid", bool, v)
  requires scalar: 1 <= Kind(t) <= 11 || 13 <= Kind(t) <= 14 || Kind(t) == 24 || typeis(Boxed(log, v), time.Time)
  requires same: Kind(t) == Kind(TypeOfV(v)) && (typeis(Boxed(log, v), time.Time) ==> IsTime(TypeOfV(v)) && Kind(t) == 25)
  requires sorted: pure("sort.IsSorted", bool, iface(*kv, kvsByKey))
  ghost sets: math = 0
  ghost target: reflect.Value = v
  ghost value: reflect.Value = v
  on Set(y, x): sets = sets + 1
  on Set(y, x): target = y
  on Set(y, x): value = x
  ensures failed: err != nil ==> sets == 0
  ensures unparsable: err != nil ==> (exists p: reflect.Value :: {Parsed(old(log) + ev.Interface(v), log, TypeOfV(v), old((*kv)[0][1]), p, err)} Parsed(old(log) + ev.Interface(v), log, TypeOfV(v), old((*kv)[0][1]), p, err))
  ensures set: err == nil && !typeis(Boxed(old(log), v), time.Time) ==> sets == 1 && target == v && log == prev(log) + ev.Set(v, value)
      && (exists p: reflect.Value :: {pure("(reflect.Value).Elem", reflect.Value, p)} Parsed(old(log) + ev.Interface(v), prev(log), TypeOfV(v), old((*kv)[0][1]), p, err) && value == pure("(reflect.Value).Elem", reflect.Value, p))
  ensures time: err == nil && typeis(Boxed(old(log), v), time.Time) ==> (exists p: reflect.Value :: {pure("(reflect.Value).Elem", reflect.Value, p)}
      (let x = pure("(reflect.Value).Elem", reflect.Value, p); ParsedTime(old(log) + ev.Interface(v), old(log) + ev.Interface(v), old((*kv)[0][1]), p, err)
        && (if pure("AssignableTo", bool, TypeOfV(x), TypeOfV(v)) then sets == 1 && target == v && value == x else sets == 0)))
  ensures consumed: err == nil ==> len(*kv) == old(len(*kv)) - 1 && (forall i: math :: {(*kv)[i]} 0 <= i < len(*kv) ==> (*kv)[i] == old((*kv)[i + 1]))
