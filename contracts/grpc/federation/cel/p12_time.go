package cel

import (
	"time"

	"github.com/google/cel-go/cel"
	"github.com/google/cel-go/common/types"
	"github.com/google/cel-go/common/types/ref"
	"google.golang.org/protobuf/types/known/timestamppb"

	"github.com/mercari/grpc-federation/zzvrt"
)

//verif:model github.com/google/cel-go/cel.FunctionBinding
func zzBinding12(b func(...ref.Val) ref.Val) cel.OverloadOpt { zzImpl = b; return nil }

//verif:model github.com/google/cel-go/cel.Overload
func zzOverload12(id string, args []*cel.Type, result *cel.Type, opts ...cel.OverloadOpt) cel.FunctionOpt {
	zzPend = append(zzPend, &zzOver{id: id, args: args, result: result, impl: zzImpl})
	return nil
}

//verif:model github.com/google/cel-go/cel.MemberOverload
func zzMemberOverload12(id string, args []*cel.Type, result *cel.Type, opts ...cel.OverloadOpt) cel.FunctionOpt {
	zzPend = append(zzPend, &zzOver{id: id, args: args, result: result, impl: zzImpl, member: true})
	return nil
}

//verif:model github.com/google/cel-go/cel.Function
func zzFunction12(name string, opts ...cel.FunctionOpt) cel.EnvOption {
	zzDecls[name] = append(zzDecls[name], zzPend...)
	zzPend = nil
	return nil
}

//verif:model github.com/google/cel-go/cel.Constant
func zzConstant12(name string, t *types.Type, v ref.Val) cel.EnvOption {
	zzConst[name] = v
	return nil
}

const (
	zzTimeName = "grpc.federation.time.Time"
	zzLocName  = "grpc.federation.time.Location"
)

func zzLocation(name string) *Location {
	if !zzvrt.Native() {
		return &Location{Name: zzvrt.String(name), Offset: zzvrt.Int64(name + " offset")}
	}
	pool := []*Location{{}, nil, {Name: "UTC"}, {Name: "Local"}, {Name: "Asia/Tokyo"}, {Name: "America/New_York"}, {Name: "JST", Offset: 32400}, {Name: "", Offset: -3600}, {Name: "X", Offset: 1}, {Name: "nowhere"}, {Name: "UTC", Offset: 7200}, {Name: "Asia/Tokyo", Offset: -60}}
	return pool[zzvrt.Choice(name, len(pool))]
}

func zzStamp(name string) *timestamppb.Timestamp {
	if zzvrt.Native() {
		k := zzvrt.Choice(name+" kind", 4)
		if k == 0 {
			return nil
		}
		if k == 1 {
			return &timestamppb.Timestamp{Seconds: int64(zzvrt.Choice(name+" s", 5)), Nanos: int32(zzvrt.Choice(name+" n", 3))}
		}
		return &timestamppb.Timestamp{Seconds: int64(zzvrt.Uint32(name+" hi"))*4 - 7000000000, Nanos: int32(zzvrt.Uint32(name+" lo") % 1000000000)}
	}
	return &timestamppb.Timestamp{Seconds: zzvrt.Int64(name + " s"), Nanos: zzvrt.Int32(name + " n")}
}

func zzTime(name string) *Time {
	return &Time{Timestamp: zzStamp(name), Loc: zzLocation(name + " loc")}
}

func zzTimeVal(t *Time) ref.Val { return &zzObj{name: zzTimeName, v: t} }

func zzLocVal(l *Location) ref.Val { return &zzObj{name: zzLocName, v: l} }

func zzSameStamp(a, b *timestamppb.Timestamp) bool {
	if zzvrt.Native() {
		return a.GetSeconds() == b.GetSeconds() && a.GetNanos() == b.GetNanos()
	}
	return a == b
}

// zzIsTime: v is the instant, zone name and zone offset of want.
func zzIsTime(v ref.Val, want time.Time) bool {
	o, ok := v.(*zzObj)
	if !ok {
		return false
	}
	m, ok := o.v.(*Time)
	if !ok || m == nil {
		return false
	}
	name, offset := want.Zone()
	return zzSameStamp(m.Timestamp, timestamppb.New(want)) && m.Loc != nil && m.Loc.Name == name && m.Loc.Offset == int64(offset)
}

func zzIsLoc(v ref.Val, name string, offset int64) bool {
	o, ok := v.(*zzObj)
	if !ok {
		return false
	}
	m, ok := o.v.(*Location)
	return ok && m != nil && m.Name == name && m.Offset == offset
}

func zzIsDuration(v ref.Val, want time.Duration) bool {
	d, ok := v.(types.Duration)
	return ok && d.Duration == want
}

func zzDur(name string) time.Duration {
	if zzvrt.Native() {
		switch zzvrt.Choice(name+" kind", 4) {
		case 0:
			return time.Duration(zzvrt.Choice(name, 7)) - 3
		case 1:
			return time.Duration(zzvrt.Int32(name)) * time.Second
		}
	}
	return time.Duration(zzvrt.Int64(name))
}

func zzSameTime(a, b time.Time) bool {
	if !zzvrt.Native() {
		return a == b
	}
	n, o := a.Zone()
	m, p := b.Zone()
	return a.Equal(b) && n == m && o == p
}

func zzTimeLib() *zzLib { return zzOpen(TimePackageName, NewTimeLibrary(zzAdapter{})) }

//verif:property P12
//verif:title constants of the time package
func contract_time_constants() {
	l := zzTimeLib()
	zzvrt.Ensures("LAYOUT", zzIsString(l.constant("LAYOUT"), time.Layout))
	zzvrt.Ensures("ANSIC", zzIsString(l.constant("ANSIC"), time.ANSIC))
	zzvrt.Ensures("UNIX_DATE", zzIsString(l.constant("UNIX_DATE"), time.UnixDate))
	zzvrt.Ensures("RUBY_DATE", zzIsString(l.constant("RUBY_DATE"), time.RubyDate))
	zzvrt.Ensures("RFC822", zzIsString(l.constant("RFC822"), time.RFC822))
	zzvrt.Ensures("RFC822Z", zzIsString(l.constant("RFC822Z"), time.RFC822Z))
	zzvrt.Ensures("RFC850", zzIsString(l.constant("RFC850"), time.RFC850))
	zzvrt.Ensures("RFC1123", zzIsString(l.constant("RFC1123"), time.RFC1123))
	zzvrt.Ensures("RFC1123Z", zzIsString(l.constant("RFC1123Z"), time.RFC1123Z))
	zzvrt.Ensures("RFC3339", zzIsString(l.constant("RFC3339"), time.RFC3339))
	zzvrt.Ensures("RFC3339NANO", zzIsString(l.constant("RFC3339NANO"), time.RFC3339Nano))
	zzvrt.Ensures("KITCHEN", zzIsString(l.constant("KITCHEN"), time.Kitchen))
	zzvrt.Ensures("STAMP", zzIsString(l.constant("STAMP"), time.Stamp))
	zzvrt.Ensures("STAMP_MILLI", zzIsString(l.constant("STAMP_MILLI"), time.StampMilli))
	zzvrt.Ensures("STAMP_MICRO", zzIsString(l.constant("STAMP_MICRO"), time.StampMicro))
	zzvrt.Ensures("STAMP_NANO", zzIsString(l.constant("STAMP_NANO"), time.StampNano))
	zzvrt.Ensures("DATETIME", zzIsString(l.constant("DATETIME"), time.DateTime))
	zzvrt.Ensures("DATE_ONLY", zzIsString(l.constant("DATE_ONLY"), time.DateOnly))
	zzvrt.Ensures("TIME_ONLY", zzIsString(l.constant("TIME_ONLY"), time.TimeOnly))
	zzvrt.Ensures("NANOSECOND", zzIsInt(l.constant("NANOSECOND"), int64(time.Nanosecond)))
	zzvrt.Ensures("MICROSECOND", zzIsInt(l.constant("MICROSECOND"), int64(time.Microsecond)))
	zzvrt.Ensures("MILLISECOND", zzIsInt(l.constant("MILLISECOND"), int64(time.Millisecond)))
	zzvrt.Ensures("SECOND", zzIsInt(l.constant("SECOND"), int64(time.Second)))
	zzvrt.Ensures("MINUTE", zzIsInt(l.constant("MINUTE"), int64(time.Minute)))
	zzvrt.Ensures("HOUR", zzIsInt(l.constant("HOUR"), int64(time.Hour)))
}

//verif:property P12
//verif:title a Go time keeps its instant, zone name and offset
func contract_time_to_value() {
	lib := NewTimeLibrary(zzAdapter{})
	g, err := zzTime("t").GoTime()
	zzvrt.Requires(err == nil)
	zzvrt.Ensures("instant, zone name and offset", zzIsTime(lib.toTimeValue(g), g))
}

//verif:property P12
//verif:title a CEL time is its instant in its location
func contract_time_from_value() {
	t := zzTime("t")
	g, err := t.GoTime()
	loc, lerr := t.GetLoc().GoLocation()
	zzvrt.Ensures("an unknown location is reported", (err != nil) == (lerr != nil))
	if err == nil {
		want := t.GetTimestamp().AsTime().In(loc)
		zzvrt.Ensures("the instant in the location", zzSameTime(g, want))
	}
	got, err := NewTimeLibrary(zzAdapter{}).refToGoTimeValue(zzTimeVal(t))
	zzvrt.Ensures("decoding a time argument", (err != nil) == (lerr != nil) && (err != nil || zzSameTime(got, g)))
}

//verif:property P12
//verif:title a location with an offset is a fixed zone, one without is looked up by name
func contract_location() {
	l := zzLocation("l")
	g, err := l.GoLocation()
	if l.GetOffset() != 0 {
		w := time.FixedZone(l.GetName(), int(l.GetOffset()))
		zzvrt.Ensures("fixed zone", err == nil && (!zzvrt.Native() && g == w || zzvrt.Native() && g.String() == w.String()))
		if zzvrt.Native() {
			_, o := time.Unix(0, 0).In(g).Zone()
			zzvrt.Ensures("fixed zone offset", int64(o) == l.GetOffset())
		}
		return
	}
	w, werr := time.LoadLocation(l.GetName())
	zzvrt.Ensures("an unknown name is reported", (err != nil) == (werr != nil))
	zzvrt.Ensures("looked up", err != nil || g == w || zzvrt.Native() && g.String() == w.String())
}

//verif:property P12
//verif:title a time with a zone offset survives the round trip
//verif:bounded
func contract_time_roundtrip() {
	if !zzvrt.Native() {
		return
	}
	lib := NewTimeLibrary(zzAdapter{})
	zones := []string{"UTC", "Asia/Tokyo", "America/New_York", "Europe/London", "Asia/Kolkata", "Australia/Lord_Howe", "Pacific/Apia", "GMT", "Africa/Abidjan", ""}
	z := zzvrt.Choice("zone", len(zones)+1)
	var loc *time.Location
	if z == len(zones) {
		loc = time.FixedZone(zzvrt.String("name"), 1+zzvrt.Choice("offset", 50000))
	} else {
		loc, _ = time.LoadLocation(zones[z])
	}
	g := zzStamp("t").AsTime().In(loc)
	_, off := g.Zone()
	back, err := lib.refToGoTimeValue(lib.toTimeValue(g))
	zzvrt.Ensures("the same instant", err == nil && back.Equal(g))
	if err == nil {
		_, o := back.Zone()
		zzvrt.Ensures("the same offset", o == off)
	}
}

//verif:property P12
//verif:title a time in a zone without offset survives the round trip whatever the zone is called
//verif:bounded
func contract_time_roundtrip_zero() {
	if !zzvrt.Native() {
		return
	}
	lib := NewTimeLibrary(zzAdapter{})
	g := zzStamp("t").AsTime().In(time.FixedZone([]string{"X", "+00"}[zzvrt.Choice("name", 2)], 0))
	back, err := lib.refToGoTimeValue(lib.toTimeValue(g))
	zzvrt.Ensures("the same instant", err == nil && back.Equal(g))
}

//verif:property P12
//verif:title a location loaded from tz data keeps its rules
//verif:bounded
func contract_time_tzdata() {
	if !zzvrt.Native() {
		return
	}
	v := zzTimeLib().call("loadLocationFromTZData", types.String("zz/custom"), types.Bytes(zzTZData))
	o, ok := v.(*zzObj)
	zzvrt.Ensures("loaded", ok)
	if ok {
		_, err := o.v.(*Location).GoLocation()
		zzvrt.Ensures("usable", err == nil)
	}
}

// zzTZData describes a zone without transitions at UTC+1.
var zzTZData = []byte("TZif\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01\x00\x00\x00\x04\x00\x00\x0e\x10\x00\x00ABC\x00")

//verif:property P12
//verif:title now, since and until use the current time
//verif:bounded
func contract_time_now() {
	if !zzvrt.Native() {
		return
	}
	l := zzTimeLib()
	t := zzTime("t")
	g, err := t.GoTime()
	a := time.Now()
	n, _ := l.call("now").(*zzObj)
	s := l.call("since", zzTimeVal(t))
	u := l.call("until", zzTimeVal(t))
	b := time.Now()
	x, xerr := n.v.(*Time).GoTime()
	zzvrt.Ensures("now", xerr == nil && !x.Before(a.Truncate(1)) && !x.After(b))
	ds, ok := s.(types.Duration)
	zzvrt.Ensures("since", zzErrOr(s, err, ok && ds.Duration >= a.Sub(g) && ds.Duration <= b.Sub(g)))
	du, ok := u.(types.Duration)
	zzvrt.Ensures("until", zzErrOr(u, err, ok && du.Duration <= g.Sub(a) && du.Duration >= g.Sub(b)))
}

//verif:property P12
//verif:title durations
func contract_durations() {
	l := zzTimeLib()
	d, m := zzDur("d"), zzDur("m")
	s := "1h2m3.5s"
	if zzvrt.Native() {
		s = []string{"1h2m3.5s", "-3ms", "0", "", "x", "9999999999h", "1us", "5"}[zzvrt.Choice("text", 8)]
	} else {
		s = zzvrt.String("text")
	}
	dv := types.Duration{Duration: d}
	mv := types.Duration{Duration: m}
	p, perr := time.ParseDuration(s)
	pv := l.call("parseDuration", types.String(s))
	zzvrt.Ensures("parseDuration", zzErrOr(pv, perr, zzIsDuration(pv, p)))
	zzvrt.Ensures("toDuration", zzIsDuration(l.call("toDuration", types.Int(d)), d))
	zzvrt.Ensures("abs", zzIsDuration(l.member("abs", dv), d.Abs()))
	zzvrt.Ensures("hours", zzIsDouble(l.member("hours", dv), d.Hours()))
	zzvrt.Ensures("minutes", zzIsDouble(l.member("minutes", dv), d.Minutes()))
	zzvrt.Ensures("seconds", zzIsDouble(l.member("seconds", dv), d.Seconds()))
	zzvrt.Ensures("milliseconds", zzIsInt(l.member("milliseconds", dv), d.Milliseconds()))
	zzvrt.Ensures("microseconds", zzIsInt(l.member("microseconds", dv), d.Microseconds()))
	zzvrt.Ensures("nanoseconds", zzIsInt(l.member("nanoseconds", dv), d.Nanoseconds()))
	zzvrt.Ensures("string", zzIsString(l.member("string", dv), d.String()))
	zzvrt.Ensures("round by a number", zzIsDuration(l.member("round", dv, types.Int(m)), d.Round(m)))
	zzvrt.Ensures("round by a duration", zzIsDuration(l.member("round", dv, mv), d.Round(m)))
	zzvrt.Ensures("truncate by a number", zzIsDuration(l.member("truncate", dv, types.Int(m)), d.Truncate(m)))
	zzvrt.Ensures("truncate by a duration", zzIsDuration(l.member("truncate", dv, mv), d.Truncate(m)))
}

//verif:property P12
//verif:title locations
func contract_locations() {
	l := zzTimeLib()
	zzvrt.Ensures("LOCAL", zzIsLoc(l.call("LOCAL"), time.Local.String(), 0))
	zzvrt.Ensures("UTC", zzIsLoc(l.call("UTC"), time.UTC.String(), 0))
	name, off := zzvrt.String("name"), zzvrt.Int64("off")
	if zzvrt.Native() {
		name = []string{"UTC", "", "Asia/Tokyo", "nowhere", "EST", "X"}[zzvrt.Choice("name", 6)]
	}
	f := zzvrt.Float64("f")
	zzvrt.Ensures("fixedZone", zzIsLoc(l.call("fixedZone", types.String(name), types.Int(off)), name, off))
	zzvrt.Ensures("fixedZone with a double", zzIsLoc(l.call("fixedZone", types.String(name), types.Double(f)), name, int64(int(f))))
	g, err := time.LoadLocation(name)
	v := l.call("loadLocation", types.String(name))
	zzvrt.Ensures("loadLocation", zzErrOr(v, err, err == nil && zzIsLoc(v, g.String(), 0)))
	x := zzLocation("l")
	gx, xerr := x.GoLocation()
	sv := l.member("string", zzLocVal(x))
	zzvrt.Ensures("string", zzErrOr(sv, xerr, xerr == nil && zzIsString(sv, gx.String())))
	data := zzvrt.Bytes("data")
	if zzvrt.Native() && zzvrt.Bool("good") {
		data = zzTZData
	}
	tz, terr := time.LoadLocationFromTZData(name, data)
	tv := l.call("loadLocationFromTZData", types.String(name), types.Bytes(data))
	zzvrt.Ensures("loadLocationFromTZData", zzErrOr(tv, terr, terr == nil && zzIsLoc(tv, tz.String(), 0)))
}

//verif:property P12
//verif:title making times
func contract_times_made() {
	l := zzTimeLib()
	a, b := zzvrt.Int64("a"), zzvrt.Int64("b")
	if zzvrt.Native() {
		a, b = int64(zzvrt.Int32("a")), int64(zzvrt.Int32("b"))
	}
	zzvrt.Ensures("unix", zzIsTime(l.call("unix", types.Int(a), types.Int(b)), time.Unix(a, b)))
	zzvrt.Ensures("unixMicro", zzIsTime(l.call("unixMicro", types.Int(a)), time.UnixMicro(a)))
	zzvrt.Ensures("unixMilli", zzIsTime(l.call("unixMilli", types.Int(a)), time.UnixMilli(a)))
	zzvrt.Ensures("asTime", zzIsTime(l.member("asTime", types.Timestamp{Time: time.Unix(a, b)}), time.Unix(a, b)))
	layout, text := zzvrt.String("layout"), zzvrt.String("text")
	if zzvrt.Native() {
		layout = []string{time.RFC3339, time.DateTime, time.RFC822Z, "", "x"}[zzvrt.Choice("layout", 5)]
		text = []string{"2024-02-29T10:11:12+09:00", "2024-02-30T10:11:12Z", "2021-12-31 23:59:59", "", "x", "02 Jan 06 15:04 -0700"}[zzvrt.Choice("text", 6)]
	}
	t, err := time.Parse(layout, text)
	v := l.call("parse", types.String(layout), types.String(text))
	zzvrt.Ensures("parse", zzErrOr(v, err, zzIsTime(v, t)))
	loc := zzLocation("loc")
	g, gerr := loc.GoLocation()
	v = l.call("parseInLocation", types.String(layout), types.String(text), zzLocVal(loc))
	if gerr != nil {
		zzvrt.Ensures("parseInLocation with an unknown location", zzErrOr(v, gerr, true))
		return
	}
	t, err = time.ParseInLocation(layout, text, g)
	zzvrt.Ensures("parseInLocation", zzErrOr(v, err, zzIsTime(v, t)))
}

//verif:property P12
//verif:title date
func contract_time_date() {
	l := zzTimeLib()
	var n [7]int
	for i := 0; i < 7; i++ {
		n[i] = zzvrt.Int("n", i)
		if zzvrt.Native() {
			n[i] = zzvrt.Choice("n", []int{3000, 14, 33, 26, 62, 62, 1000000001}[i], i) - 1
		}
	}
	loc := zzLocation("loc")
	g, gerr := loc.GoLocation()
	v := l.call("date", types.Int(n[0]), types.Int(n[1]), types.Int(n[2]), types.Int(n[3]), types.Int(n[4]), types.Int(n[5]), types.Int(n[6]), zzLocVal(loc))
	if gerr != nil {
		zzvrt.Ensures("date with an unknown location", zzErrOr(v, gerr, true))
		return
	}
	zzvrt.Ensures("date", zzIsTime(v, time.Date(n[0], time.Month(n[1]), n[2], n[3], n[4], n[5], n[6], g)))
}

//verif:property P12
//verif:title parts of a time
func contract_time_parts() {
	l := zzTimeLib()
	t := zzTime("t")
	tv := zzTimeVal(t)
	g, err := t.GoTime()
	var v ref.Val
	v = l.member("day", tv)
	zzvrt.Ensures("day", zzErrOr(v, err, zzIsInt(v, int64(g.Day()))))
	v = l.member("hour", tv)
	zzvrt.Ensures("hour", zzErrOr(v, err, zzIsInt(v, int64(g.Hour()))))
	v = l.member("minute", tv)
	zzvrt.Ensures("minute", zzErrOr(v, err, zzIsInt(v, int64(g.Minute()))))
	v = l.member("month", tv)
	zzvrt.Ensures("month", zzErrOr(v, err, zzIsInt(v, int64(g.Month()))))
	v = l.member("nanosecond", tv)
	zzvrt.Ensures("nanosecond", zzErrOr(v, err, zzIsInt(v, int64(g.Nanosecond()))))
	v = l.member("second", tv)
	zzvrt.Ensures("second", zzErrOr(v, err, zzIsInt(v, int64(g.Second()))))
	v = l.member("weekday", tv)
	zzvrt.Ensures("weekday", zzErrOr(v, err, zzIsInt(v, int64(g.Weekday()))))
	v = l.member("year", tv)
	zzvrt.Ensures("year", zzErrOr(v, err, zzIsInt(v, int64(g.Year()))))
	v = l.member("yearDay", tv)
	zzvrt.Ensures("yearDay", zzErrOr(v, err, zzIsInt(v, int64(g.YearDay()))))
	v = l.member("unix", tv)
	zzvrt.Ensures("unix", zzErrOr(v, err, zzIsInt(v, int64(g.Unix()))))
	v = l.member("unixMicro", tv)
	zzvrt.Ensures("unixMicro", zzErrOr(v, err, zzIsInt(v, int64(g.UnixMicro()))))
	v = l.member("unixMilli", tv)
	zzvrt.Ensures("unixMilli", zzErrOr(v, err, zzIsInt(v, int64(g.UnixMilli()))))
	v = l.member("unixNano", tv)
	zzvrt.Ensures("unixNano", zzErrOr(v, err, zzIsInt(v, int64(g.UnixNano()))))
}

//verif:property P12
//verif:title text of a time
func contract_time_text() {
	l := zzTimeLib()
	t := zzTime("t")
	tv := zzTimeVal(t)
	g, err := t.GoTime()
	layout, text := zzvrt.String("layout"), zzvrt.String("text")
	if zzvrt.Native() {
		layout = []string{time.RFC3339Nano, time.DateTime, time.RFC822Z, "", "x"}[zzvrt.Choice("layout", 5)]
	}
	x := []byte(text)
	if zzvrt.Native() {
		x = append(make([]byte, 0, len(text)+100), text...)
	}
	var v ref.Val
	v = l.member("format", tv, types.String(layout))
	zzvrt.Ensures("format", zzErrOr(v, err, zzIsString(v, g.Format(layout))))
	v = l.member("string", tv)
	zzvrt.Ensures("string", zzErrOr(v, err, zzIsString(v, g.String())))
	v = l.member("appendFormat", tv, types.String(text), types.String(layout))
	zzvrt.Ensures("appendFormat to a string", zzErrOr(v, err, zzIsBytes(v, g.AppendFormat([]byte(text), layout))))
	v = l.member("appendFormat", tv, types.Bytes(x), types.String(layout))
	zzvrt.Ensures("appendFormat to bytes", zzErrOr(v, err, zzIsBytes(v, g.AppendFormat([]byte(text), layout))))
	v = l.member("isDST", tv)
	zzvrt.Ensures("isDST", zzErrOr(v, err, zzIsBool(v, g.IsDST())))
	v = l.member("isZero", tv)
	zzvrt.Ensures("isZero", zzErrOr(v, err, zzIsBool(v, g.IsZero())))
	if zzvrt.Native() {
		for _, c := range x[len(x):cap(x)] {
			zzvrt.Ensures("the argument's memory is not written", c == 0)
		}
	}
}

//verif:property P12
//verif:title arithmetic on a time
func contract_time_arith() {
	l := zzTimeLib()
	t := zzTime("t")
	tv := zzTimeVal(t)
	g, err := t.GoTime()
	d := zzDur("d")
	y, mo, da := zzvrt.Int("y"), zzvrt.Int("mo"), zzvrt.Int("da")
	if zzvrt.Native() {
		y, mo, da = zzvrt.Choice("y", 20)-10, zzvrt.Choice("mo", 40)-20, zzvrt.Choice("da", 80)-40
	}
	name, offset := g.Zone()
	var v ref.Val
	v = l.member("add", tv, types.Int(d))
	zzvrt.Ensures("add a number", zzErrOr(v, err, zzIsTime(v, g.Add(d))))
	v = l.member("add", tv, types.Duration{Duration: d})
	zzvrt.Ensures("add a duration", zzErrOr(v, err, zzIsTime(v, g.Add(d))))
	v = l.member("addDate", tv, types.Int(y), types.Int(mo), types.Int(da))
	zzvrt.Ensures("addDate", zzErrOr(v, err, zzIsTime(v, g.AddDate(y, mo, da))))
	v = l.member("round", tv, types.Int(d))
	zzvrt.Ensures("round by a number", zzErrOr(v, err, zzIsTime(v, g.Round(d))))
	v = l.member("round", tv, types.Duration{Duration: d})
	zzvrt.Ensures("round by a duration", zzErrOr(v, err, zzIsTime(v, g.Round(d))))
	v = l.member("truncate", tv, types.Int(d))
	zzvrt.Ensures("truncate by a number", zzErrOr(v, err, zzIsTime(v, g.Truncate(d))))
	v = l.member("truncate", tv, types.Duration{Duration: d})
	zzvrt.Ensures("truncate by a duration", zzErrOr(v, err, zzIsTime(v, g.Truncate(d))))
	v = l.member("local", tv)
	zzvrt.Ensures("local", zzErrOr(v, err, zzIsTime(v, g.Local())))
	v = l.member("utc", tv)
	zzvrt.Ensures("utc", zzErrOr(v, err, zzIsTime(v, g.UTC())))
	v = l.member("location", tv)
	zzvrt.Ensures("location", zzErrOr(v, err, zzIsLoc(v, name, int64(offset))))
}

//verif:property P12
//verif:title comparing times
func contract_time_order() {
	l := zzTimeLib()
	t, u := zzTime("t"), zzTime("u")
	if zzvrt.Native() && zzvrt.Bool("same instant") {
		u.Timestamp = t.Timestamp
	}
	tv, uv := zzTimeVal(t), zzTimeVal(u)
	g, err := t.GoTime()
	h, herr := u.GoTime()
	if err == nil {
		err = herr
	}
	var v ref.Val
	v = l.member("after", tv, uv)
	zzvrt.Ensures("after", zzErrOr(v, err, zzIsBool(v, g.After(h))))
	v = l.member("before", tv, uv)
	zzvrt.Ensures("before", zzErrOr(v, err, zzIsBool(v, g.Before(h))))
	v = l.member("compare", tv, uv)
	zzvrt.Ensures("compare", zzErrOr(v, err, zzIsInt(v, int64(g.Compare(h)))))
	v = l.member("equal", tv, uv)
	zzvrt.Ensures("equal", zzErrOr(v, err, zzIsBool(v, g.Equal(h))))
	v = l.member("sub", tv, uv)
	zzvrt.Ensures("sub", zzErrOr(v, err, zzIsDuration(v, g.Sub(h))))
}

//verif:property P12
//verif:title a time in another location
func contract_time_with_location() {
	l := zzTimeLib()
	t, loc := zzTime("t"), zzLocation("loc")
	g, err := t.GoTime()
	x, xerr := loc.GoLocation()
	v := l.member("withLocation", zzTimeVal(t), zzLocVal(loc))
	if err != nil || xerr != nil {
		_, isErr := v.(*types.Err)
		zzvrt.Ensures("an unknown location is reported", isErr)
		return
	}
	zzvrt.Ensures("withLocation", zzIsTime(v, g.In(x)))
}
