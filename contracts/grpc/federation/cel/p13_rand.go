package cel

import (
	"bytes"
	"context"
	"math/rand"

	"github.com/google/cel-go/cel"
	"github.com/google/cel-go/common/types"
	"github.com/google/cel-go/common/types/ref"
	"github.com/google/cel-go/common/types/traits"
	"github.com/google/uuid"
	"google.golang.org/grpc/metadata"

	"github.com/mercari/grpc-federation/zzvrt"
)

//verif:model github.com/google/cel-go/cel.FunctionBinding
func zzBinding13r(b func(...ref.Val) ref.Val) cel.OverloadOpt { zzImpl = b; return nil }

//verif:model github.com/google/cel-go/cel.Overload
func zzOverload13r(id string, args []*cel.Type, result *cel.Type, opts ...cel.OverloadOpt) cel.FunctionOpt {
	zzPend = append(zzPend, &zzOver{id: id, args: args, result: result, impl: zzImpl})
	return nil
}

//verif:model github.com/google/cel-go/cel.MemberOverload
func zzMemberOverload13r(id string, args []*cel.Type, result *cel.Type, opts ...cel.OverloadOpt) cel.FunctionOpt {
	zzPend = append(zzPend, &zzOver{id: id, args: args, result: result, impl: zzImpl, member: true})
	return nil
}

//verif:model github.com/google/cel-go/cel.Function
func zzFunction13r(name string, opts ...cel.FunctionOpt) cel.EnvOption {
	zzDecls[name] = append(zzDecls[name], zzPend...)
	zzPend = nil
	return nil
}

// The draws from a generator, in order: which generator, which operation, with
// which argument. The numbers drawn are arbitrary, in the documented ranges.
type zzDraw struct {
	r  *rand.Rand
	op string
	n  int64
}

var zzDraws []zzDraw

func zzDrew(r *rand.Rand, op string, n int64) { zzDraws = append(zzDraws, zzDraw{r, op, n}) }

// zzOne: exactly one number was drawn, from r, by the operation op.
func zzOne(r *rand.Rand, op string, n int64) bool {
	ok := len(zzDraws) == 1 && zzDraws[0].r == r && zzDraws[0].op == op && zzDraws[0].n == n
	zzDraws = nil
	return ok
}

//verif:model (*math/rand.Rand).ExpFloat64
func zzExpFloat64(r *rand.Rand) float64 {
	zzDrew(r, "ExpFloat64", 0)
	return zzvrt.Float64("drawn exp")
}

//verif:model (*math/rand.Rand).NormFloat64
func zzNormFloat64(r *rand.Rand) float64 {
	zzDrew(r, "NormFloat64", 0)
	return zzvrt.Float64("drawn norm")
}

//verif:model (*math/rand.Rand).Float64
func zzFloat64(r *rand.Rand) float64 { zzDrew(r, "Float64", 0); return zzvrt.Float64("drawn float64") }

//verif:model (*math/rand.Rand).Float32
func zzFloat32(r *rand.Rand) float32 {
	zzDrew(r, "Float32", 0)
	return float32(zzvrt.Float64("drawn float32"))
}

//verif:model (*math/rand.Rand).Int
func zzInt(r *rand.Rand) int { zzDrew(r, "Int", 0); return int(zzvrt.Int64("drawn int")) }

//verif:model (*math/rand.Rand).Int31
func zzInt31(r *rand.Rand) int32 { zzDrew(r, "Int31", 0); return zzvrt.Int32("drawn int31") }

//verif:model (*math/rand.Rand).Int63
func zzInt63(r *rand.Rand) int64 { zzDrew(r, "Int63", 0); return zzvrt.Int64("drawn int63") }

//verif:model (*math/rand.Rand).Uint32
func zzUint32(r *rand.Rand) uint32 { zzDrew(r, "Uint32", 0); return zzvrt.Uint32("drawn uint32") }

//verif:model (*math/rand.Rand).Int31n
func zzInt31n(r *rand.Rand, n int32) int32 {
	if n <= 0 {
		panic("invalid argument to Int31n")
	}
	zzDrew(r, "Int31n", int64(n))
	return zzvrt.Int32("drawn int31n")
}

//verif:model (*math/rand.Rand).Int63n
func zzInt63n(r *rand.Rand, n int64) int64 {
	if n <= 0 {
		panic("invalid argument to Int63n")
	}
	zzDrew(r, "Int63n", n)
	return zzvrt.Int64("drawn int63n")
}

//verif:model (*math/rand.Rand).Intn
func zzIntn(r *rand.Rand, n int) int {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	zzDrew(r, "Intn", int64(n))
	return int(zzvrt.Int64("drawn intn"))
}

//verif:model (*math/rand.Rand).Seed
func zzSeed(r *rand.Rand, n int64) { zzDrew(r, "Seed", n) }

var zzNewFrom rand.Source

//verif:model math/rand.New
func zzNew(s rand.Source) *rand.Rand { zzNewFrom = s; return nil }

type zzSource struct{ seed int64 }

func (s *zzSource) Int63() int64 {
	zzDrew(nil, "Source.Int63", s.seed)
	return zzvrt.Int64("drawn source")
}
func (s *zzSource) Seed(n int64) { s.seed = n }

//verif:model math/rand.NewSource
func zzNewSource(n int64) rand.Source { return &zzSource{seed: n} }

func zzSeedOf(name string) int64 {
	if zzvrt.Native() && zzvrt.Bool(name+" small") {
		return int64(zzvrt.Choice(name, 9)) - 4
	}
	return zzvrt.Int64(name)
}

func zzRandLib() *zzLib { return zzOpen(RandPackageName, &RandLibrary{}) }

// zzRand gives a generator and another one in the same state.
func zzRand(seed int64) (*Rand, *rand.Rand) {
	if !zzvrt.Native() {
		r := &rand.Rand{}
		return &Rand{Rand: r}, r
	}
	return &Rand{Rand: rand.New(rand.NewSource(seed))}, rand.New(rand.NewSource(seed))
}

//verif:property P13
//verif:title numbers drawn from a generator
func contract_rand_draws() {
	l := zzRandLib()
	v, r := zzRand(zzSeedOf("seed"))
	var x ref.Val
	zzDraws = nil
	if zzvrt.Native() {
		for i := 0; i < 3; i++ {
			zzvrt.Ensures("expFloat64", zzIsDouble(l.member("expFloat64", v), r.ExpFloat64()))
			zzvrt.Ensures("normFloat64", zzIsDouble(l.member("normFloat64", v), r.NormFloat64()))
			zzvrt.Ensures("float32", zzIsDouble(l.member("float32", v), float64(r.Float32())))
			zzvrt.Ensures("float64", zzIsDouble(l.member("float64", v), r.Float64()))
			zzvrt.Ensures("int", zzIsInt(l.member("int", v), int64(r.Int())))
			zzvrt.Ensures("int31", zzIsInt(l.member("int31", v), int64(r.Int31())))
			zzvrt.Ensures("int63", zzIsInt(l.member("int63", v), r.Int63()))
			zzvrt.Ensures("uint32", zzIsUint(l.member("uint32", v), uint64(r.Uint32())))
		}
		return
	}
	x = l.member("expFloat64", v)
	zzvrt.Ensures("expFloat64", zzOne(r, "ExpFloat64", 0) && zzIsDouble(x, zzvrt.Float64("drawn exp")))
	x = l.member("normFloat64", v)
	zzvrt.Ensures("normFloat64", zzOne(r, "NormFloat64", 0) && zzIsDouble(x, zzvrt.Float64("drawn norm")))
	x = l.member("float32", v)
	zzvrt.Ensures("float32", zzOne(r, "Float32", 0) && zzIsDouble(x, float64(float32(zzvrt.Float64("drawn float32")))))
	x = l.member("float64", v)
	zzvrt.Ensures("float64", zzOne(r, "Float64", 0) && zzIsDouble(x, zzvrt.Float64("drawn float64")))
	x = l.member("int", v)
	zzvrt.Ensures("int", zzOne(r, "Int", 0) && zzIsInt(x, zzvrt.Int64("drawn int")))
	x = l.member("int31", v)
	zzvrt.Ensures("int31", zzOne(r, "Int31", 0) && zzIsInt(x, int64(zzvrt.Int32("drawn int31"))))
	x = l.member("int63", v)
	zzvrt.Ensures("int63", zzOne(r, "Int63", 0) && zzIsInt(x, zzvrt.Int64("drawn int63")))
	x = l.member("uint32", v)
	zzvrt.Ensures("uint32", zzOne(r, "Uint32", 0) && zzIsUint(x, uint64(zzvrt.Uint32("drawn uint32"))))
}

//verif:property P13
//verif:title numbers below a bound drawn from a generator
func contract_rand_draws_below() {
	l := zzRandLib()
	v, r := zzRand(zzSeedOf("seed"))
	n := zzSeedOf("n")
	zzvrt.Requires(n > 0)
	m := zzvrt.Int32("m")
	if zzvrt.Native() && m <= 0 {
		m = 1 + m&7
	}
	zzvrt.Requires(m > 0)
	var x ref.Val
	zzDraws = nil
	if zzvrt.Native() {
		for i := 0; i < 3; i++ {
			zzvrt.Ensures("intn", zzIsInt(l.member("intn", v, types.Int(n)), int64(r.Intn(int(n)))))
			zzvrt.Ensures("int63n", zzIsInt(l.member("int63n", v, types.Int(n)), r.Int63n(n)))
			zzvrt.Ensures("int31n", zzIsInt(l.member("int31n", v, types.Int(m)), int64(r.Int31n(m))))
		}
		return
	}
	x = l.member("intn", v, types.Int(n))
	zzvrt.Ensures("intn", zzOne(r, "Intn", n) && zzIsInt(x, zzvrt.Int64("drawn intn")))
	x = l.member("int63n", v, types.Int(n))
	zzvrt.Ensures("int63n", zzOne(r, "Int63n", n) && zzIsInt(x, zzvrt.Int64("drawn int63n")))
	x = l.member("int31n", v, types.Int(m))
	zzvrt.Ensures("int31n", zzOne(r, "Int31n", int64(m)) && zzIsInt(x, int64(zzvrt.Int32("drawn int31n"))))
}

//verif:property P13
//verif:title seeding a generator
func contract_rand_seed() {
	l := zzRandLib()
	v, r := zzRand(zzSeedOf("seed"))
	n := zzSeedOf("n")
	zzDraws = nil
	zzvrt.Ensures("seed", zzIsBool(l.member("seed", v, types.Int(n)), true))
	if !zzvrt.Native() {
		zzvrt.Ensures("the generator is seeded", zzOne(r, "Seed", n))
		return
	}
	r.Seed(n)
	for i := 0; i < 3; i++ {
		zzvrt.Ensures("the generator is seeded", zzIsInt(l.member("int63", v), r.Int63()))
	}
}

//verif:property P13
//verif:title sources of random numbers
func contract_rand_source() {
	l := zzRandLib()
	n, m := zzSeedOf("n"), zzSeedOf("m")
	s, ok := l.call("newSource", types.Int(n)).(*Source)
	zzvrt.Ensures("newSource gives a source", ok && s != nil)
	zzDraws = nil
	x := l.member("int63", s)
	if !zzvrt.Native() {
		zzvrt.Ensures("int63", len(zzDraws) == 1 && zzDraws[0].op == "Source.Int63" && zzDraws[0].n == n && zzIsInt(x, zzvrt.Int64("drawn source")))
		zzvrt.Ensures("seed", zzIsBool(l.member("seed", s, types.Int(m)), true))
		z, ok := s.Source.(*zzSource)
		zzvrt.Ensures("the source is seeded", ok && z.seed == m)
		r, ok := l.call("new", s).(*Rand)
		zzvrt.Ensures("new gives a generator", ok && r != nil)
		src, ok := zzNewFrom.(*Source)
		zzvrt.Ensures("the generator draws from the source", ok && src == s || zzNewFrom == s.Source)
		return
	}
	t := rand.NewSource(n)
	zzvrt.Ensures("int63", zzIsInt(x, t.Int63()))
	zzvrt.Ensures("int63", zzIsInt(l.member("int63", s), t.Int63()))
	zzvrt.Ensures("seed", zzIsBool(l.member("seed", s, types.Int(m)), true))
	t.Seed(m)
	zzvrt.Ensures("the source is seeded", zzIsInt(l.member("int63", s), t.Int63()))
	r, ok := l.call("new", s).(*Rand)
	zzvrt.Ensures("new gives a generator", ok && r != nil)
	q := rand.New(t)
	for i := 0; i < 3; i++ {
		zzvrt.Ensures("the generator draws from the source", zzIsInt(l.member("int63", r), q.Int63()))
	}
}

func zzUUID() uuid.UUID {
	var u uuid.UUID
	if zzvrt.Native() {
		copy(u[:], zzvrt.Bytes("id"))
		hi := zzvrt.Uint64("hi")
		for i := 0; i < 8; i++ {
			u[15-i] ^= byte(hi >> (8 * i))
		}
		return u
	}
	v, err := uuid.FromBytes(zzvrt.Bytes("id"))
	zzvrt.Requires(err == nil)
	return v
}

//verif:property P13
//verif:title parts of a UUID
func contract_uuid_parts() {
	l := zzOpen(UUIDPackageName, &UUIDLibrary{})
	u := zzUUID()
	v := &UUID{UUID: u}
	zzvrt.Ensures("domain", zzIsUint(l.member("domain", v), uint64(u.Domain())))
	zzvrt.Ensures("id", zzIsUint(l.member("id", v), uint64(u.ID())))
	zzvrt.Ensures("time", zzIsInt(l.member("time", v), int64(u.Time())))
	zzvrt.Ensures("urn", zzIsString(l.member("urn", v), u.URN()))
	zzvrt.Ensures("string", zzIsString(l.member("string", v), u.String()))
	zzvrt.Ensures("version", zzIsUint(l.member("version", v), uint64(u.Version())))
}

//verif:property P13
//verif:title equality of UUIDs
func contract_uuid_equal() {
	u := zzUUID()
	w := u
	if zzvrt.Native() && zzvrt.Bool("differ") {
		w[zzvrt.Choice("at", 16)] ^= 1 << zzvrt.Choice("bit", 8)
	}
	zzvrt.Ensures("equal exactly when they read the same", zzIsBool((&UUID{UUID: u}).Equal(&UUID{UUID: w}), u.String() == w.String()))
	zzvrt.Ensures("not equal to anything else", zzIsBool((&UUID{UUID: u}).Equal(types.String(u.String())), false))
}

//verif:property P13
//verif:title UUIDs from a generator
func contract_uuid_from_rand() {
	l := zzOpen(UUIDPackageName, &UUIDLibrary{})
	v, r := zzRand(zzSeedOf("seed"))
	if !zzvrt.Native() {
		want, err := uuid.NewRandomFromReader(v)
		x := l.call("newRandomFromRand", v)
		u, ok := x.(*UUID)
		zzvrt.Ensures("the UUID of the random bytes", zzErrOr(x, err, ok && u != nil && u.UUID == want))
		return
	}
	for i := 0; i < 3; i++ {
		want, err := uuid.NewRandomFromReader(r)
		x := l.call("newRandomFromRand", v)
		u, ok := x.(*UUID)
		zzvrt.Ensures("the UUID of the random bytes", zzErrOr(x, err, ok && u != nil && bytes.Equal(u.UUID[:], want[:])))
	}
}

//verif:property P13
//verif:title new UUIDs
//verif:bounded
func contract_uuid_new() {
	l := zzOpen(UUIDPackageName, &UUIDLibrary{})
	seed := zzvrt.Bytes("pool")
	seen := map[string]bool{}
	for i := 0; i < 4; i++ {
		for _, f := range []string{"new", "newRandom"} {
			u, ok := l.call(f).(*UUID)
			zzvrt.Ensures(f+" gives a UUID", ok && u != nil)
			zzvrt.Ensures("it is random (version 4, RFC 4122)", u.Version() == 4 && u.Variant() == uuid.RFC4122)
			zzvrt.Ensures("it is new", !seen[u.String()])
			seen[u.String()] = true
		}
	}
	_ = seed
}

//verif:property P13
//verif:title the incoming metadata
//verif:bounded
func contract_metadata_incoming() {
	l := zzOpen(MetadataPackageName, NewMetadataLibrary())
	ctx := context.Background()
	md := metadata.MD{}
	if zzvrt.Choice("has metadata", 4) != 0 {
		n := zzvrt.Size("keys", 4)
		for i := 0; i < n; i++ {
			k := zzText(zzIdx("key", i))
			m := zzvrt.Size(zzIdx("values", i), 3)
			for j := 0; j < m; j++ {
				md.Append(k, zzText(zzIdx(zzIdx("value", i), j)))
			}
		}
		ctx = metadata.NewIncomingContext(ctx, md)
	}
	v := zzRun(l.decls[l.pkg+"incoming"], false, []ref.Val{NewContextValue(ctx)})
	m, ok := v.(traits.Mapper)
	zzvrt.Ensures("a map is returned", ok)
	zzvrt.Ensures("it has an entry for every key", zzIsInt(m.Size(), int64(len(md))))
	for k, vs := range md {
		x, found := m.Find(types.String(k))
		zzvrt.Ensures("it has the key", found)
		zzvrt.Ensures("it has the values of the key in order", zzIsStrings(x, vs))
	}
}

func zzEnumNumber(name string) int64 {
	n := zzvrt.Int32(name)
	return int64(n)
}

func zzSelector(name string) *EnumSelector {
	return &EnumSelector{Cond: zzvrt.Bool(name), True: &EnumSelector_TrueValue{TrueValue: zzvrt.Int32(name + " true")}, False: &EnumSelector_FalseValue{FalseValue: zzvrt.Int32(name + " false")}}
}

//verif:property P13
//verif:title selecting between enum values
func contract_enum_select() {
	l := zzOpen(EnumPackageName, &EnumLibrary{})
	cond := zzvrt.Bool("cond")
	a, b := zzvrt.Int64("a"), zzvrt.Int64("b")
	if zzvrt.Native() && zzvrt.Choice("in range", 4) != 0 {
		a, b = zzEnumNumber("a32"), zzEnumNumber("b32")
	}
	s, t := zzSelector("s"), zzSelector("t")
	var x, y ref.Val = types.Int(a), types.Int(b)
	xs, ys := zzvrt.Bool("first is a selection"), zzvrt.Bool("second is a selection")
	if xs {
		x = s
	}
	if ys {
		y = t
	}
	v := l.call("select", types.Bool(cond), x, y)
	if !xs && int64(int32(a)) != a || !ys && int64(int32(b)) != b {
		_, isErr := v.(*types.Err)
		zzvrt.Ensures("a number that no enum value can have is reported", isErr)
		return
	}
	r, ok := v.(*EnumSelector)
	zzvrt.Ensures("a selection is returned", ok && r != nil)
	zzvrt.Ensures("the condition", r.GetCond() == cond)
	if xs {
		p, ok := r.True.(*EnumSelector_TrueSelector)
		zzvrt.Ensures("the alternative when true is the selection", ok && p != nil && p.TrueSelector == s)
	} else {
		p, ok := r.True.(*EnumSelector_TrueValue)
		zzvrt.Ensures("the alternative when true is the value", ok && p != nil && int64(p.TrueValue) == a)
	}
	if ys {
		p, ok := r.False.(*EnumSelector_FalseSelector)
		zzvrt.Ensures("the alternative when false is the selection", ok && p != nil && p.FalseSelector == t)
	} else {
		p, ok := r.False.(*EnumSelector_FalseValue)
		zzvrt.Ensures("the alternative when false is the value", ok && p != nil && int64(p.FalseValue) == b)
	}
}

func zzIdx(name string, i int) string { return name + string(rune('0'+i)) }
