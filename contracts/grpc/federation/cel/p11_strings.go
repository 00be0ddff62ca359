package cel

import (
	"strconv"
	"strings"

	"github.com/google/cel-go/cel"
	"github.com/google/cel-go/common/types"
	"github.com/google/cel-go/common/types/ref"
	"github.com/google/cel-go/common/types/traits"
	"golang.org/x/text/cases"
	"golang.org/x/text/language"

	"github.com/mercari/grpc-federation/zzvrt"
)

//verif:model github.com/google/cel-go/cel.FunctionBinding
func zzBinding11(b func(...ref.Val) ref.Val) cel.OverloadOpt { zzImpl = b; return nil }

//verif:model github.com/google/cel-go/cel.Overload
func zzOverload11(id string, args []*cel.Type, result *cel.Type, opts ...cel.OverloadOpt) cel.FunctionOpt {
	zzPend = append(zzPend, &zzOver{id: id, args: args, result: result, impl: zzImpl})
	return nil
}

//verif:model github.com/google/cel-go/cel.Function
func zzFunction11(name string, opts ...cel.FunctionOpt) cel.EnvOption {
	zzDecls[name] = append(zzDecls[name], zzPend...)
	zzPend = nil
	return nil
}

// A list of ref.Val holds those values (assumed of cel-go).
//
//verif:model github.com/google/cel-go/common/types.NewDynamicList
func zzDynamicList11(a types.Adapter, v any) traits.Lister {
	return &zzRefList{v.([]ref.Val)}
}

func zzBase() int {
	if zzvrt.Native() {
		return 2 + zzvrt.Choice("base", 35)
	}
	return zzvrt.Int("base")
}

func zzPrec() int {
	if zzvrt.Native() {
		return zzvrt.Choice("prec", 12) - 1
	}
	return zzvrt.Int("prec")
}

func zzBits() int {
	if zzvrt.Native() {
		return 32 + 32*zzvrt.Choice("bits", 2)
	}
	return zzvrt.Int("bits")
}

func zzFormat() string {
	if zzvrt.Native() {
		return []string{"e", "f", "g", "E", "G", "b", "x", "X"}[zzvrt.Choice("fmt", 8)]
	}
	f := zzvrt.String("fmt")
	zzvrt.Requires(len(f) > 0)
	return f
}

//verif:property P11
//verif:title searching and comparing
func contract_strings_search() {
	l := zzOpen(StringsPackageName, NewStringsLibrary())
	s, t := zzText("s"), zzText("t")
	zzvrt.Ensures("clone", zzIsString(l.call("clone", types.String(s)), s))
	zzvrt.Ensures("contains", zzIsBool(l.call("contains", types.String(s), types.String(t)), strings.Contains(s, t)))
	zzvrt.Ensures("containsAny", zzIsBool(l.call("containsAny", types.String(s), types.String(t)), strings.ContainsAny(s, t)))
	zzvrt.Ensures("count", zzIsInt(l.call("count", types.String(s), types.String(t)), int64(strings.Count(s, t))))
	zzvrt.Ensures("equalFold", zzIsBool(l.call("equalFold", types.String(s), types.String(t)), strings.EqualFold(s, t)))
	zzvrt.Ensures("hasPrefix", zzIsBool(l.call("hasPrefix", types.String(s), types.String(t)), strings.HasPrefix(s, t)))
	zzvrt.Ensures("hasSuffix", zzIsBool(l.call("hasSuffix", types.String(s), types.String(t)), strings.HasSuffix(s, t)))
	zzvrt.Ensures("index", zzIsInt(l.call("index", types.String(s), types.String(t)), int64(strings.Index(s, t))))
	zzvrt.Ensures("indexAny", zzIsInt(l.call("indexAny", types.String(s), types.String(t)), int64(strings.IndexAny(s, t))))
	zzvrt.Ensures("lastIndex", zzIsInt(l.call("lastIndex", types.String(s), types.String(t)), int64(strings.LastIndex(s, t))))
	zzvrt.Ensures("lastIndexAny", zzIsInt(l.call("lastIndexAny", types.String(s), types.String(t)), int64(strings.LastIndexAny(s, t))))
}

//verif:property P11
//verif:title compare orders strings
func contract_strings_compare() {
	l := zzOpen(StringsPackageName, NewStringsLibrary())
	s, t := zzText("s"), zzText("t")
	zzvrt.Ensures("compare", zzIsInt(l.call("compare", types.String(s), types.String(t)), int64(strings.Compare(s, t))))
}

//verif:property P11
//verif:title searching for characters and bytes
func contract_strings_search_rune() {
	l := zzOpen(StringsPackageName, NewStringsLibrary())
	s, t := zzText("s"), zzText("t")
	r := zzvrt.Int64("r")
	if zzvrt.Native() && len(s) > 0 && zzvrt.Bool("in s") {
		r = int64([]rune(s)[zzvrt.Choice("which", len([]rune(s)))])
	}
	zzvrt.Requires(len(t) > 0)
	zzvrt.Ensures("containsRune", zzIsBool(l.call("containsRune", types.String(s), types.Int(r)), strings.ContainsRune(s, rune(r))))
	zzvrt.Ensures("indexRune", zzIsInt(l.call("indexRune", types.String(s), types.Int(r)), int64(strings.IndexRune(s, rune(r)))))
	zzvrt.Ensures("indexByte", zzIsInt(l.call("indexByte", types.String(s), types.String(t)), int64(strings.IndexByte(s, t[0]))))
	zzvrt.Ensures("lastIndexByte", zzIsInt(l.call("lastIndexByte", types.String(s), types.String(t)), int64(strings.LastIndexByte(s, t[0]))))
}

//verif:property P11
//verif:title searching for bytes
func contract_strings_search_byte() {
	l := zzOpen(StringsPackageName, NewStringsLibrary())
	s := zzText("s")
	b := zzvrt.Bytes("b")
	if zzvrt.Native() {
		b = []byte(zzText("b"))
	}
	zzvrt.Requires(len(b) > 0)
	zzvrt.Ensures("indexByte", zzIsInt(l.call("indexByte", types.String(s), types.Bytes(b)), int64(strings.IndexByte(s, b[0]))))
	zzvrt.Ensures("lastIndexByte", zzIsInt(l.call("lastIndexByte", types.String(s), types.Bytes(b)), int64(strings.LastIndexByte(s, b[0]))))
	zzvrt.Ensures("isGraphic", zzIsBool(l.call("isGraphic", types.Bytes(b)), strconv.IsGraphic(rune(b[0]))))
	zzvrt.Ensures("isPrint", zzIsBool(l.call("isPrint", types.Bytes(b)), strconv.IsPrint(rune(b[0]))))
}

//verif:property P11
//verif:title trimming and changing case
func contract_strings_trim() {
	l := zzOpen(StringsPackageName, NewStringsLibrary())
	s, t := zzText("s"), zzText("t")
	zzvrt.Ensures("toLower", zzIsString(l.call("toLower", types.String(s)), strings.ToLower(s)))
	zzvrt.Ensures("toTitle", zzIsString(l.call("toTitle", types.String(s)), strings.ToTitle(s)))
	zzvrt.Ensures("toUpper", zzIsString(l.call("toUpper", types.String(s)), strings.ToUpper(s)))
	zzvrt.Ensures("toValidUTF8", zzIsString(l.call("toValidUTF8", types.String(s), types.String(t)), strings.ToValidUTF8(s, t)))
	zzvrt.Ensures("trim", zzIsString(l.call("trim", types.String(s), types.String(t)), strings.Trim(s, t)))
	zzvrt.Ensures("trimLeft", zzIsString(l.call("trimLeft", types.String(s), types.String(t)), strings.TrimLeft(s, t)))
	zzvrt.Ensures("trimRight", zzIsString(l.call("trimRight", types.String(s), types.String(t)), strings.TrimRight(s, t)))
	zzvrt.Ensures("trimPrefix", zzIsString(l.call("trimPrefix", types.String(s), types.String(t)), strings.TrimPrefix(s, t)))
	zzvrt.Ensures("trimSuffix", zzIsString(l.call("trimSuffix", types.String(s), types.String(t)), strings.TrimSuffix(s, t)))
	zzvrt.Ensures("trimSpace", zzIsString(l.call("trimSpace", types.String(s)), strings.TrimSpace(s)))
}

//verif:property P11
//verif:title title case
func contract_strings_title() {
	l := zzOpen(StringsPackageName, NewStringsLibrary())
	s := zzText("s")
	zzvrt.Ensures("title", zzIsString(l.call("title", types.String(s)), cases.Title(language.English).String(s)))
}

//verif:property P11
//verif:title replacing and repeating
func contract_strings_replace() {
	l := zzOpen(StringsPackageName, NewStringsLibrary())
	s, t, u := zzText("s"), zzText("t"), zzText("u")
	n := zzvrt.Int64("n")
	if zzvrt.Native() {
		n = int64(zzvrt.Choice("times", 6)) - 1
	}
	k := n
	if zzvrt.Native() && k < 0 {
		k = 0
	}
	var pre, suf string
	pre, _ = strings.CutPrefix(s, t)
	suf, _ = strings.CutSuffix(s, t)
	zzvrt.Ensures("replace", zzIsString(l.call("replace", types.String(s), types.String(t), types.String(u), types.Int(n)), strings.Replace(s, t, u, int(n))))
	zzvrt.Ensures("replaceAll", zzIsString(l.call("replaceAll", types.String(s), types.String(t), types.String(u)), strings.ReplaceAll(s, t, u)))
	zzvrt.Ensures("repeat", zzIsString(l.call("repeat", types.String(s), types.Int(k)), strings.Repeat(s, int(k))))
	zzvrt.Ensures("cutPrefix", zzIsString(l.call("cutPrefix", types.String(s), types.String(t)), pre))
	zzvrt.Ensures("cutSuffix", zzIsString(l.call("cutSuffix", types.String(s), types.String(t)), suf))
}

//verif:property P11
//verif:title splitting
func contract_strings_split() {
	l := zzOpen(StringsPackageName, NewStringsLibrary())
	s, t := zzText("s"), zzText("t")
	n := zzvrt.Int64("n")
	if zzvrt.Native() {
		n = int64(zzvrt.Choice("times", 6)) - 1
	}
	before, after, _ := strings.Cut(s, t)
	zzvrt.Ensures("fields", zzIsStrings(l.call("fields", types.String(s)), strings.Fields(s)))
	zzvrt.Ensures("split", zzIsStrings(l.call("split", types.String(s), types.String(t)), strings.Split(s, t)))
	zzvrt.Ensures("splitAfter", zzIsStrings(l.call("splitAfter", types.String(s), types.String(t)), strings.SplitAfter(s, t)))
	zzvrt.Ensures("splitN", zzIsStrings(l.call("splitN", types.String(s), types.String(t), types.Int(n)), strings.SplitN(s, t, int(n))))
	zzvrt.Ensures("splitAfterN", zzIsStrings(l.call("splitAfterN", types.String(s), types.String(t), types.Int(n)), strings.SplitAfterN(s, t, int(n))))
	zzvrt.Ensures("cut", zzIsStrings(l.call("cut", types.String(s), types.String(t)), []string{before, after}))
}

//verif:property P11
//verif:title joining
func contract_strings_join() {
	l := zzOpen(StringsPackageName, NewStringsLibrary())
	n := zzvrt.Size("n")
	strs := make([]string, n)
	for i := 0; i < n; i++ {
		strs[i] = zzvrt.String("e", i)
	}
	sep := zzvrt.String("sep")
	list := types.NewStringList(types.DefaultTypeAdapter, strs)
	zzvrt.Ensures("join", zzIsString(l.call("join", list, types.String(sep)), strings.Join(strs, sep)))
}

//verif:property P11
//verif:title appending to a string
func contract_strconv_append() {
	l := zzOpen(StringsPackageName, NewStringsLibrary())
	s, t := zzText("s"), zzText("t")
	b, f, i, u := zzvrt.Bool("b"), zzvrt.Float64("f"), zzvrt.Int64("i"), zzvrt.Uint64("u")
	base, prec, bits := zzBase(), zzPrec(), zzBits()
	zzvrt.Requires(len(t) > 0)
	fm := zzFormat()
	r := []rune(t)[0]
	zzvrt.Ensures("appendBool", zzIsString(l.call("appendBool", types.String(s), types.Bool(b)), string(strconv.AppendBool([]byte(s), b))))
	zzvrt.Ensures("appendFloat", zzIsString(l.call("appendFloat", types.String(s), types.Double(f), types.String(fm), types.Int(prec), types.Int(bits)), string(strconv.AppendFloat([]byte(s), f, fm[0], prec, bits))))
	zzvrt.Ensures("appendInt", zzIsString(l.call("appendInt", types.String(s), types.Int(i), types.Int(base)), string(strconv.AppendInt([]byte(s), i, base))))
	zzvrt.Ensures("appendUint", zzIsString(l.call("appendUint", types.String(s), types.Uint(u), types.Int(base)), string(strconv.AppendUint([]byte(s), u, base))))
	zzvrt.Ensures("appendQuote", zzIsString(l.call("appendQuote", types.String(s), types.String(t)), string(strconv.AppendQuote([]byte(s), t))))
	zzvrt.Ensures("appendQuoteToASCII", zzIsString(l.call("appendQuoteToASCII", types.String(s), types.String(t)), string(strconv.AppendQuoteToASCII([]byte(s), t))))
	zzvrt.Ensures("appendQuoteToGraphic", zzIsString(l.call("appendQuoteToGraphic", types.String(s), types.String(t)), string(strconv.AppendQuoteToGraphic([]byte(s), t))))
	zzvrt.Ensures("appendQuoteRune", zzIsString(l.call("appendQuoteRune", types.String(s), types.String(t)), string(strconv.AppendQuoteRune([]byte(s), r))))
	zzvrt.Ensures("appendQuoteRuneToASCII", zzIsString(l.call("appendQuoteRuneToASCII", types.String(s), types.String(t)), string(strconv.AppendQuoteRuneToASCII([]byte(s), r))))
	zzvrt.Ensures("appendQuoteRuneToGraphic", zzIsString(l.call("appendQuoteRuneToGraphic", types.String(s), types.String(t)), string(strconv.AppendQuoteRuneToGraphic([]byte(s), r))))
}

//verif:property P11
//verif:title appending to bytes
func contract_strconv_append_bytes() {
	l := zzOpen(StringsPackageName, NewStringsLibrary())
	s, t := zzText("s"), zzText("t")
	b, f, i, u := zzvrt.Bool("b"), zzvrt.Float64("f"), zzvrt.Int64("i"), zzvrt.Uint64("u")
	base, prec, bits := zzBase(), zzPrec(), zzBits()
	zzvrt.Requires(len(t) > 0)
	fm := zzFormat()
	r := []rune(t)[0]
	x := []byte(s)
	if zzvrt.Native() {
		x = append(make([]byte, 0, len(s)+100), s...)
	}
	zzvrt.Ensures("appendBool", zzIsBytes(l.call("appendBool", types.Bytes(x), types.Bool(b)), strconv.AppendBool([]byte(s), b)))
	zzvrt.Ensures("appendFloat", zzIsBytes(l.call("appendFloat", types.Bytes(x), types.Double(f), types.String(fm), types.Int(prec), types.Int(bits)), strconv.AppendFloat([]byte(s), f, fm[0], prec, bits)))
	zzvrt.Ensures("appendInt", zzIsBytes(l.call("appendInt", types.Bytes(x), types.Int(i), types.Int(base)), strconv.AppendInt([]byte(s), i, base)))
	zzvrt.Ensures("appendUint", zzIsBytes(l.call("appendUint", types.Bytes(x), types.Uint(u), types.Int(base)), strconv.AppendUint([]byte(s), u, base)))
	zzvrt.Ensures("appendQuote", zzIsBytes(l.call("appendQuote", types.Bytes(x), types.String(t)), strconv.AppendQuote([]byte(s), t)))
	zzvrt.Ensures("appendQuoteToASCII", zzIsBytes(l.call("appendQuoteToASCII", types.Bytes(x), types.String(t)), strconv.AppendQuoteToASCII([]byte(s), t)))
	zzvrt.Ensures("appendQuoteToGraphic", zzIsBytes(l.call("appendQuoteToGraphic", types.Bytes(x), types.String(t)), strconv.AppendQuoteToGraphic([]byte(s), t)))
	zzvrt.Ensures("appendQuoteRune", zzIsBytes(l.call("appendQuoteRune", types.Bytes(x), types.String(t)), strconv.AppendQuoteRune([]byte(s), r)))
	zzvrt.Ensures("appendQuoteRuneToASCII", zzIsBytes(l.call("appendQuoteRuneToASCII", types.Bytes(x), types.String(t)), strconv.AppendQuoteRuneToASCII([]byte(s), r)))
	zzvrt.Ensures("appendQuoteRuneToGraphic", zzIsBytes(l.call("appendQuoteRuneToGraphic", types.Bytes(x), types.String(t)), strconv.AppendQuoteRuneToGraphic([]byte(s), r)))
	if zzvrt.Native() {
		for _, c := range x[len(x):cap(x)] {
			zzvrt.Ensures("the argument's memory is not written", c == 0)
		}
	}
}

//verif:property P11
//verif:title formatting
func contract_strconv_format() {
	l := zzOpen(StringsPackageName, NewStringsLibrary())
	b, f, g, i, u := zzvrt.Bool("b"), zzvrt.Float64("f"), zzvrt.Float64("g"), zzvrt.Int64("i"), zzvrt.Uint64("u")
	base, prec, bits := zzBase(), zzPrec(), zzBits()
	fm := zzFormat()
	cl := types.NewDynamicList(types.DefaultTypeAdapter, []ref.Val{types.Double(f), types.Double(g)})
	cbits := bits
	if zzvrt.Native() {
		cbits = 2 * bits
	}
	zzvrt.Ensures("formatBool", zzIsString(l.call("formatBool", types.Bool(b)), strconv.FormatBool(b)))
	zzvrt.Ensures("formatFloat", zzIsString(l.call("formatFloat", types.Double(f), types.String(fm), types.Int(prec), types.Int(bits)), strconv.FormatFloat(f, fm[0], prec, bits)))
	zzvrt.Ensures("formatInt", zzIsString(l.call("formatInt", types.Int(i), types.Int(base)), strconv.FormatInt(i, base)))
	zzvrt.Ensures("formatUint", zzIsString(l.call("formatUint", types.Uint(u), types.Int(base)), strconv.FormatUint(u, base)))
	zzvrt.Ensures("itoa", zzIsString(l.call("itoa", types.Int(i)), strconv.Itoa(int(i))))
	zzvrt.Ensures("formatComplex", zzIsString(l.call("formatComplex", cl, types.String(fm), types.Int(prec), types.Int(cbits)), strconv.FormatComplex(complex(f, g), fm[0], prec, cbits)))
}

//verif:property P11
//verif:title parsing
func contract_strconv_parse() {
	l := zzOpen(StringsPackageName, NewStringsLibrary())
	s := zzText("s")
	base, bits := zzvrt.Int("base"), zzvrt.Int("bits")
	if zzvrt.Native() {
		base, bits = zzvrt.Choice("a base", 38), []int{0, 8, 16, 32, 64, 65, -1}[zzvrt.Choice("some bits", 7)]
	}
	i, ierr := strconv.Atoi(s)
	b, berr := strconv.ParseBool(s)
	f, ferr := strconv.ParseFloat(s, bits)
	n, nerr := strconv.ParseInt(s, base, bits)
	u, uerr := strconv.ParseUint(s, base, bits)
	vi, vb, vf := l.call("atoi", types.String(s)), l.call("parseBool", types.String(s)), l.call("parseFloat", types.String(s), types.Int(bits))
	vn, vu := l.call("parseInt", types.String(s), types.Int(base), types.Int(bits)), l.call("parseUint", types.String(s), types.Int(base), types.Int(bits))
	zzvrt.Ensures("atoi", zzErrOr(vi, ierr, zzIsInt(vi, int64(i))))
	zzvrt.Ensures("parseBool", zzErrOr(vb, berr, zzIsBool(vb, b)))
	zzvrt.Ensures("parseFloat", zzErrOr(vf, ferr, zzIsDouble(vf, f)))
	zzvrt.Ensures("parseInt", zzErrOr(vn, nerr, zzIsInt(vn, n)))
	zzvrt.Ensures("parseUint", zzErrOr(vu, uerr, zzIsUint(vu, u)))
}

//verif:property P11
//verif:title parsing complex numbers
func contract_strconv_parse_complex() {
	l := zzOpen(StringsPackageName, NewStringsLibrary())
	s := zzText("s")
	bits := zzvrt.Int("bits")
	if zzvrt.Native() {
		bits = []int{64, 128, 0}[zzvrt.Choice("some bits", 3)]
	}
	c, err := strconv.ParseComplex(s, bits)
	v := l.call("parseComplex", types.String(s), types.Int(bits))
	ok := false
	if cl, isList := v.(traits.Lister); isList {
		ok = zzIsInt(cl.Size(), 2) && zzIsDouble(cl.Get(types.IntZero), real(c)) && zzIsDouble(cl.Get(types.IntOne), imag(c))
	}
	zzvrt.Ensures("parseComplex", zzErrOr(v, err, ok))
}

//verif:property P11
//verif:title quoting
func contract_strconv_quote() {
	l := zzOpen(StringsPackageName, NewStringsLibrary())
	t := zzText("t")
	zzvrt.Requires(len(t) > 0)
	r := []rune(t)[0]
	q, qerr := strconv.QuotedPrefix(t)
	u, uerr := strconv.Unquote(t)
	vq, vu := l.call("quotedPrefix", types.String(t)), l.call("unquote", types.String(t))
	zzvrt.Ensures("canBackquote", zzIsBool(l.call("canBackquote", types.String(t)), strconv.CanBackquote(t)))
	zzvrt.Ensures("quote", zzIsString(l.call("quote", types.String(t)), strconv.Quote(t)))
	zzvrt.Ensures("quoteToASCII", zzIsString(l.call("quoteToASCII", types.String(t)), strconv.QuoteToASCII(t)))
	zzvrt.Ensures("quoteToGraphic", zzIsString(l.call("quoteToGraphic", types.String(t)), strconv.QuoteToGraphic(t)))
	zzvrt.Ensures("quoteRune", zzIsString(l.call("quoteRune", types.String(t)), strconv.QuoteRune(r)))
	zzvrt.Ensures("quoteRuneToASCII", zzIsString(l.call("quoteRuneToASCII", types.String(t)), strconv.QuoteRuneToASCII(r)))
	zzvrt.Ensures("quoteRuneToGraphic", zzIsString(l.call("quoteRuneToGraphic", types.String(t)), strconv.QuoteRuneToGraphic(r)))
	zzvrt.Ensures("isGraphic", zzIsBool(l.call("isGraphic", types.String(t)), strconv.IsGraphic(r)))
	zzvrt.Ensures("isPrint", zzIsBool(l.call("isPrint", types.String(t)), strconv.IsPrint(r)))
	zzvrt.Ensures("quotedPrefix", zzErrOr(vq, qerr, zzIsString(vq, q)))
	zzvrt.Ensures("unquote", zzErrOr(vu, uerr, zzIsString(vu, u)))
}

//verif:property P11
//verif:title unquoting one character
func contract_strconv_unquote_char() {
	l := zzOpen(StringsPackageName, NewStringsLibrary())
	t, k := zzText("t"), zzText("quote")
	zzvrt.Requires(len(k) > 0)
	r, mb, tail, err := strconv.UnquoteChar(t, k[0])
	v := l.call("unquoteChar", types.String(t), types.String(k))
	ok := false
	if cl, isList := v.(traits.Lister); isList {
		ok = zzIsInt(cl.Size(), 3) && zzIsString(cl.Get(types.Int(0)), string(r)) && zzIsBool(cl.Get(types.Int(1)), mb) && zzIsString(cl.Get(types.Int(2)), tail)
	}
	zzvrt.Ensures("unquoteChar", zzErrOr(v, err, ok))
}
