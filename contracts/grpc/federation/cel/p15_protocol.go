package cel

import (
	"bufio"
	"context"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"
	"time"

	"github.com/google/cel-go/cel"
	"github.com/google/cel-go/common/types"
	"github.com/google/cel-go/common/types/ref"
	"github.com/google/cel-go/common/types/traits"
	"google.golang.org/grpc/metadata"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/wrapperspb"

	"github.com/mercari/grpc-federation/grpc/federation/cel/plugin"
	"github.com/mercari/grpc-federation/zzvrt"
)

// zzWire records what the host exchanges with the plugin.
type zzWire struct {
	i       *CELPluginInstance
	fn      *CELFunction
	req     *plugin.CELPluginRequest
	encoded []byte
	written []byte
	writes  int
	reads   int
	calls   int
}

var zzWire1 *zzWire

func zzSendArg(i *CELPluginInstance, typ *cel.Type, v ref.Val) (*plugin.CELPluginValue, error) {
	k, ok := v.(types.Int)
	zzvrt.Ensures("an argument sent is one given", ok && i == zzWire1.i)
	zzvrt.Ensures("under the kind declared for it", typ == zzvrt.Obj[cel.Type]("arg", int(k)))
	if zzvrt.Bool("bad", int(k)) {
		return nil, zzvrt.ErrE("cannot be sent", int(k))
	}
	return zzvrt.Obj[plugin.CELPluginValue]("sent", int(k)), nil
}

func zzMarshal(m proto.Message) ([]byte, error) {
	z := zzWire1
	req, ok := m.(*plugin.CELPluginRequest)
	zzvrt.Ensures("a request is encoded", ok && z.req == nil)
	z.req = req
	if zzvrt.Bool("cannot encode") {
		return nil, zzvrt.ErrE("cannot encode")
	}
	z.encoded = zzvrt.Bytes("encoded")
	return z.encoded, nil
}

func zzWrite(i *CELPluginInstance, b []byte) error {
	z := zzWire1
	zzvrt.Ensures("one request is written, to the plugin", i == z.i && z.writes == 0)
	z.writes++
	z.written = b
	return zzvrt.ErrOrNil("write")
}

//verif:property P15
//verif:title a call sends the function's identifier, every argument in its place and the metadata, in one line
//verif:usemodel (*github.com/mercari/grpc-federation/grpc/federation/cel.CELPluginInstance).refToCELPluginValue zzSendArg
//verif:usemodel (*github.com/mercari/grpc-federation/grpc/federation/cel.CELPluginInstance).write zzWrite
//verif:usemodel google.golang.org/protobuf/encoding/protojson.Marshal zzMarshal
func contract_send_request() {
	if zzvrt.Native() {
		return
	}
	z := &zzWire{i: &CELPluginInstance{}}
	zzWire1 = z
	n := zzvrt.Size("n")
	fn := &CELFunction{ID: zzvrt.String("id"), Name: zzvrt.String("name")}
	var args []ref.Val
	for k := 0; k < n; k++ {
		fn.Args = append(fn.Args, zzvrt.Obj[cel.Type]("arg", k))
		args = append(args, types.Int(k))
	}
	err := z.i.sendRequest(fn, metadata.MD{}, args...)
	good := zzvrt.Forall(0, n, func(k int) bool { return !zzvrt.Bool("bad", k) })
	if !good {
		zzvrt.Ensures("an argument that cannot be sent is reported, and nothing is sent", err != nil && z.writes == 0)
		return
	}
	zzvrt.Ensures("a request is encoded", z.req != nil)
	zzvrt.Ensures("for the function", z.req.Method == zzvrt.String("id"))
	zzvrt.Ensures("with as many arguments as are given", len(z.req.Args) == n)
	zzvrt.Ensures("each in its place", zzvrt.Forall(0, n, func(k int) bool { return z.req.Args[k] == zzvrt.Obj[plugin.CELPluginValue]("sent", k) }))
	if zzvrt.Bool("cannot encode") {
		zzvrt.Ensures("a request that cannot be encoded is reported, and nothing is sent", err != nil && z.writes == 0)
		return
	}
	l := len(z.encoded)
	zzvrt.Ensures("what was encoded is sent as a line", z.writes == 1 && len(z.written) == l+1 && z.written[l] == '\n')
	zzvrt.Ensures("as it is", zzvrt.Forall(0, l, func(k int) bool { return z.written[k] == z.encoded[k] }))
	zzvrt.Ensures("a failure to send it is reported", (err != nil) == (zzvrt.ErrOrNil("write") != nil))
}

func zzRecv(i *CELPluginInstance) (string, error) {
	z := zzWire1
	zzvrt.Ensures("one response is read, from the plugin", i == z.i && z.reads == 0)
	z.reads++
	if zzvrt.Bool("cannot read") {
		return "", zzvrt.ErrE("cannot read")
	}
	return zzvrt.String("content"), nil
}

func zzUnmarshal(b []byte, m proto.Message) error {
	zzvrt.Ensures("what was read is decoded", string(b) == zzvrt.String("content"))
	if zzvrt.Bool("cannot decode") {
		return zzvrt.ErrE("cannot decode")
	}
	res, ok := m.(*plugin.CELPluginResponse)
	zzvrt.Ensures("as a response", ok)
	res.Error = zzvrt.String("error")
	res.Value = zzvrt.Obj[plugin.CELPluginValue]("value")
	return nil
}

func zzRecvValue(i *CELPluginInstance, fn *CELFunction, typ *cel.Type, v *plugin.CELPluginValue) ref.Val {
	z := zzWire1
	zzvrt.Ensures("the value is received under the kind declared for the result", i == z.i && typ == zzvrt.Obj[cel.Type]("result") && v == zzvrt.Obj[plugin.CELPluginValue]("value"))
	return types.String("received")
}

//verif:property P15
//verif:title a result is what the plugin responds; an error it reports, or one in between, is an error
//verif:usemodel (*github.com/mercari/grpc-federation/grpc/federation/cel.CELPluginInstance).celPluginValueToRef zzRecvValue
//verif:usemodel (*github.com/mercari/grpc-federation/grpc/federation/cel.CELPluginInstance).recvContent zzRecv
//verif:usemodel google.golang.org/protobuf/encoding/protojson.Unmarshal zzUnmarshal
func contract_receive_response() {
	if zzvrt.Native() {
		return
	}
	z := &zzWire{i: &CELPluginInstance{}}
	zzWire1 = z
	r := z.i.recvResponse(&CELFunction{Name: "f", Return: zzvrt.Obj[cel.Type]("result")})
	if zzvrt.Bool("cannot read") || zzvrt.Bool("cannot decode") {
		zzvrt.Ensures("a response that cannot be read or decoded is an error", types.IsError(r))
		return
	}
	if zzvrt.String("error") != "" {
		e, ok := r.(*types.Err)
		zzvrt.Ensures("an error the plugin reports is an error of that text", ok && e.Error() == zzvrt.String("error"))
		return
	}
	zzvrt.Ensures("any other response is the value it holds", zzIsString(r, "received"))
}

func zzSendAll(i *CELPluginInstance, fn *CELFunction, md metadata.MD, args ...ref.Val) error {
	z := zzWire1
	zzvrt.Ensures("the request is for the function, with the arguments and metadata given, first", i == z.i && fn == z.fn && z.writes == 0 && z.reads == 0 && len(args) == 2 && len(md) == 1)
	a, ok := args[0].(types.Int)
	b, ok2 := args[1].(types.Int)
	zzvrt.Ensures("the arguments are those given", ok && ok2 && int64(a) == zzvrt.Int64("a") && int64(b) == zzvrt.Int64("b"))
	z.writes++
	return zzvrt.ErrOrNil("send")
}

func zzRecvAll(i *CELPluginInstance, fn *CELFunction) ref.Val {
	z := zzWire1
	zzvrt.Ensures("the response is read after the request was sent", i == z.i && fn == z.fn && z.writes == 1 && z.reads == 0)
	z.reads++
	return types.Int(zzvrt.Int64("result"))
}

//verif:property P15
//verif:title a call is a request followed by its response
//verif:usemodel (*github.com/mercari/grpc-federation/grpc/federation/cel.CELPluginInstance).sendRequest zzSendAll
//verif:usemodel (*github.com/mercari/grpc-federation/grpc/federation/cel.CELPluginInstance).recvResponse zzRecvAll
func contract_call() {
	if zzvrt.Native() {
		return
	}
	z := &zzWire{i: &CELPluginInstance{}, fn: &CELFunction{Name: "f"}}
	zzWire1 = z
	for k := 0; k < 2; k++ { // the second shows that the first left nothing locked
		z.writes, z.reads = 0, 0
		r := z.i.Call(context.Background(), z.fn, metadata.MD{"k": {"v"}}, types.Int(zzvrt.Int64("a")), types.Int(zzvrt.Int64("b")))
		if e := zzvrt.ErrOrNil("send"); e != nil {
			x, ok := r.(*types.Err)
			zzvrt.Ensures("a request that cannot be sent is an error", ok && x.Error() == e.Error() && z.reads == 0)
		} else {
			zzvrt.Ensures("the result is the response", zzIsInt(r, zzvrt.Int64("result")) && z.reads == 1)
		}
	}
}

func zzVersionWrite(i *CELPluginInstance, b []byte) error {
	z := zzWire1
	zzvrt.Ensures("the version is asked for", i == z.i && z.writes == 0 && string(b) == "version\n")
	z.writes++
	return zzvrt.ErrOrNil("write")
}

func zzVersionDecode(b []byte, v any) error {
	zzvrt.Ensures("what was read is decoded", string(b) == zzvrt.String("content"))
	if zzvrt.Bool("cannot decode") {
		return zzvrt.ErrE("cannot decode")
	}
	s, ok := v.(*PluginVersionSchema)
	zzvrt.Ensures("as a version", ok)
	s.ProtocolVersion = zzvrt.Int("protocol")
	s.FederationVersion = zzvrt.String("federation")
	n := zzvrt.Size("implemented")
	for k := 0; k < n; k++ {
		s.Functions = append(s.Functions, zzvrt.String("function", k))
	}
	return nil
}

//verif:property P15
//verif:title a plugin of another protocol version or without one of the functions declared is rejected, any other is not
//verif:usemodel (*github.com/mercari/grpc-federation/grpc/federation/cel.CELPluginInstance).write zzVersionWrite
//verif:usemodel (*github.com/mercari/grpc-federation/grpc/federation/cel.CELPluginInstance).recvContent zzRecv
//verif:usemodel encoding/json.Unmarshal zzVersionDecode
func contract_validate_plugin() {
	if zzvrt.Native() {
		return
	}
	i := &CELPluginInstance{}
	z := &zzWire{i: i}
	zzWire1 = z
	n := zzvrt.Size("declared")
	for k := 0; k < n; k++ {
		f := zzvrt.Obj[CELFunction]("declared", k)
		i.functions = append(i.functions, f)
	}
	zzvrt.Requires(zzvrt.Forall(0, n, func(k int) bool { return i.functions[k].ID == zzvrt.String("declared id", k) }))
	err := i.ValidatePlugin(context.Background())
	if zzvrt.ErrOrNil("write") != nil || zzvrt.Bool("cannot read") || zzvrt.Bool("cannot decode") {
		zzvrt.Ensures("a plugin whose version cannot be had is rejected", err != nil)
		return
	}
	zzvrt.Ensures("the version is asked for once", z.writes == 1 && z.reads == 1)
	m := zzvrt.Size("implemented")
	all := zzvrt.Forall(0, n, func(k int) bool {
		return zzvrt.Exists(0, m, func(j int) bool { return zzvrt.String("function", j) == zzvrt.String("declared id", k) })
	})
	zzvrt.Ensures("a plugin is accepted exactly if it is of the protocol version and has every function", (err == nil) == (zzvrt.Int("protocol") == PluginProtocolVersion && all))
}

func zzDigest(b []byte) [32]byte {
	return sha256.Sum256(b)
}

// zzPluginSide answers the requests written to it the way a plugin does: a
// function returns the argument named by its identifier.
func zzPluginSide(r io.Reader, w io.Writer, reqs *[]*plugin.CELPluginRequest, version []byte, fail string) {
	in := bufio.NewReader(r)
	for {
		line, err := in.ReadString('\n')
		if err != nil {
			return
		}
		switch line {
		case "version\n":
			_, _ = w.Write(append(version, '\n'))
			continue
		case "exit\n":
			return
		case "gc\n":
			continue
		}
		var req plugin.CELPluginRequest
		res := &plugin.CELPluginResponse{Error: fail}
		if err := protojson.Unmarshal([]byte(line), &req); err != nil {
			res.Error = "undecodable: " + err.Error()
		}
		*reqs = append(*reqs, &req)
		if res.Error == "" {
			var k int
			_, _ = fmt.Sscanf(req.Method, "arg%d", &k)
			res.Value = req.Args[k]
		}
		b, err := protojson.Marshal(res)
		if err != nil {
			panic(err)
		}
		_, _ = w.Write(append(b, '\n'))
	}
}

func zzPlugin(reg *types.Registry, fns []*CELFunction, reqs *[]*plugin.CELPluginRequest, version []byte, fail string) (*CELPluginInstance, func()) {
	stdinR, stdinW := io.Pipe()
	stdoutR, stdoutW := io.Pipe()
	i := &CELPluginInstance{name: "zz", functions: fns, celRegistry: reg, stdin: stdinW, stdout: stdoutR, instanceModErrCh: make(chan error, 1), gcQueue: make(chan struct{}, 1)}
	go zzPluginSide(stdinR, stdoutW, reqs, version, fail)
	return i, func() {
		_ = stdinW.Close()
		_ = stdoutW.Close()
	}
}

// zzArg is an argument of a kind, as expressions make it.
func zzArg(reg *types.Registry, name string, depth int) (*cel.Type, ref.Val) {
	switch zzvrt.Choice(name+" kind", 8+2*depth) {
	case 0:
		return cel.BoolType, types.Bool(zzvrt.Bool(name + " b"))
	case 1:
		return cel.IntType, types.Int(zzvrt.Int64(name + " i"))
	case 2:
		return cel.UintType, types.Uint(zzvrt.Uint64(name + " u"))
	case 3:
		return cel.DoubleType, types.Double(zzvrt.Float64(name + " f"))
	case 4:
		return cel.StringType, types.String(strings.ToValidUTF8(zzvrt.String(name+" s"), "?") + "\n%d\u2028\"")
	case 5:
		return cel.BytesType, types.Bytes(zzvrt.Bytes(name + " bytes"))
	case 6:
		return cel.ObjectType("grpc.federation.CELPluginGRPCMetadata"), reg.NativeToValue(zzMD(name))
	case 7:
		// repeated fields of a message
		m := zzMD(name)
		return cel.ListType(cel.StringType), reg.NativeToValue(m).(traits.Indexer).Get(types.String("values"))
	case 8:
		// native lists
		n := zzvrt.Choice(name+" n", 4)
		switch zzvrt.Choice(name+" list", 6) {
		case 0:
			l := make([]int64, n)
			for i := range l {
				l[i] = zzvrt.Int64(name+" li", i)
			}
			return cel.ListType(cel.IntType), reg.NativeToValue(l)
		case 1:
			l := make([]string, n)
			for i := range l {
				l[i] = strings.ToValidUTF8(zzvrt.String(name+" ls", i), "?")
			}
			return cel.ListType(cel.StringType), reg.NativeToValue(l)
		case 2:
			l := make([]bool, n)
			for i := range l {
				l[i] = zzvrt.Bool(name+" lb", i)
			}
			return cel.ListType(cel.BoolType), reg.NativeToValue(l)
		case 3:
			l := make([][]byte, n)
			for i := range l {
				l[i] = zzvrt.Bytes(name+" lbytes", i)
			}
			return cel.ListType(cel.BytesType), reg.NativeToValue(l)
		case 4:
			l := make([]*plugin.CELPluginGRPCMetadata, n)
			for i := range l {
				l[i] = zzMD(fmt.Sprintf("%s lm%d", name, i))
			}
			return cel.ListType(cel.ObjectType("grpc.federation.CELPluginGRPCMetadata")), reg.NativeToValue(l)
		}
		l := make([]uint32, n)
		for i := range l {
			l[i] = zzvrt.Uint32(name+" lu", i)
		}
		return cel.ListType(cel.UintType), reg.NativeToValue(l)
	}
	// lists of an expression
	var l []ref.Val
	typ, v := zzArg(reg, name+" e", depth-1)
	for i, n := 0, zzvrt.Choice(name+" m", 3); i < n; i++ {
		l = append(l, v)
	}
	return cel.ListType(typ), types.NewRefValList(reg, l)
}

func zzMD(name string) *plugin.CELPluginGRPCMetadata {
	m := &plugin.CELPluginGRPCMetadata{Key: strings.ToValidUTF8(zzvrt.String(name+" key"), "?")}
	for i, n := 0, zzvrt.Choice(name+" values", 3); i < n; i++ {
		m.Values = append(m.Values, strings.ToValidUTF8(zzvrt.String(name+" value", i), "?"))
	}
	return m
}

// zzSameVal compares values, taking not-a-number as equal to itself.
func zzSameVal(typ *cel.Type, a, b ref.Val) bool {
	switch typ.Kind() {
	case types.DoubleKind:
		x, ok := a.(types.Double)
		y, ok2 := b.(types.Double)
		return ok && ok2 && zzvrt.SameF(float64(x), float64(y))
	case types.ListKind:
		x, ok := a.(traits.Lister)
		y, ok2 := b.(traits.Lister)
		if !ok || !ok2 || x.Size() != y.Size() {
			return false
		}
		for i := types.Int(0); i < x.Size().(types.Int); i++ {
			if !zzSameVal(typ.Parameters()[0], x.Get(i), y.Get(i)) {
				return false
			}
		}
		return true
	case types.StructKind:
		x, ok := a.Value().(proto.Message)
		y, ok2 := b.Value().(proto.Message)
		return ok && ok2 && proto.Equal(x, y)
	}
	return a.Type() == b.Type() && a.Equal(b) == types.True
}

//verif:property P15
//verif:title what a plugin is given and gives back over the wire is what it was, for functions and methods
//verif:bounded 1500 calls with up to 3 arguments of every kind, lists nested up to 3 deep
//verif:native 1500
func contract_plugin_there_and_back() {
	if !zzvrt.Native() {
		return
	}
	reg, err := types.NewRegistry(&plugin.CELPluginGRPCMetadata{})
	if err != nil {
		panic(err)
	}
	n := 1 + zzvrt.Choice("n", 3)
	which := zzvrt.Choice("which", n)
	f := &CELFunction{Name: "zz.f", ID: fmt.Sprintf("arg%d_zz", which), IsMethod: zzvrt.Bool("method")}
	if f.IsMethod {
		f.Name = "f"
	}
	g := &CELFunction{Name: "zz.g", ID: "arg0_other", Args: []*cel.Type{cel.DurationType}, Return: cel.DurationType}
	var vs []ref.Val
	for k := 0; k < n; k++ {
		typ, v := zzArg(reg, fmt.Sprint("a", k), 2)
		f.Args = append(f.Args, typ)
		vs = append(vs, v)
	}
	f.Return = f.Args[which]
	var reqs []*plugin.CELPluginRequest
	fail := ""
	if zzvrt.Choice("fails", 4) == 0 {
		fail = "50%d of " + zzvrt.String("failure")
		fail = strings.ToValidUTF8(fail, "?")
	}
	i, done := zzPlugin(reg, []*CELFunction{g, f}, &reqs, nil, fail)
	defer done()
	env, err := cel.NewCustomEnv(i.CompileOptions()...)
	if err != nil {
		panic(err)
	}
	ctx := metadata.NewIncomingContext(context.Background(), metadata.MD{"k": {"v", "w"}})
	bs, err := env.Functions()[f.Name].Bindings()
	if err != nil {
		panic(err)
	}
	var all []ref.Val
	if f.IsMethod {
		all = append([]ref.Val{vs[0], NewContextValue(ctx)}, vs[1:]...)
	} else {
		all = append([]ref.Val{NewContextValue(ctx)}, vs...)
	}
	called := 0
	for _, b := range bs {
		if b.Operator != f.ID {
			continue
		}
		called++
		r := b.Function(all...)
		zzvrt.Ensures("the plugin gets one request for the function with the arguments and the metadata", len(reqs) == 1 && reqs[0].Method == f.ID && len(reqs[0].Args) == n &&
			len(reqs[0].Metadata) == 1 && reqs[0].Metadata[0].Key == "k" && strings.Join(reqs[0].Metadata[0].Values, ",") == "v,w")
		if fail != "" {
			e, ok := r.(*types.Err)
			zzvrt.Ensures("the error of the plugin is the error of the call", ok && e.Error() == fail)
			continue
		}
		zzvrt.Ensures("the value given back is the one given", zzSameVal(f.Return, r, vs[which]))
	}
	zzvrt.Ensures("the function is bound under its identifier", called == 1)
	var want []string
	for k, a := range f.Args {
		if f.IsMethod && k == 1 {
			want = append(want, ContextTypeName)
		} else if !f.IsMethod && k == 0 {
			want = append(want, ContextTypeName)
		}
		want = append(want, a.String())
	}
	if f.IsMethod && n == 1 {
		want = append(want, ContextTypeName)
	}
	var got []string
	for _, o := range env.Functions()[f.Name].OverloadDecls() {
		if o.ID() == f.ID {
			for _, a := range o.ArgTypes() {
				got = append(got, a.String())
			}
			zzvrt.Ensures("it is declared with the kind of its result", o.ResultType().IsExactType(f.Return) && o.IsMemberFunction() == f.IsMethod)
		}
	}
	zzvrt.Ensures("and of its arguments", strings.Join(want, ";") == strings.Join(got, ";"))
}

//verif:property P15
//verif:title a plugin is admitted exactly if it is of the protocol version and has every function declared; its binary must have the digest configured
//verif:bounded 1500 versions, function sets and binaries
//verif:native 1500
func contract_plugin_admission() {
	if !zzvrt.Native() {
		return
	}
	v := PluginVersionSchema{ProtocolVersion: PluginProtocolVersion, FederationVersion: "x"}
	switch zzvrt.Choice("version", 4) {
	case 0:
		v.ProtocolVersion = int(zzvrt.Int32("protocol"))
	case 1:
		v.ProtocolVersion = PluginProtocolVersion + zzvrt.Choice("off", 3) - 1
	}
	impl := map[string]bool{}
	for i, n := 0, zzvrt.Choice("implemented", 5); i < n; i++ {
		f := string(rune('a' + zzvrt.Choice("implements", 4, i)))
		impl[f] = true
		v.Functions = append(v.Functions, f)
	}
	var fns []*CELFunction
	ok := v.ProtocolVersion == PluginProtocolVersion
	for i, n := 0, zzvrt.Choice("declared", 4); i < n; i++ {
		f := &CELFunction{Name: "n", ID: string(rune('a' + zzvrt.Choice("declares", 4, i)))}
		fns = append(fns, f)
		ok = ok && impl[f.ID]
	}
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	if zzvrt.Choice("garbled", 10) == 0 {
		b = b[:len(b)-1]
		ok = false
	}
	i, done := zzPlugin(nil, fns, &[]*plugin.CELPluginRequest{}, b, "")
	defer done()
	got := i.ValidatePlugin(context.Background())
	zzvrt.Ensures("a plugin is admitted exactly if it fits", (got == nil) == ok)
	if got != nil && v.ProtocolVersion == PluginProtocolVersion {
		for _, f := range fns {
			if !impl[f.ID] {
				zzvrt.Ensures("what is missing is named", b[len(b)-1] != '}' || strings.Contains(got.Error(), f.ID))
			}
		}
	}

	wasm := zzvrt.Bytes("wasm")
	sum := zzDigest(wasm)
	digest := hex.EncodeToString(sum[:])
	switch zzvrt.Choice("digest", 5) {
	case 0:
		digest = digest[:63]
	case 1:
		digest = ""
	case 2:
		c := []byte(digest)
		k := zzvrt.Choice("digit", 64)
		if c[k] == '0' {
			c[k] = '1'
		} else {
			c[k] = '0'
		}
		digest = string(c)
	case 3:
		o := zzDigest(append([]byte("x"), wasm...))
		digest = hex.EncodeToString(o[:])
	case 4:
		return // a binary of the right digest is compiled
	}
	p, err := NewCELPlugin(context.Background(), CELPluginConfig{Name: "zz", Wasm: WasmConfig{Reader: strings.NewReader(string(wasm)), Sha256: digest}})
	zzvrt.Ensures("a binary of another digest is rejected as one", p == nil && errors.Is(err, ErrWasmContentMismatch))
}

var (
	_ = sort.Strings
	_ = time.Second
	_ = wrapperspb.Bool
)
