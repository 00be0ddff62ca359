package cel

import (
	"net/url"

	"github.com/google/cel-go/cel"
	"github.com/google/cel-go/common/types"
	"github.com/google/cel-go/common/types/ref"
	"github.com/google/cel-go/common/types/traits"

	"github.com/mercari/grpc-federation/zzvrt"
)

//verif:model github.com/google/cel-go/cel.FunctionBinding
func zzBinding13u(b func(...ref.Val) ref.Val) cel.OverloadOpt { zzImpl = b; return nil }

//verif:model github.com/google/cel-go/cel.Overload
func zzOverload13u(id string, args []*cel.Type, result *cel.Type, opts ...cel.OverloadOpt) cel.FunctionOpt {
	zzPend = append(zzPend, &zzOver{id: id, args: args, result: result, impl: zzImpl})
	return nil
}

//verif:model github.com/google/cel-go/cel.MemberOverload
func zzMemberOverload13u(id string, args []*cel.Type, result *cel.Type, opts ...cel.OverloadOpt) cel.FunctionOpt {
	zzPend = append(zzPend, &zzOver{id: id, args: args, result: result, impl: zzImpl, member: true})
	return nil
}

//verif:model github.com/google/cel-go/cel.Function
func zzFunction13u(name string, opts ...cel.FunctionOpt) cel.EnvOption {
	zzDecls[name] = append(zzDecls[name], zzPend...)
	zzPend = nil
	return nil
}

const (
	zzURLName      = "grpc.federation.url.URL"
	zzUserinfoName = "grpc.federation.url.Userinfo"
)

// zzURLText is a string that may be a URL.
func zzURLText(name string) string {
	if !zzvrt.Native() {
		return zzvrt.String(name)
	}
	pool := []string{"", "/", "a", "a b", "%", "%41", "%2F", "%zz", "a/b", "/a/../b", "..", "./x", "?", "a?b=c&b=d&e", "#", "#f%20g", "http://h", "https://u:p@h:80/p/q?x=1#y", "http://u@h", "http://:pw@h/", "mailto:a@b", "//h/p", "http://[::1]:80", "http://h:port", "h:1", "é", "http://h/a%2Fb", "http://h/%E4%B8%96?k=%zz", "\x7f", "http://h/a%20b/", "http://h?", "http:?q", "/p?q", ":", "+", "a+b", ";", "a=1;b=2"}
	k := zzvrt.Choice(name+" pool", len(pool)+6)
	if k < len(pool) {
		return pool[k]
	}
	if k < len(pool)+4 {
		return pool[zzvrt.Choice(name+" 1", len(pool))] + pool[zzvrt.Choice(name+" 2", len(pool))]
	}
	return zzvrt.String(name)
}

func zzUserinfo(name string) *Userinfo {
	if zzvrt.Native() && zzvrt.Choice(name+" nil", 3) == 0 {
		return nil
	}
	return &Userinfo{Username: zzURLText(name + " username"), Password: zzURLText(name + " password"), PasswordSet: zzvrt.Bool(name + " set")}
}

func zzURL(name string) *URL {
	if zzvrt.Native() && zzvrt.Bool(name+" parsed") {
		if g, err := url.Parse(zzURLText(name)); err == nil {
			return NewURLLibrary(zzAdapter{}).toURLValue(*g).(*zzObj).v.(*URL)
		}
	}
	var user *Userinfo
	if zzvrt.Bool(name + " has user") {
		user = zzUserinfo(name + " user")
	}
	return &URL{
		Scheme:      zzURLText(name + " scheme"),
		Opaque:      zzURLText(name + " opaque"),
		User:        user,
		Host:        zzURLText(name + " host"),
		Path:        zzURLText(name + " path"),
		RawPath:     zzURLText(name + " raw path"),
		OmitHost:    zzvrt.Bool(name + " omit host"),
		ForceQuery:  zzvrt.Bool(name + " force query"),
		RawQuery:    zzURLText(name + " raw query"),
		Fragment:    zzURLText(name + " fragment"),
		RawFragment: zzURLText(name + " raw fragment"),
	}
}

func zzURLVal(u *URL) ref.Val { return &zzObj{name: zzURLName, v: u} }

func zzUserVal(u *Userinfo) ref.Val { return &zzObj{name: zzUserinfoName, v: u} }

func zzUserMsg(m *Userinfo, name, password string, set bool) bool {
	return m != nil && m.Username == name && m.Password == password && m.PasswordSet == set
}

func zzIsUser(v ref.Val, name, password string, set bool) bool {
	o, ok := v.(*zzObj)
	if !ok {
		return false
	}
	m, ok := o.v.(*Userinfo)
	return ok && zzUserMsg(m, name, password, set)
}

// zzIsURL: v is the URL with exactly the parts of want.
func zzIsURL(v ref.Val, want *url.URL) bool {
	o, ok := v.(*zzObj)
	if !ok {
		return false
	}
	m, ok := o.v.(*URL)
	if !ok || m == nil {
		return false
	}
	if want.User == nil {
		if m.User != nil {
			return false
		}
	} else {
		p, set := want.User.Password()
		if !zzUserMsg(m.User, want.User.Username(), p, set) {
			return false
		}
	}
	return m.Scheme == want.Scheme && m.Opaque == want.Opaque && m.Host == want.Host &&
		m.Path == want.Path && m.RawPath == want.RawPath && m.OmitHost == want.OmitHost &&
		m.ForceQuery == want.ForceQuery && m.RawQuery == want.RawQuery &&
		m.Fragment == want.Fragment && m.RawFragment == want.RawFragment
}

func zzIsURLOr(v ref.Val, want *url.URL, err error) bool {
	if err != nil {
		_, isErr := v.(*types.Err)
		return isErr
	}
	return zzIsURL(v, want)
}

func zzURLLib() *zzLib { return zzOpen(URLPackageName, NewURLLibrary(zzAdapter{})) }

//verif:property P13
//verif:title the Go URL of a URL message has the parts of the message, and the other way round
func contract_url_message() {
	u := zzURL("u")
	g := u.GoURL()
	zzvrt.Ensures("scheme", g.Scheme == u.Scheme)
	zzvrt.Ensures("opaque", g.Opaque == u.Opaque)
	zzvrt.Ensures("host", g.Host == u.Host)
	zzvrt.Ensures("path", g.Path == u.Path)
	zzvrt.Ensures("raw path", g.RawPath == u.RawPath)
	zzvrt.Ensures("omit host", g.OmitHost == u.OmitHost)
	zzvrt.Ensures("force query", g.ForceQuery == u.ForceQuery)
	zzvrt.Ensures("raw query", g.RawQuery == u.RawQuery)
	zzvrt.Ensures("fragment", g.Fragment == u.Fragment)
	zzvrt.Ensures("raw fragment", g.RawFragment == u.RawFragment)
	zzvrt.Ensures("there is user information exactly when the message has it", (g.User == nil) == (u.User == nil))
	if u.User != nil {
		p, set := g.User.Password()
		want := u.User.Password
		if !u.User.PasswordSet {
			want = ""
		}
		zzvrt.Ensures("user name", g.User.Username() == u.User.Username)
		zzvrt.Ensures("password", p == want && set == u.User.PasswordSet)
	}
	zzvrt.Ensures("the URL message of a Go URL has its parts", zzIsURL(NewURLLibrary(zzAdapter{}).toURLValue(g), &g))
}

//verif:property P13
//verif:title functions of the url package
func contract_url_functions() {
	l := zzURLLib()
	s := zzURLText("s")
	p := zzURLText("p")
	var v ref.Val
	var str string
	var err error
	zzvrt.Ensures("pathEscape", zzIsString(l.call("pathEscape", types.String(s)), url.PathEscape(s)))
	zzvrt.Ensures("queryEscape", zzIsString(l.call("queryEscape", types.String(s)), url.QueryEscape(s)))
	v = l.call("pathUnescape", types.String(s))
	str, err = url.PathUnescape(s)
	zzvrt.Ensures("pathUnescape", zzErrOr(v, err, zzIsString(v, str)))
	v = l.call("queryUnescape", types.String(s))
	str, err = url.QueryUnescape(s)
	zzvrt.Ensures("queryUnescape", zzErrOr(v, err, zzIsString(v, str)))
	u, err := url.Parse(s)
	zzvrt.Ensures("parse", zzIsURLOr(l.call("parse", types.String(s)), u, err))
	u, err = url.ParseRequestURI(s)
	zzvrt.Ensures("parseRequestURI", zzIsURLOr(l.call("parseRequestURI", types.String(s)), u, err))
	zzvrt.Ensures("user", zzIsUser(l.call("user", types.String(s)), s, "", false))
	zzvrt.Ensures("userPassword", zzIsUser(l.call("userPassword", types.String(s), types.String(p)), s, p, true))
}

func zzPaths(name string) ([]string, ref.Val) {
	n := zzvrt.Size(name)
	ss := make([]string, n)
	for i := 0; i < n; i++ {
		ss[i] = zzURLElem(name, i)
	}
	return ss, types.NewStringList(types.DefaultTypeAdapter, ss)
}

func zzURLElem(name string, i int) string {
	if !zzvrt.Native() {
		return zzvrt.String(name+" element", i)
	}
	return zzURLText(name + string(rune('a'+i)))
}

//verif:property P13
//verif:title joinPath of the url package
func contract_url_join_path() {
	l := zzURLLib()
	base := zzURLText("base")
	ss, list := zzPaths("elems")
	want, err := url.JoinPath(base, ss...)
	v := l.call("joinPath", types.String(base), list)
	zzvrt.Ensures("joinPath", zzErrOr(v, err, zzIsString(v, want)))
}

//verif:property P13
//verif:title joinPath of a URL
func contract_url_join_path_member() {
	l := zzURLLib()
	u := zzURL("u")
	ss, list := zzPaths("elems")
	g := u.GoURL()
	v := l.member("joinPath", zzURLVal(u), list)
	zzvrt.Ensures("joinPath", zzIsURL(v, g.JoinPath(ss...)))
}

//verif:property P13
//verif:title parts of a URL
func contract_url_parts() {
	l := zzURLLib()
	u := zzURL("u")
	uv := zzURLVal(u)
	g := u.GoURL()
	zzvrt.Ensures("scheme", zzIsString(l.member("scheme", uv), g.Scheme))
	zzvrt.Ensures("opaque", zzIsString(l.member("opaque", uv), g.Opaque))
	zzvrt.Ensures("host", zzIsString(l.member("host", uv), g.Host))
	zzvrt.Ensures("path", zzIsString(l.member("path", uv), g.Path))
	zzvrt.Ensures("rawPath", zzIsString(l.member("rawPath", uv), g.RawPath))
	zzvrt.Ensures("omitHost", zzIsBool(l.member("omitHost", uv), g.OmitHost))
	zzvrt.Ensures("forceQuery", zzIsBool(l.member("forceQuery", uv), g.ForceQuery))
	zzvrt.Ensures("rawQuery", zzIsString(l.member("rawQuery", uv), g.RawQuery))
	zzvrt.Ensures("fragment", zzIsString(l.member("fragment", uv), g.Fragment))
	zzvrt.Ensures("rawFragment", zzIsString(l.member("rawFragment", uv), g.RawFragment))
	p, set := g.User.Password()
	zzvrt.Ensures("userinfo", zzIsUser(l.member("userinfo", uv), g.User.Username(), p, set))
}

//verif:property P13
//verif:title operations on a URL
func contract_url_operations() {
	l := zzURLLib()
	u := zzURL("u")
	uv := zzURLVal(u)
	g := u.GoURL()
	var v ref.Val
	zzvrt.Ensures("escapedFragment", zzIsString(l.member("escapedFragment", uv), g.EscapedFragment()))
	zzvrt.Ensures("escapedPath", zzIsString(l.member("escapedPath", uv), g.EscapedPath()))
	zzvrt.Ensures("hostname", zzIsString(l.member("hostname", uv), g.Hostname()))
	zzvrt.Ensures("port", zzIsString(l.member("port", uv), g.Port()))
	zzvrt.Ensures("isAbs", zzIsBool(l.member("isAbs", uv), g.IsAbs()))
	zzvrt.Ensures("redacted", zzIsString(l.member("redacted", uv), g.Redacted()))
	zzvrt.Ensures("requestURI", zzIsString(l.member("requestURI", uv), g.RequestURI()))
	zzvrt.Ensures("string", zzIsString(l.member("string", uv), g.String()))
	b, err := g.MarshalBinary()
	v = l.member("marshalBinary", uv)
	zzvrt.Ensures("marshalBinary", zzErrOr(v, err, zzIsBytes(v, b)))
}

//verif:property P13
//verif:title parsing relative to a URL
func contract_url_references() {
	l := zzURLLib()
	u, r := zzURL("u"), zzURL("r")
	uv := zzURLVal(u)
	s := zzURLText("s")
	g, h := u.GoURL(), r.GoURL()
	x, err := g.Parse(s)
	zzvrt.Ensures("parse", zzIsURLOr(l.member("parse", uv, types.String(s)), x, err))
	zzvrt.Ensures("resolveReference", zzIsURL(l.member("resolveReference", uv, zzURLVal(r)), g.ResolveReference(&h)))
}

//verif:property P13
//verif:title the binary form of a URL
//verif:usemodel (*net/url.URL).UnmarshalBinary zzUnmarshalURL
func contract_url_unmarshal() {
	l := zzURLLib()
	u := zzURL("u")
	b := []byte(zzURLText("bytes"))
	var x url.URL
	err := x.UnmarshalBinary(b)
	zzvrt.Ensures("unmarshalBinary", zzIsURLOr(l.member("unmarshalBinary", zzURLVal(u), types.Bytes(b)), &x, err))
}

// zzUnmarshalURL is the documented behaviour: the text is parsed and stored.
func zzUnmarshalURL(u *url.URL, b []byte) error {
	x, err := url.Parse(string(b))
	if err != nil {
		return err
	}
	*u = *x
	return nil
}

//verif:property P13
//verif:title the query of a URL
//verif:bounded
func contract_url_query() {
	l := zzURLLib()
	u := zzURL("u")
	g := u.GoURL()
	q := g.Query()
	v := l.member("query", zzURLVal(u))
	m, ok := v.(traits.Mapper)
	zzvrt.Ensures("a map is returned", ok)
	zzvrt.Ensures("it has an entry for every key", zzIsInt(m.Size(), int64(len(q))))
	for k, vs := range q {
		x, found := m.Find(types.String(k))
		zzvrt.Ensures("it has the key", found)
		zzvrt.Ensures("it has the values of the key in order", zzIsStrings(x, vs))
	}
}

//verif:property P13
//verif:title user information
func contract_url_userinfo() {
	l := zzURLLib()
	u := &Userinfo{Username: zzURLText("username"), Password: zzURLText("password"), PasswordSet: zzvrt.Bool("set")}
	v := zzUserVal(u)
	g := u.GoUserinfo()
	p, set := g.Password()
	zzvrt.Ensures("username", zzIsString(l.member("username", v), g.Username()))
	zzvrt.Ensures("password", zzIsString(l.member("password", v), p))
	zzvrt.Ensures("passwordSet", zzIsBool(l.member("passwordSet", v), set))
	zzvrt.Ensures("string", zzIsString(l.member("string", v), g.String()))
}
