package resolver

import (
	"strings"

	"github.com/mercari/grpc-federation/zzvrt"
)

// zzGhostNames: the names of the messages enclosing m, any number of them.
func zzGhostNames(*Message) []string {
	n := zzvrt.Size("depth")
	out := make([]string, 0, n)
	for i := 0; i < n; i++ {
		out = append(out, zzvrt.String("ancestor", i))
	}
	return out
}

// zzNested is a message with any number of enclosing messages.
func zzNested(f *File) *Message {
	m := &Message{File: f, Name: zzvrt.String("parent")}
	if zzvrt.Native() {
		c := m
		anc := zzGhostNames(nil)
		for i := len(anc) - 1; i >= 0; i-- {
			c.ParentMessage = &Message{File: f, Name: anc[i]}
			c = c.ParentMessage
		}
	} else {
		m.ParentMessage = &Message{}
	}
	return m
}

//verif:property P20
//verif:title the names of the enclosing messages are listed from the outermost inwards
//verif:inductive (*github.com/mercari/grpc-federation/resolver.Message).ParentMessageNames zzGhostNames
func contract_parent_names() {
	f := &File{Package: &Package{Name: "p"}}
	p := zzNested(f)
	m := &Message{File: f, Name: zzvrt.String("name"), ParentMessage: p}
	got := m.ParentMessageNames()
	anc := zzGhostNames(p)
	zzvrt.Ensures("one name per enclosing message", len(got) == len(anc)+1)
	zzvrt.Ensures("outer names first", zzvrt.Forall(0, len(anc), func(i int) bool { return got[i] == anc[i] }))
	zzvrt.Ensures("the direct parent last", got[len(anc)] == p.Name)
	top := &Message{File: f, Name: "top"}
	zzvrt.Ensures("a top level message has none", len(top.ParentMessageNames()) == 0)
}

// zzChain is a message at nesting depth 0..3 and its full name.
func zzChain(f *File, pkg string) (*Message, string) {
	a := &Message{File: f, Name: zzvrt.String("a")}
	b := &Message{File: f, Name: zzvrt.String("b"), ParentMessage: a}
	c := &Message{File: f, Name: zzvrt.String("c"), ParentMessage: b}
	d := &Message{File: f, Name: zzvrt.String("d"), ParentMessage: c}
	s := pkg + "." + a.Name
	switch zzvrt.Choice("nesting", 4) {
	case 0:
		return a, s
	case 1:
		return b, s + "." + b.Name
	case 2:
		return c, s + "." + b.Name + "." + c.Name
	}
	return d, s + "." + b.Name + "." + c.Name + "." + d.Name
}

//verif:property P20
//verif:title fully qualified names of every kind of declaration
func contract_fqdn() {
	pkg := zzvrt.String("pkg")
	f := &File{Package: &Package{Name: pkg}}
	m, name := zzChain(f, pkg)
	zzvrt.Ensures("message", m.FQDN() == name)
	own := zzvrt.String("own")
	zzvrt.Ensures("field", (&Field{Message: m, Name: own}).FQDN() == name+"."+own)
	zzvrt.Ensures("oneof field", (&OneofField{Field: &Field{Message: m, Name: own, Oneof: &Oneof{Message: m, Name: zzvrt.String("oneof")}}}).FQDN() == name+"."+own)
	e := &Enum{File: f, Message: m, Name: own}
	zzvrt.Ensures("nested enum", e.FQDN() == name+"."+own)
	zzvrt.Ensures("enum value", (&EnumValue{Enum: e, Value: "V"}).FQDN() == name+"."+own+".V")
	te := &Enum{File: f, Name: own}
	zzvrt.Ensures("top level enum", te.FQDN() == pkg+"."+own)
	s := &Service{File: f, Name: own}
	zzvrt.Ensures("service", s.FQDN() == pkg+"."+own)
	meth := zzvrt.String("method")
	zzvrt.Ensures("method", (&Method{Service: s, Name: meth}).FQDN() == pkg+"."+own+"/"+meth)
}

//verif:property P20
//verif:title the full name of a message at any nesting depth
//verif:usemodel (*github.com/mercari/grpc-federation/resolver.Message).ParentMessageNames zzGhostNames
func contract_message_fqdn() {
	pkg := zzvrt.String("pkg")
	f := &File{Package: &Package{Name: pkg}}
	m := &Message{File: f, Name: zzvrt.String("name")}
	if zzvrt.Native() {
		c := m
		anc := zzGhostNames(nil)
		for i := len(anc) - 1; i >= 0; i-- {
			c.ParentMessage = &Message{File: f, Name: anc[i]}
			c = c.ParentMessage
		}
	}
	want := append(append([]string{pkg}, zzGhostNames(nil)...), m.Name)
	zzvrt.Ensures("package, enclosing messages from the outermost inwards, own name", m.FQDN() == strings.Join(want, "."))
}

//verif:property P20
//verif:title type names
func contract_type_fqdn() {
	pkg := zzvrt.String("pkg")
	f := &File{Package: &Package{Name: pkg}}
	m, name := zzChain(f, pkg)
	rep := ""
	repeated := zzvrt.Bool("repeated")
	if repeated {
		rep = "repeated "
	}
	zzvrt.Ensures("message type", (&Type{Kind: 11, Message: m, Repeated: repeated}).FQDN() == rep+name)
	e := &Enum{File: f, Name: "E"}
	zzvrt.Ensures("enum type", (&Type{Kind: 14, Enum: e, Repeated: repeated}).FQDN() == rep+pkg+".E")
	zzvrt.Ensures("scalar type", (&Type{Kind: 3, Repeated: repeated}).FQDN() == rep+"int64")
	entry := &Message{File: f, Name: "Entry", IsMapEntry: true, Fields: []*Field{
		{Name: "key", Type: &Type{Kind: 9}}, {Name: "value", Type: &Type{Kind: 11, Message: m}},
	}}
	zzvrt.Ensures("map type", (&Type{Kind: 11, Message: entry, Repeated: true}).FQDN() == "map<string, "+name+">")
}

func zzPart(name string) string {
	if !zzvrt.Native() {
		return zzvrt.String(name)
	}
	words := []string{"a", "foo", "Bar", "x1", "org_v2", "postService"}
	return words[zzvrt.Choice(name, len(words))]
}

//verif:property P20
//verif:title a full method name splits without loss
func contract_split_method_lossless() {
	r := &Resolver{}
	own := &Package{Name: zzPart("own")}
	name := zzvrt.String("name")
	if zzvrt.Native() {
		name = zzPart("pkg") + "." + zzPart("svc")
		if zzvrt.Bool("own") {
			name = zzPart("svc")
		}
		if zzvrt.Bool("slash") {
			name += "/" + zzPart("method")
		}
		if zzvrt.Choice("more", 4) == 0 {
			name += "/x"
		}
	}
	p, s, m, err := r.splitMethodFullName(own, name)
	if err != nil {
		zzvrt.Ensures("nothing is returned with an error", p == "" && s == "" && m == "")
		return
	}
	zzvrt.Ensures("the parts make up the name", p+"."+s+"/"+m == name || p == own.Name && s+"/"+m == name)
}

//verif:property P20
//verif:title a Go package option splits without loss
func contract_split_go_package_lossless() {
	name := zzvrt.String("name")
	if zzvrt.Native() {
		name = zzPart("a") + "/" + zzPart("b")
		for i := 0; i < zzvrt.Choice("more", 3); i++ {
			name += ";" + zzPart("c")
		}
	}
	p, n, err := splitGoPackageName(name)
	if err != nil {
		zzvrt.Ensures("nothing is returned with an error", p == "" && n == "")
		return
	}
	zzvrt.Ensures("path and name make up the option", p+";"+n == name || p == name)
}

//verif:property P20
//verif:title a full method name splits into exactly its parts or is rejected
//verif:bounded
func contract_split_method() {
	r := &Resolver{}
	own := &Package{Name: zzPart("own")}
	if !zzvrt.Native() {
		return
	}
	n := zzvrt.Size("dots")
	pkg := ""
	for i := 0; i < n; i++ {
		if i > 0 {
			pkg += "."
		}
		pkg += zzPart("pkg" + string(rune('0'+i)))
	}
	svc, meth := zzPart("svc"), zzPart("method")
	full := svc
	want := own.Name
	if n > 0 {
		full, want = pkg+"."+svc, pkg
	}
	p, s, m, err := r.splitMethodFullName(own, full+"/"+meth)
	zzvrt.Ensures("its parts", err == nil && p == want && s == svc && m == meth)
	for _, bad := range []string{full, full + "/" + meth + "/x", full + "." + meth, ""} {
		_, _, _, err := r.splitMethodFullName(own, bad)
		zzvrt.Ensures("anything else is rejected", err != nil)
	}
}

//verif:property P20
//verif:title a Go package option splits into import path and package name
//verif:bounded
func contract_split_go_package() {
	if !zzvrt.Native() {
		return
	}
	n := zzvrt.Size("n")
	path := zzPart("host")
	last := path
	for i := 0; i < n; i++ {
		last = zzPart("dir" + string(rune('0'+i)))
		path += "/" + last
	}
	ip, name, err := splitGoPackageName(path)
	zzvrt.Ensures("the last element names the package", err == nil && ip == path && name == last)
	own := zzPart("own")
	ip, name, err = splitGoPackageName(path + ";" + own)
	zzvrt.Ensures("an explicit name is used", err == nil && ip == path && name == own)
	_, _, err = splitGoPackageName(path + ";" + own + ";x")
	zzvrt.Ensures("more than one name is rejected", err != nil)
}
