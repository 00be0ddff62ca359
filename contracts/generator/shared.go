package generator

import "github.com/mercari/grpc-federation/resolver"

func zzResolverFile(pkg string) *resolver.File {
	return &resolver.File{
		Name:      pkg + ".proto",
		Package:   &resolver.Package{Name: pkg},
		GoPackage: &resolver.GoPackage{Name: pkg, ImportPath: "example/" + pkg},
	}
}
