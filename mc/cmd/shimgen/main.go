// Command shimgen writes shim/<pkg>/zz_gen.go: aliases for everything a standard package exports that
// the hand-written shim does not override.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"
)

// for os, only these functions and variables are passed through
var osAllow = map[string]bool{"IsExist": true, "IsNotExist": true, "IsPermission": true, "IsTimeout": true, "Expand": true,
	"NewSyscallError": true, "IsPathSeparator": true, "Getpagesize": true,
	"ErrInvalid": true, "ErrPermission": true, "ErrExist": true, "ErrNotExist": true, "ErrClosed": true, "ErrNoDeadline": true,
	"ErrDeadlineExceeded": true, "ErrProcessDone": true, "Interrupt": true, "Kill": true}
var osDenyType = map[string]bool{"File": true, "Process": true, "ProcAttr": true, "ProcessState": true, "Root": true}

// packages whose functions must all be overridden or absent: only constants, types, error variables and listed functions pass
var netAllow = map[string]bool{"ParseIP": true, "ParseCIDR": true, "ParseMAC": true, "IPv4": true, "IPv4Mask": true, "CIDRMask": true,
	"JoinHostPort": true, "SplitHostPort": true, "UDPAddrFromAddrPort": true, "TCPAddrFromAddrPort": true,
	"ErrClosed": true, "ErrWriteToConnected": true, "IPv4bcast": true, "IPv4allsys": true, "IPv4allrouter": true, "IPv4zero": true,
	"IPv6zero": true, "IPv6unspecified": true, "IPv6loopback": true, "IPv6interfacelocalallnodes": true, "IPv6linklocalallnodes": true, "IPv6linklocalallrouters": true}

var httpAllow = map[string]bool{"StatusText": true, "Error": true, "NewRequest": true, "NotFoundHandler": true, "NewServeMux": true}

func main() {
	root := os.Args[1]
	for _, pkg := range os.Args[2:] {
		gen(root, pkg)
	}
}

func gen(root, pkg string) {
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "source", nil)
	p, err := imp.Import(pkg)
	if err != nil {
		panic(err)
	}
	dir := filepath.Join(root, "shim", pkg)
	have := map[string]bool{}
	ents, _ := os.ReadDir(dir)
	for _, e := range ents {
		if !strings.HasSuffix(e.Name(), ".go") || e.Name() == "zz_gen.go" {
			continue
		}
		f, err := parser.ParseFile(fset, filepath.Join(dir, e.Name()), nil, 0)
		if err != nil {
			panic(err)
		}
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil {
					have[d.Name.Name] = true
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.TypeSpec:
						have[s.Name.Name] = true
					case *ast.ValueSpec:
						for _, n := range s.Names {
							have[n.Name] = true
						}
					}
				}
			}
		}
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "// Code generated by shimgen; DO NOT EDIT.\n\npackage %s\n\nimport real %q\n\n", p.Name(), pkg)
	n := 0
	for _, name := range p.Scope().Names() {
		o := p.Scope().Lookup(name)
		if !o.Exported() || have[name] {
			continue
		}
		switch o := o.(type) {
		case *types.Const:
			fmt.Fprintf(&b, "const %s = real.%s\n", name, name)
		case *types.TypeName:
			if pkg == "os" && osDenyType[name] {
				continue
			}
			if nt, ok := o.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "type %s = real.%s\n", name, name)
		case *types.Var, *types.Func:
			if fn, ok := o.(*types.Func); ok {
				sig := fn.Type().(*types.Signature)
				if sig.TypeParams().Len() > 0 {
					continue
				}
			}
			if pkg == "os" && !osAllow[name] || pkg == "net" && !netAllow[name] || pkg == "net/http" && !httpAllow[name] {
				continue
			}
			fmt.Fprintf(&b, "var %s = real.%s\n", name, name)
		}
		n++
	}
	if n == 0 {
		os.Remove(filepath.Join(dir, "zz_gen.go"))
		return
	}
	out, err := format.Source(b.Bytes())
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(filepath.Join(dir, "zz_gen.go"), out, 0644); err != nil {
		panic(err)
	}
}
