package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/RomiChan/protobuf"

type Program struct {
	prog  *ssa.Program
	proto *ssa.Package
	rr    *ssa.Package
	gen   *ssa.Package
	fns   map[string]*ssa.Function // short name -> function
	sizes types.Sizes
	ginit map[*ssa.Global]map[string]ssa.Value // global -> field path -> value stored by init
	muts  map[*ssa.Global]bool                 // globals written outside init
}

var P *Program

func repoEnv() []string {
	return append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local")
}

func loadProgram(dir string) *Program {
	cfg := &packages.Config{Dir: dir, Mode: packages.LoadSyntax, Env: repoEnv()}
	ps, err := packages.Load(cfg, "./proto", "./internal/runtime_reflect", "./internal/generator")
	if err != nil {
		panic(toolErr{"load: " + err.Error()})
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		panic(toolErr{"load: " + strings.Join(errs, "; ")})
	}
	prog, sps := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{prog: prog, fns: map[string]*ssa.Function{}, sizes: types.SizesFor("gc", "amd64"), ginit: map[*ssa.Global]map[string]ssa.Value{}, muts: map[*ssa.Global]bool{}}
	for _, sp := range sps {
		switch sp.Pkg.Path() {
		case modPath + "/proto":
			p.proto = sp
		case modPath + "/internal/runtime_reflect":
			p.rr = sp
		case modPath + "/internal/generator":
			p.gen = sp
		}
	}
	if p.proto == nil || p.rr == nil || p.gen == nil {
		panic(toolErr{"load: expected packages missing"})
	}
	for fn := range ssautil.AllFunctions(prog) {
		p.fns[fnName(fn)] = fn
		p.scanInit(fn)
	}
	// methods of generic types, as declared
	for _, n := range p.proto.Pkg.Scope().Names() {
		tn, ok := p.proto.Pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		nt, ok := tn.Type().(*types.Named)
		if !ok || nt.TypeParams().Len() == 0 {
			continue
		}
		for i := 0; i < nt.NumMethods(); i++ {
			if fn := prog.FuncValue(nt.Method(i)); fn != nil && len(fn.Blocks) > 0 {
				p.fns[fnName(fn)] = fn
			}
		}
	}
	return p
}

// fnName gives functions of the repository a short stable name, for example
// appendVarint, (*structInfo).decode, mapDecodeFuncOf$1, gen.fieldGoType.
func fnName(fn *ssa.Function) string {
	n := fn.RelString(nil)
	n = strings.ReplaceAll(n, modPath+"/proto.", "")
	n = strings.ReplaceAll(n, modPath+"/internal/runtime_reflect.", "rr.")
	n = strings.ReplaceAll(n, modPath+"/internal/generator.", "gen.")
	return n
}

func inRepo(fn *ssa.Function) bool {
	p := fn.Pkg
	if p == nil && fn.Origin() != nil {
		p = fn.Origin().Pkg
	}
	if p == nil {
		// wrappers and instances
		if o := fn.Object(); o != nil && o.Pkg() != nil {
			return strings.HasPrefix(o.Pkg().Path(), modPath)
		}
		return false
	}
	return strings.HasPrefix(p.Pkg.Path(), modPath)
}

// scanInit records what package initialisation stores into globals, and which
// globals are written anywhere else.
func (p *Program) scanInit(fn *ssa.Function) {
	isInit := fn.Name() == "init" && fn.Synthetic != ""
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			var path string
			a := st.Addr
			for {
				if fa, ok := a.(*ssa.FieldAddr); ok {
					path = fmt.Sprintf(".%d%s", fa.Field, path)
					a = fa.X
					continue
				}
				break
			}
			g, ok := a.(*ssa.Global)
			if !ok {
				continue
			}
			if isInit {
				if p.ginit[g] == nil {
					p.ginit[g] = map[string]ssa.Value{}
				}
				p.recInit(g, path, st.Val, 0)
			} else {
				p.muts[g] = true
			}
		}
	}
}

// recInit records an initial value; composite literals built in a temporary
// are taken apart.
func (p *Program) recInit(g *ssa.Global, path string, v ssa.Value, depth int) {
	p.ginit[g][path] = v
	u, ok := v.(*ssa.UnOp)
	if !ok || depth > 4 {
		return
	}
	al, ok := u.X.(*ssa.Alloc)
	if !ok {
		return
	}
	for _, r := range *al.Referrers() {
		fa, ok := r.(*ssa.FieldAddr)
		if !ok {
			continue
		}
		for _, r2 := range *fa.Referrers() {
			if s, ok := r2.(*ssa.Store); ok && s.Addr == fa {
				p.recInit(g, fmt.Sprintf("%s.%d", path, fa.Field), s.Val, depth+1)
			}
		}
	}
}

func isNamed(t types.Type, pkg, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	return n.Obj().Pkg().Path() == pkg && n.Obj().Name() == name
}

// internalName returns the name of a type declared in the proto package.
func internalName(t types.Type) string {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != modPath+"/proto" {
		return ""
	}
	return n.Obj().Name()
}

func isUnsafePtr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.UnsafePointer
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}
func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// roleOf classifies codec functions by signature.
func roleOf(t types.Type) string {
	sg, ok := t.Underlying().(*types.Signature)
	if !ok {
		return ""
	}
	ps, rs := sg.Params(), sg.Results()
	isF := func(t types.Type) bool {
		p, ok := t.Underlying().(*types.Pointer)
		return ok && internalName(p.Elem()) == "structField"
	}
	isInt := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Kind() == types.Int
	}
	switch {
	case ps.Len() == 2 && rs.Len() == 1 && isUnsafePtr(ps.At(0).Type()) && isF(ps.At(1).Type()) && isInt(rs.At(0).Type()):
		return "size"
	case ps.Len() == 3 && rs.Len() == 1 && isByteSlice(ps.At(0).Type()) && isUnsafePtr(ps.At(1).Type()) && isF(ps.At(2).Type()) && isByteSlice(rs.At(0).Type()):
		return "encode"
	case ps.Len() == 2 && rs.Len() == 2 && isByteSlice(ps.At(0).Type()) && isUnsafePtr(ps.At(1).Type()) && isInt(rs.At(0).Type()) && isErrorType(rs.At(1).Type()):
		return "decode"
	}
	return ""
}
