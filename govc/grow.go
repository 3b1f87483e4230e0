package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Contracts with the flag `grows`: the function and everything it calls in the
// module touch nothing but their own variables and the generated file, and the
// file only through operations that add text. That is a frame condition on the
// instructions of the functions; it needs no path condition, so it is decided
// from the instructions alone.

type grower struct {
	seen map[*ssa.Function]bool
	bad  []string
	n    int
	inl  map[string]bool
	ext  map[string]bool
}

func isGenFile(t types.Type) bool {
	p, ok := t.(*types.Pointer)
	return ok && strings.HasSuffix(types.TypeString(p.Elem(), nil), "compiler/protogen.GeneratedFile")
}

func (w *grower) fail(in ssa.Instruction, f string, a ...any) {
	w.bad = append(w.bad, fmt.Sprintf("%s: %s", P.prog.Fset.Position(in.Pos()), fmt.Sprintf(f, a...)))
}

// local: the address is one of the function's own variables or of an object it
// made itself.
func local(v ssa.Value) bool { return ownObject(v, map[ssa.Value]bool{}) }

func ownObject(v ssa.Value, seen map[ssa.Value]bool) bool {
	for {
		if seen[v] {
			return true
		}
		seen[v] = true
		switch a := v.(type) {
		case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap:
			return true
		case *ssa.FieldAddr:
			v = a.X
		case *ssa.IndexAddr:
			v = a.X
		case *ssa.Slice:
			v = a.X
		case *ssa.Phi:
			for _, e := range a.Edges {
				if !ownObject(e, seen) {
					return false
				}
			}
			return true
		case *ssa.Call:
			// a slice append made: its array may be shared, unless it grows
			// from one of the function's own
			if b, ok := a.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				v = a.Call.Args[0]
				continue
			}
			return false
		case *ssa.FreeVar:
			return true // a variable of the enclosing function
		case *ssa.Const:
			return a.IsNil()
		default:
			return false
		}
	}
}

func (w *grower) walk(fn *ssa.Function) {
	if w.seen[fn] {
		return
	}
	w.seen[fn] = true
	w.inl[fnName(fn)] = true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			w.n++
			switch in := in.(type) {
			case *ssa.Store:
				if !local(in.Addr) {
					w.fail(in, "stores to memory that is not its own")
				}
			case *ssa.MapUpdate:
				if !local(in.Map) {
					w.fail(in, "changes a map that is not its own")
				}
			case *ssa.Send, *ssa.Go, *ssa.Select:
				w.fail(in, "starts or talks to another goroutine")
			case *ssa.MakeInterface:
				if isGenFile(in.X.Type()) {
					w.fail(in, "the generated file escapes into an interface")
				}
			case *ssa.MakeClosure:
				w.walk(in.Fn.(*ssa.Function))
			case ssa.CallInstruction:
				w.call(in)
			}
		}
	}
}

func (w *grower) call(in ssa.CallInstruction) {
	c := in.Common()
	file := false
	for _, a := range c.Args {
		file = file || isGenFile(a.Type())
	}
	if c.IsInvoke() {
		if file {
			w.fail(in, "passes the generated file to an interface method")
		}
		return
	}
	switch f := c.Value.(type) {
	case *ssa.Builtin:
		if n := f.Name(); (n == "copy" || n == "delete" || n == "clear") && !local(c.Args[0]) {
			w.fail(in, "%s on an object that is not its own", n)
		} else if n == "append" && !local(c.Args[0]) {
			w.fail(in, "appends to a slice that is not its own")
		}
		return
	case *ssa.Function:
		if len(f.Blocks) > 0 && f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), "github.com/RomiChan/protobuf/") {
			w.walk(f)
			return
		}
		w.ext[fnName(f)] = true
		if file {
			switch f.Name() {
			case "P", "QualifiedGoIdent", "Annotate", "Import":
			default:
				w.fail(in, "uses the generated file other than by adding text")
			}
		}
		return
	}
	if file {
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			w.walk(mc.Fn.(*ssa.Function))
			return
		}
		w.fail(in, "passes the generated file to an unknown function")
	}
}

func verifyGrows(con *Contract) *TaskResult {
	fn := P.fns[con.name]
	if fn == nil || len(fn.Blocks) == 0 {
		return &TaskResult{Fn: con.name, Missing: true, Props: con.allProps()}
	}
	w := &grower{seen: map[*ssa.Function]bool{}, inl: map[string]bool{}, ext: map[string]bool{}}
	w.walk(fn)
	delete(w.inl, con.name)
	o := &Obligation{Fn: con.name, Name: "nothing but the generated file changes, and that only grows", Kind: "frame", Props: con.props, Paths: w.n, OK: len(w.bad) == 0, Backend: "syntactic", Pos: posOf(fn)}
	if !o.OK {
		o.Detail = strings.Join(w.bad, "\n")
	}
	return &TaskResult{Fn: con.name, Obs: []*Obligation{o}, Props: con.allProps(), Ext: keysOf(w.ext), Inl: keysOf(w.inl)}
}
