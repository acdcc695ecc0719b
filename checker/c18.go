package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// cellOp is one atomic or lock operation on a memory cell.
type cellOp struct {
	at   ssa.Instruction
	kind string // load, vload (load of an atomic type), mutate, lock
	addr ssa.Value
	name string
}

func cellOpOf(i ssa.Instruction) (cellOp, bool) {
	ci, ok := i.(ssa.CallInstruction)
	if !ok {
		return cellOp{}, false
	}
	c := ci.Common()
	if k, v := lockOp(c); k != "" && !c.IsInvoke() {
		return cellOp{i, "lock", v, k}, true
	}
	f := c.StaticCallee()
	if f == nil || len(c.Args) == 0 {
		return cellOp{}, false
	}
	pkg, recv, name := calleeName(f)
	if pkg != "sync/atomic" {
		return cellOp{}, false
	}
	kind := "mutate"
	if strings.HasPrefix(name, "Load") {
		kind = "load"
		if recv != "" {
			kind = "vload"
		}
	}
	return cellOp{i, kind, c.Args[0], strings.TrimPrefix(recv+"."+name, ".")}, true
}

// hasCell: values of t hold an atomic type or a lock.
func hasCell(t types.Type) bool {
	seen := map[types.Type]bool{}
	var walk func(t types.Type) bool
	walk = func(t types.Type) bool {
		t = types.Unalias(t)
		if seen[t] {
			return false
		}
		seen[t] = true
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			p := n.Obj().Pkg().Path()
			if p == "sync/atomic" || p == "sync" || strings.HasSuffix(p, "/trylock") {
				_, st := n.Underlying().(*types.Struct)
				return st
			}
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				if walk(u.Field(i).Type()) {
					return true
				}
			}
		case *types.Array:
			return walk(u.Elem())
		}
		return false
	}
	return walk(t)
}

// bindings gives the values captured as free variable fv.
func (e *Effects) bindings(fv *ssa.FreeVar) []ssa.Value {
	var r []ssa.Value
	f := fv.Parent()
	idx := -1
	for i, v := range f.FreeVars {
		if v == fv {
			idx = i
		}
	}
	if idx < 0 {
		return nil
	}
	// a bound method value may be made anywhere
	makers := e.P.fns
	if p := f.Parent(); p != nil {
		makers = []*ssa.Function{p}
	}
	for _, p := range makers {
		for _, b := range p.Blocks {
			for _, i := range b.Instrs {
				if m, ok := i.(*ssa.MakeClosure); ok && m.Fn == ssa.Value(f) && idx < len(m.Bindings) {
					r = append(r, m.Bindings[idx])
				}
			}
		}
	}
	return r
}

// copiedFrom: what the local cell a is a copy of, or "".
func (P *Prog) copiedFrom(a *ssa.Alloc) string {
	var from string
	var src func(v ssa.Value, d int) string
	src = func(v ssa.Value, d int) string {
		if d > 8 {
			return ""
		}
		switch t := stripConv(v).(type) {
		case *ssa.UnOp:
			if t.Op.String() == "*" {
				r := addrRoot(t.X)
				if al, ok := r.(*ssa.Alloc); ok {
					if al == a {
						return ""
					}
					return P.copiedFrom(al)
				}
				return "the cell loaded at " + P.instrPos(t)
			}
		case *ssa.Parameter:
			return "the parameter " + t.Name() + ", which is passed by value"
		case *ssa.Lookup:
			return "the map element read at " + P.instrPos(t)
		case *ssa.Extract:
			switch t.Tuple.(type) {
			case *ssa.Next, *ssa.Lookup:
				return "the map element read at " + P.instrPos(t.Tuple.(ssa.Instruction))
			}
			return src(t.Tuple, d+1)
		case *ssa.Phi:
			for _, e := range t.Edges {
				if s := src(e, d+1); s != "" {
					return s
				}
			}
		case *ssa.Call:
			if _, b := t.Call.Value.(*ssa.Builtin); b {
				return ""
			}
			if _, ok := t.Type().Underlying().(*types.Struct); ok || hasCell(t.Type()) {
				return "the value returned at " + P.instrPos(t)
			}
		case *ssa.Field:
			return src(t.X, d+1)
		}
		return ""
	}
	for _, r := range *a.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(a) {
			if x := src(s.Val, 0); x != "" {
				from = x
			}
		}
	}
	return from
}

// plainCopy: the local holds a struct that was copied from shared memory with
// one plain load.
func (P *Prog) plainCopy(a *ssa.Alloc) string {
	if _, ok := deref(a.Type()).Underlying().(*types.Struct); !ok {
		return ""
	}
	for _, r := range *a.Referrers() {
		s, ok := r.(*ssa.Store)
		if !ok || s.Addr != ssa.Value(a) {
			continue
		}
		if u, ok := stripConv(s.Val).(*ssa.UnOp); ok && u.Op == token.MUL {
			switch addrRoot(u.X).(type) {
			case *ssa.Alloc, *ssa.FreeVar:
			default:
				return "the struct loaded at " + P.instrPos(u)
			}
		}
	}
	return ""
}

func init() {
	register("C18", "The receiver of every atomic store/CAS/load on an atomic type and of every lock operation, followed through parameters and captured variables, is not a local variable holding a copy of another cell; locks are not purely local; atomics and locks are not stored by value in maps; a cell is not duplicated by loading its content into a new cell; no loop waits on a private copy.",
		func(P *Prog, eff *Effects, r *Report) {
			type pk struct {
				f    *ssa.Function
				i    int
				kind string
			}
			ops := map[pk]string{}
			n := 0
			var check func(f *ssa.Function, at ssa.Instruction, kind, name string, addr ssa.Value, via string) (changed bool)
			check = func(f *ssa.Function, at ssa.Instruction, kind, name string, addr ssa.Value, via string) bool {
				switch t := addrRoot(addr).(type) {
				case *ssa.Parameter:
					for i, p := range f.Params {
						if p == t {
							if _, ok := p.Type().Underlying().(*types.Struct); ok {
								return false
							}
							if _, ok := ops[pk{f, i, kind}]; !ok {
								ops[pk{f, i, kind}] = via + " -> " + fname(f)
								return true
							}
						}
					}
				case *ssa.FreeVar:
					for _, b := range eff.bindings(t) {
						if al, ok := addrRoot(b).(*ssa.Alloc); ok && kind != "load" {
							if from := P.copiedFrom(al); from != "" {
								r.violate(P.instrPos(at), fname(f), "operation on a copy", fmt.Sprintf("%s acts on a local copy of %s", name, from), via)
							}
						}
					}
				case *ssa.Alloc:
					if kind == "load" {
						// reading a snapshot is fine if it was taken with atomic loads
						if from := P.plainCopy(t); from != "" && !strings.HasPrefix(name, "call of ") {
							r.violate(P.instrPos(at), fname(f), "operation on a copy", fmt.Sprintf("%s reads a local copy of %s, which was not read atomically", name, from), via)
						}
						return false
					}
					if from := P.copiedFrom(t); from != "" {
						r.violate(P.instrPos(at), fname(f), "operation on a copy", fmt.Sprintf("%s acts on a local copy of %s", name, from), via)
					}
				}
				return false
			}
			for _, f := range P.fns {
				for _, b := range f.Blocks {
					for _, i := range b.Instrs {
						if op, ok := cellOpOf(i); ok {
							n++
							nv := len(r.viols)
							check(f, i, op.kind, op.name, op.addr, fname(f))
							if op.kind == "lock" {
								if al, ok := addrRoot(op.addr).(*ssa.Alloc); ok && onlyLocked(al) {
									r.violate(P.instrPos(i), fname(f), "lock of nothing", "the lock is a local variable no other goroutine can see", "")
								}
							}
							r.obligation(P.instrPos(i)+" "+op.name, len(r.viols) == nv)
						}
						switch t := i.(type) {
						case *ssa.MapUpdate:
							if hasCell(t.Value.Type()) {
								r.violate(P.instrPos(i), fname(f), "cell stored by value", "an atomic cell or lock is copied into a map", "")
							}
						case *ssa.Lookup:
							if m, ok := t.X.Type().Underlying().(*types.Map); ok && hasCell(m.Elem()) {
								r.violate(P.instrPos(i), fname(f), "cell stored by value", "an atomic cell or lock is copied out of a map", "")
							}
						}
					}
				}
				P.dupCells(f, r)
				P.spinOnCopy(f, r)
			}
			for ch := true; ch; {
				ch = false
				for _, f := range P.fns {
					for _, cs := range eff.calls[f] {
						for k, via := range cp(ops) {
							if k.f != cs.callee || k.i >= len(cs.args) {
								continue
							}
							if check(f, cs.instr, k.kind, "call of "+fname(cs.callee), cs.args[k.i], via) {
								ch = true
							}
						}
					}
				}
			}
			r.count("operations followed through parameters", len(ops))
			r.need("atomic and lock operations", n)
			sort.Slice(r.viols, func(i, j int) bool { return r.viols[i].Where < r.viols[j].Where })
		})
}

// onlyLocked: every use of the local is a lock operation.
func onlyLocked(a *ssa.Alloc) bool {
	if !hasCell(deref(a.Type())) {
		return false
	}
	var uses func(v ssa.Value) bool
	uses = func(v ssa.Value) bool {
		for _, ref := range *v.Referrers() {
			switch t := ref.(type) {
			case *ssa.FieldAddr:
				if !uses(t) {
					return false
				}
			case *ssa.DebugRef:
			case ssa.CallInstruction:
				if k, l := lockOp(t.Common()); k == "" || l != v {
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	return uses(a)
}

// dupCells: the content of one shared cell is stored into a new cell that is
// published in a map, so that updates of the old cell are lost.
func (P *Prog) dupCells(f *ssa.Function, r *Report) {
	fromCell := func(v ssa.Value) bool {
		for d := 0; d < 8; d++ {
			switch t := v.(type) {
			case *ssa.MakeInterface:
				v = t.X
			case *ssa.TypeAssert:
				v = t.X
			case *ssa.Extract:
				v = t.Tuple
			case *ssa.ChangeInterface:
				v = t.X
			case *ssa.ChangeType:
				v = t.X
			case *ssa.Call:
				sc := t.Call.StaticCallee()
				if sc == nil {
					return false
				}
				p, recv, n := calleeName(sc)
				if p == "sync/atomic" && recv != "" && n == "Load" {
					_, local := addrRoot(t.Call.Args[0]).(*ssa.Alloc)
					return !local
				}
				return false
			default:
				return false
			}
		}
		return false
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			op, ok := cellOpOf(i)
			if !ok || op.kind != "mutate" || !strings.HasSuffix(op.name, ".Store") {
				continue
			}
			al, ok := addrRoot(op.addr).(*ssa.Alloc)
			if !ok {
				continue
			}
			inMap := false
			for _, ref := range *al.Referrers() {
				if m, ok := ref.(*ssa.MapUpdate); ok && m.Value == ssa.Value(al) {
					inMap = true
				}
			}
			if inMap && fromCell(i.(ssa.CallInstruction).Common().Args[1]) {
				r.violate(P.instrPos(i), fname(f), "cell duplicated", "a new cell with the content of a shared cell takes its place; updates of the old cell are lost", "")
			}
		}
	}
}

// spinOnCopy: a loop whose only way out depends on loads from a local copy.
func (P *Prog) spinOnCopy(f *ssa.Function, r *Report) {
	for _, h := range f.Blocks {
		var body map[*ssa.BasicBlock]bool
		for _, p := range h.Preds {
			if h.Dominates(p) {
				if body == nil {
					body = map[*ssa.BasicBlock]bool{h: true}
				}
				st := []*ssa.BasicBlock{p}
				for len(st) > 0 {
					b := st[len(st)-1]
					st = st[:len(st)-1]
					if !body[b] {
						body[b] = true
						st = append(st, b.Preds...)
					}
				}
			}
		}
		if body == nil {
			continue
		}
		if _, ok := h.Instrs[0].(*ssa.Phi); ok {
			continue
		}
		copyLoad, changes := "", false
		for b := range body {
			for _, i := range b.Instrs {
				switch t := i.(type) {
				case *ssa.Store, *ssa.MapUpdate, *ssa.Send, *ssa.Phi, *ssa.Next, *ssa.Select:
					changes = true
				case *ssa.UnOp:
					if t.Op.String() == "*" && !isLocalRoot(t.X) {
						changes = true
					}
				case ssa.CallInstruction:
					c := t.Common()
					if len(c.Args) > 0 {
						if al, ok := addrRoot(c.Args[0]).(*ssa.Alloc); ok && P.copiedFrom(al) != "" {
							copyLoad = P.instrPos(i)
							continue
						}
					}
					changes = true
				}
			}
		}
		if copyLoad != "" && !changes {
			r.violate(copyLoad, fname(f), "waiting on a copy", "the loop waits for a change of a local copy, which no other goroutine can make", "")
		}
	}
}
