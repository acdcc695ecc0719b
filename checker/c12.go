package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	ruleKept  = "references to stored entries are never dropped"
	rulePools = "a pool is referred to by the map as long as the map"
)

// storage: a struct that contains slots, in tables or in structs it consists of or points to.
func (P *Prog) storage(t types.Type) bool { return storageType(t, map[types.Type]bool{}) }

func storageType(t types.Type, seen map[types.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	if typeIs(t, "skiplistmap", "Map") {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return storageType(u.Elem(), seen)
	case *types.Array:
		return storageType(u.Elem(), seen)
	case *types.Slice:
		return isSampleT(u.Elem()) || storageType(u.Elem(), seen)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if storageType(u.Field(i).Type(), seen) {
				return true
			}
		}
	}
	return false
}

// makes: every result of the function is a new object of a storage type.
func (P *Prog) makes(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if f == nil || seen[f] || len(f.Blocks) == 0 || f.Signature.Results().Len() != 1 {
		return false
	}
	t := f.Signature.Results().At(0).Type()
	if _, ok := t.Underlying().(*types.Pointer); !ok || !P.storage(t) {
		return false
	}
	seen[f] = true
	n := 0
	for _, b := range f.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		n++
		if !P.made(ret.Results[0], seen, map[ssa.Value]bool{}) {
			return false
		}
	}
	return n > 0
}

func (P *Prog) made(v ssa.Value, seen map[*ssa.Function]bool, vs map[ssa.Value]bool) bool {
	v = stripConv(v)
	if vs[v] {
		return true
	}
	vs[v] = true
	switch y := v.(type) {
	case *ssa.Alloc:
		return y.Heap && P.storage(deref(y.Type()))
	case *ssa.Phi:
		for _, e := range y.Edges {
			if !P.made(e, seen, vs) {
				return false
			}
		}
		return true
	case *ssa.Call:
		return P.makes(y.Call.StaticCallee(), seen)
	case *ssa.UnOp:
		// a named result
		if a, ok := y.X.(*ssa.Alloc); ok && !a.Heap {
			n := 0
			for _, i := range *a.Referrers() {
				if st, ok := i.(*ssa.Store); ok && st.Addr == a {
					n++
					if !P.made(st.Val, seen, vs) {
						return false
					}
				}
			}
			return n > 0
		}
	}
	return false
}

// retentionCheck: what the map refers to for the garbage collector stays referred to.
func retentionCheck(P *Prog, eff *Effects, r *Report, q *pubRun) {
	var mapT *types.Struct
	var mapN *types.Named
	for f := range q.kinds {
		if n := namedOf(f.Signature.Recv().Type()); n != nil && typeIs(n, "skiplistmap", "Map") {
			mapN = n
			mapT, _ = n.Underlying().(*types.Struct)
		}
	}
	if mapT == nil {
		r.violate("-", "-", "anchor", "the map type was not found", "")
		return
	}
	pools := map[string]bool{}
	for i := 0; i < mapT.NumFields(); i++ {
		if t := mapT.Field(i).Type(); isPtrLike(t) && P.storage(t) {
			k, _, _ := fieldKey(mapN, i)
			pools[k] = true
		}
	}
	r.count("fields that hold references to entries", len(q.refs))
	if dbg {
		fmt.Println(q.refs, pools)
	}
	r.count("pool fields of the map", len(pools))
	writes := func(i ssa.Instruction) string {
		addr, mut := cellMutation(i)
		if !mut {
			return ""
		}
		for _, k := range addrKeys(stripConv(addr), map[ssa.Value]bool{}) {
			if q.refs[k] || pools[k] {
				return k
			}
		}
		return ""
	}
	makesPool := func(v ssa.Value) bool {
		switch y := v.(type) {
		case *ssa.Alloc:
			return y.Heap && P.poolOf(y.Type(), mapT)
		case *ssa.Call:
			return P.poolOf(y.Type(), mapT) && P.makes(y.Call.StaticCallee(), map[*ssa.Function]bool{})
		}
		return false
	}
	drops := map[ssa.Instruction]*Violation{}
	type root struct {
		f     *ssa.Function
		makes bool
	}
	var roots []root
	for _, f := range P.fns {
		w, m := false, false
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				w = w || writes(i) != ""
				if v, ok := i.(ssa.Value); ok {
					m = m || makesPool(v)
				}
				if ci, ok := i.(ssa.CallInstruction); ok {
					w = w || removesRef(ci, q.refs)
				}
			}
		}
		if m && P.makes(f, map[*ssa.Function]bool{}) {
			m = false // judged where it is called
		}
		if w || m {
			roots = append(roots, root{f, m})
		}
	}
	type lost struct {
		f    *ssa.Function
		path string
		at   string
	}
	var unretained []lost
	var bad []Violation
	for _, rt := range roots {
		f := rt.f
		cl := &Client{}
		touch := func(i ssa.Instruction) bool {
			if writes(i) != "" {
				return true
			}
			if v, ok := i.(ssa.Value); ok && makesPool(v) {
				return true
			}
			ci, ok := i.(ssa.CallInstruction)
			return ok && (removesRef(ci, q.refs) || syncMapStore(ci.Common().StaticCallee()))
		}
		to := eff.reachesInstr(touch)
		cl.interesting = func(x *Exec, i ssa.Instruction) bool { return touch(i) }
		cl.noInline = func(g *ssa.Function) bool {
			return !to[g] || P.makes(g, map[*ssa.Function]bool{})
		}
		isMade := func(s *State, t *Term) bool {
			return t != nil && (has(s, "made", t) || t.Op == OAlloc && t.Typ != nil && P.poolOf(t.Typ, mapT))
		}
		cl.onStore = func(x *Exec, s *State, addr, v *Term, i ssa.Instruction, ctx *Ctx) {
			if q.x = x; v == nil {
				return
			}
			k := locKey(addr)
			if w := writes(i); w != "" {
				k = w // through a pointer to one of several fields
			}
			a := rootOf(addr)
			fresh := a.Op == OAlloc && s.fresh[a]
			for _, c := range []*Term{entryTerm(v), v} {
				if isMade(s, c) && fresh && traced(addr) && !pools[k] {
					s.toks[Tok{"held", a, c}] = struct{}{}
				}
				if fresh && c != nil {
					for _, e := range held(s, c) {
						s.toks[Tok{"held", a, e}] = struct{}{}
					}
				}
			}
			if !q.inMap(addr) && !q.refs[k] {
				return
			}
			if fresh {
				return
			}
			t := v.Typ
			if t == nil && addr.Typ != nil {
				t = deref(addr.Typ)
			}
			if t == nil {
				return
			}
			old := x.load(s, addr, t, i, ctx)
			keeps := x.u.evalEq(s, old, x.u.Nil) == 1 || x.u.evalEq(s, old, v) == 1 || q.keeps(s, v, old) || q.keeps(s, rootOf(v), old)
			switch {
			case pools[k]:
				if isMade(s, v) {
					q.mark(s, "stored", v)
				}
				if !keeps {
					drops[i] = &Violation{P.instrPos(i), fname(i.Parent()), rulePools, fmt.Sprintf("%s is replaced", k), s.path(14)}
				}
			case q.refs[k]:
				if !keeps {
					bad = append(bad, Violation{P.instrPos(i), fname(i.Parent()), ruleKept, fmt.Sprintf("%s is overwritten, the entries it referred to may still be linked", k), s.path(14)})
				}
				for _, c := range []*Term{entryTerm(v), v, rootOf(v)} {
					if isMade(s, c) {
						q.mark(s, "retained", c)
					}
					for _, e := range held(s, c) {
						q.mark(s, "retained", e)
					}
				}
			default:
				if !traced(addr) {
					return
				}
				// another field of the map, that is only ever added to
				for _, c := range []*Term{entryTerm(v), v, rootOf(v)} {
					for _, e := range held(s, c) {
						if keeps {
							q.mark(s, "retained", e)
						}
					}
				}
			}
		}
		cl.onMapUpdate = func(x *Exec, s *State, m, k, v *Term, i *ssa.MapUpdate, ctx *Ctx) {
			q.x = x
			for _, e := range []*Term{entryTerm(k), entryTerm(v)} {
				if isMade(s, e) && q.inMap(m) {
					q.mark(s, "retained", e)
				}
			}
		}
		cl.onCall = func(x *Exec, s *State, c *Call) ([]*Outcome, bool) {
			q.x = x
			if c.method != nil {
				return nil, false
			}
			if ci, ok := c.instr.(ssa.CallInstruction); ok && removesRef(ci, q.refs) {
				bad = append(bad, Violation{P.instrPos(c.instr), fname(c.instr.Parent()), ruleKept, "a reference to an entry is removed, the entry may still be linked", s.path(14)})
				return nil, false
			}
			if b, ok := c.common.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				outs := x.builtin(s, c, "append")
				for _, o := range outs {
					if len(c.args) < 2 || len(o.rets) == 0 {
						continue
					}
					for _, e := range held(o.st, rootOf(x.u.slicePart(c.args[1], 0))) {
						o.st.toks[Tok{"held", o.rets[0], e}] = struct{}{}
					}
					o.st.toks[Tok{"extends", o.rets[0], c.args[0]}] = struct{}{}
				}
				return outs, true
			}
			if c.fn != nil && c.fn != f {
				if v, ok := c.instr.(*ssa.Call); ok && makesPool(v) {
					outs := x.opaqueModule(s, c)
					for _, o := range outs {
						if len(o.rets) == 1 {
							q.mark(o.st, "made", o.rets[0])
							o.st.addFact(eqFact(o.rets[0], x.u.Nil, true))
						}
					}
					return outs, true
				}
			}
			if syncMapStore(c.fn) && q.inMap(c.args[0]) {
				for _, a := range c.args[1:] {
					if e := entryTerm(a); isMade(s, e) {
						q.mark(s, "retained", e)
					}
				}
			}
			return nil, false
		}
		x := newExec(P, eff, cl)
		st := newState()
		var args, free []*Term
		for i, p := range f.Params {
			a := x.u.sym("param:"+fname(f)+":"+p.Name(), p.Type(), p.Name())
			st.born[a] = true
			if i == 0 && f.Signature.Recv() != nil {
				st.addFact(eqFact(a, x.u.Nil, true))
			}
			args = append(args, a)
		}
		for _, v := range f.FreeVars {
			a := x.u.sym("free:"+fname(f)+":"+v.Name(), v.Type(), v.Name())
			st.born[a] = true
			free = append(free, a)
		}
		n := 0
		for _, o := range x.run(f, args, free, st, x.ctx(nil, nil, f)) {
			n++
			for t := range o.st.toks {
				if t.kind == "stored" && !has(o.st, "retained", t.a) {
					unretained = append(unretained, lost{f, o.st.path(14), P.pos(f.Pos())})
				}
			}
		}
		r.obligation(fmt.Sprintf("%s: %d paths keep the references of the map", fname(f), n), len(bad) == 0)
		x.finish(r)
	}
	r.report(bad, ruleKept)
	if len(drops) > 0 {
		seen := map[string]bool{}
		for _, l := range unretained {
			if seen[l.at] {
				continue
			}
			seen[l.at] = true
			for _, d := range drops {
				r.violate(d.Where, d.Func, rulePools, fmt.Sprintf("%s although %s stores a pool there that nothing else refers to, entries in it may still be linked", d.What, fname(l.f)), d.Path+" ; stored: "+l.path)
			}
		}
		r.obligation(fmt.Sprintf("pools are referred to when a field that holds one is replaced (%d places)", len(drops)), len(unretained) == 0)
	}
}

// poolOf: a pointer type that a field of the map holds storage by.
func (P *Prog) poolOf(t types.Type, m *types.Struct) bool {
	for i := 0; i < m.NumFields(); i++ {
		if ft := m.Field(i).Type(); isPtrLike(ft) && types.Identical(ft, t) && P.storage(ft) {
			return true
		}
	}
	return false
}

// removesRef: the call takes something out of a table of references.
func removesRef(ci ssa.CallInstruction, refs map[string]bool) bool {
	c := ci.Common()
	if b, ok := c.Value.(*ssa.Builtin); ok && (b.Name() == "delete" || b.Name() == "clear") {
		u, ok := stripConv(c.Args[0]).(*ssa.UnOp)
		return ok && refs[addrKey(stripConv(u.X))]
	}
	g := c.StaticCallee()
	if g == nil || len(c.Args) == 0 {
		return false
	}
	pkg, recv, name := calleeName(g)
	if pkg == "sync" && recv == "Map" && (strings.Contains(name, "Delete") || name == "Clear" || strings.HasPrefix(name, "Swap")) {
		return refs[addrKey(stripConv(c.Args[0]))]
	}
	return false
}

// addrKeys: the places an address may be that of.
func addrKeys(v ssa.Value, seen map[ssa.Value]bool) []string {
	v = stripConv(v)
	if seen[v] {
		return nil
	}
	seen[v] = true
	if p, ok := v.(*ssa.Phi); ok {
		var ks []string
		for _, e := range p.Edges {
			ks = append(ks, addrKeys(e, seen)...)
		}
		return ks
	}
	return []string{addrKey(v)}
}
