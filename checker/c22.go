package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// readKeys: fields a function loads (transitively inside the module).
func (e *Effects) readKeys(f *ssa.Function) map[string]bool {
	res := map[string]bool{}
	seen := map[*ssa.Function]bool{}
	var walk func(g *ssa.Function)
	walk = func(g *ssa.Function) {
		if g == nil || seen[g] {
			return
		}
		seen[g] = true
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				switch t := i.(type) {
				case *ssa.UnOp:
					if t.Op == token.MUL && !isLocalRoot(t.X) {
						res[addrKey(t.X)] = true
					}
				case ssa.CallInstruction:
					c := t.Common()
					if sc := c.StaticCallee(); sc != nil && len(c.Args) > 0 {
						p, _, n := calleeName(sc)
						if p == "sync/atomic" && strings.HasPrefix(n, "Load") {
							res[addrKey(c.Args[0])] = true
						}
					}
				}
			}
		}
		for _, c := range e.callees[g] {
			walk(c)
		}
	}
	walk(f)
	return res
}

// itemTypes: module types implementing the entry interface.
func (P *Prog) itemTypes() []*types.Named {
	t := P.root.Type("MapItem")
	if t == nil {
		return nil
	}
	it, _ := t.Type().Underlying().(*types.Interface)
	var res []*types.Named
	for _, p := range P.ssapkgs {
		for _, m := range p.Members {
			mt, ok := m.(*ssa.Type)
			if !ok || types.IsInterface(mt.Type()) || it == nil {
				continue
			}
			n := namedOf(mt.Type())
			if n != nil && types.Implements(types.NewPointer(n), it) {
				res = append(res, n)
			}
		}
	}
	sort.Slice(res, func(i, j int) bool { return res[i].Obj().Name() < res[j].Obj().Name() })
	return res
}

func (P *Prog) methodOf(n types.Type, name string) *ssa.Function {
	nn := namedOf(n)
	if nn == nil {
		return nil
	}
	sel := P.prog.MethodSets.MethodSet(types.NewPointer(nn)).Lookup(nn.Obj().Pkg(), name)
	if sel == nil {
		return nil
	}
	if f := P.prog.FuncValue(sel.Obj().(*types.Func)); f != nil && len(f.Blocks) > 0 {
		return f
	}
	return P.prog.MethodValue(sel)
}

func subset(a, b map[string]bool) (bad []string) {
	for k := range a {
		if !b[k] {
			bad = append(bad, k)
		}
	}
	sort.Strings(bad)
	return
}

// ownData: keys of everything a map consists of.
func (P *Prog) ownData() func(k string) bool {
	own := map[string]bool{}
	if mt := P.root.Type("Map"); mt != nil {
		own = P.structsFrom(mt.Type())
	}
	own["SampleItem"], own["MapHead"] = true, true
	return func(k string) bool {
		if k == "link" || k == "chan" || strings.HasPrefix(k, "elem:") || strings.HasPrefix(k, "slice.") || strings.HasPrefix(k, "deref:") {
			return true
		}
		if i := strings.Index(k, "."); i > 0 {
			return own[k[:i]]
		}
		return own[k]
	}
}

func init() {
	register("C22", "SetValue of every entry type writes only the fields its Value reads; Delete writes only the deletion mark (and, for entry types that are no SampleItem, the key); an operation that replaces the value of an existing entry and inserts nothing writes nothing else of the map on that path.",
		func(P *Prog, eff *Effects, r *Report) {
			isDel := P.method(P.root, "MapHead", "IsDeleted")
			if isDel == nil {
				r.violate("-", "MapHead.IsDeleted", "anchor", "not found", "")
				return
			}
			mark := eff.readKeys(isDel)
			n := 0
			for _, t := range P.itemTypes() {
				sv, va, de, ke := P.methodOf(t, "SetValue"), P.methodOf(t, "Value"), P.methodOf(t, "Delete"), P.methodOf(t, "Key")
				if sv == nil || va == nil || de == nil || ke == nil {
					r.violate("-", t.Obj().Name(), "anchor", "entry methods not found", "")
					continue
				}
				n++
				check := func(f *ssa.Function, allowed map[string]bool, rule string) {
					w := map[string]bool{}
					for k := range eff.wset[f] {
						w[k.key] = true
					}
					bad := subset(w, allowed)
					for _, k := range bad {
						p, s := eff.path(eff.wset, f, k)
						r.violate(P.instrPos(s.Instr), fname(s.Instr.Parent()), rule, fname(f)+" also changes "+k, strings.Join(p, " -> "))
					}
					r.obligation(fname(f)+" writes "+strings.Join(sortedKeys(w), ",")+" within "+strings.Join(sortedKeys(allowed), ","), len(bad) == 0)
				}
				valueKeys := eff.readKeys(va)
				for k := range mark {
					delete(valueKeys, k)
				}
				for k := range eff.readKeys(ke) {
					delete(valueKeys, k)
				}
				check(sv, valueKeys, "SetValue changes only the value")
				allowed := cp(mark)
				if !isSampleT(t) {
					for k := range eff.readKeys(ke) {
						allowed[k] = true
					}
				}
				check(de, allowed, "Delete changes only the mark")
				r.markBits(P, eff, de, mark, isDel)
			}
			r.need("entry types", n)
			r.updatePaths(P, eff)
		})
}

// markBits: what Delete stores into the mark is the old value with the bit of
// the deletion mark set and every other bit unchanged.
func (r *Report) markBits(P *Prog, eff *Effects, de *ssa.Function, mark map[string]bool, isDel *ssa.Function) {
	var mask uint64
	for _, b := range isDel.Blocks {
		for _, i := range b.Instrs {
			if bo, ok := i.(*ssa.BinOp); ok && bo.Op == token.AND {
				for _, v := range []ssa.Value{bo.X, bo.Y} {
					if c, ok := v.(*ssa.Const); ok && c.Value != nil {
						mask = c.Uint64()
					}
				}
			}
		}
	}
	if mask == 0 {
		return // the mark is no bit of a word
	}
	ev := &bitEval{P, eff, map[*ssa.Function][]callSite{}, ""}
	for _, f := range P.fns {
		for _, cs := range eff.calls[f] {
			ev.sites[cs.callee] = append(ev.sites[cs.callee], cs)
		}
	}
	isLoad := func(i ssa.Instruction) bool {
		if u, ok := i.(*ssa.UnOp); ok && u.Op == token.MUL {
			return mark[addrKey(u.X)]
		}
		if op, ok := cellOpOf(i); ok && op.kind == "load" {
			return mark[addrKey(op.addr)]
		}
		return false
	}
	for _, f := range sortedFns(eff.reachable(de)) {
		env := &bitEnv{vals: map[ssa.Value]bitVal{}, seen: map[ssa.Value]bool{}}
		tested := map[*ssa.BasicBlock]bool{} // entered depending on the mark
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if isLoad(i) {
					l := bvLeaf()
					w := int(P.sizes.Sizeof(i.(ssa.Value).Type())) * 8
					for k := w; k < 64; k++ {
						l.b[k] = bZero
					}
					l.norm()
					env.vals[i.(ssa.Value)] = l
				}
			}
			if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && readsMark(iff.Cond, isLoad, eff, mark, 0) {
				for _, s := range b.Succs {
					for _, d := range f.Blocks {
						if s.Dominates(d) && len(s.Preds) == 1 {
							tested[d] = true
						}
					}
				}
			}
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				var v ssa.Value
				if st, ok := i.(*ssa.Store); ok && mark[addrKey(st.Addr)] {
					v = st.Val
				} else if op, ok := cellOpOf(i); ok && op.kind == "mutate" && mark[addrKey(op.addr)] {
					if args := i.(ssa.CallInstruction).Common().Args; strings.Contains(op.name, "Store") || strings.Contains(op.name, "Swap") {
						v = args[len(args)-1]
					} else if strings.HasPrefix(op.name, "Add") {
						r.violate(P.instrPos(i), fname(f), "Delete sets the mark and keeps the other bits", "the word of the mark is added to", "")
						continue
					}
				}
				if v == nil {
					continue
				}
				bad := ""
				w := int(P.sizes.Sizeof(v.Type())) * 8
				for _, val := range ev.eval(v, env) {
					for k := 0; k < w; k++ {
						c := val.b[k]
						switch {
						case mask>>uint(k)&1 == 1 && c == bOne, mask>>uint(k)&1 == 0 && int(c) == k:
						case c == bTop && tested[b]:
						case mask>>uint(k)&1 == 1:
							bad = "the deletion mark need not be set afterwards"
						default:
							bad = "bits other than the deletion mark change"
						}
					}
				}
				if bad != "" {
					r.violate(P.instrPos(i), fname(f), "Delete sets the mark and keeps the other bits", bad, "")
				}
				r.obligation(P.instrPos(i)+" sets the mark and keeps the other bits", bad == "")
			}
		}
	}
}

// readsMark: the condition depends on the mark.
func readsMark(v ssa.Value, isLoad func(ssa.Instruction) bool, eff *Effects, mark map[string]bool, d int) bool {
	i, ok := v.(ssa.Instruction)
	if !ok || d > 8 {
		return false
	}
	if isLoad(i) {
		return true
	}
	if c, ok := i.(*ssa.Call); ok {
		if f := c.Call.StaticCallee(); f != nil && eff.P.inMod[f] {
			for k := range eff.readKeys(f) {
				if mark[k] {
					return true
				}
			}
		}
		return false
	}
	var ops []*ssa.Value
	for _, o := range i.Operands(ops) {
		if *o != nil && readsMark(*o, isLoad, eff, mark, d+1) {
			return true
		}
	}
	return false
}

// reaches: functions from which a matching call can be reached.
func (e *Effects) reaches(match func(f *ssa.Function, ci ssa.CallInstruction) bool) map[*ssa.Function]bool {
	res := map[*ssa.Function]bool{}
	for _, f := range e.P.fns {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if ci, ok := i.(ssa.CallInstruction); ok && match(f, ci) {
					res[f] = true
				}
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for _, f := range e.P.fns {
			if res[f] {
				continue
			}
			for _, c := range e.callees[f] {
				if res[c] {
					res[f] = true
					ch = true
					break
				}
			}
		}
	}
	return res
}

func (e *Effects) isItemCall(ci ssa.CallInstruction, name string) bool {
	c := ci.Common()
	if c.IsInvoke() {
		t := c.Method.Type().(*types.Signature).Recv().Type()
		return c.Method.Name() == name && (typeIs(t, "skiplistmap", "MapItem") || typeIs(t, "skiplistmap", "HMapEntry"))
	}
	if f := c.StaticCallee(); f != nil && f.Signature.Recv() != nil {
		return e.itemImpl(f) == name
	}
	return false
}

func isElistOp(ci ssa.CallInstruction, names ...string) bool {
	f := ci.Common().StaticCallee()
	if f == nil || f.Object() == nil || f.Object().Pkg() == nil || !strings.HasSuffix(f.Object().Pkg().Path(), "/elist_head") {
		return false
	}
	for _, n := range names {
		if f.Name() == n {
			return true
		}
	}
	return false
}

func (r *Report) updatePaths(P *Prog, eff *Effects) {
	isItemM := func(f *ssa.Function) bool { return eff.itemImpl(f) != "" }
	upd := eff.reaches(func(f *ssa.Function, ci ssa.CallInstruction) bool {
		return eff.isItemCall(ci, "SetValue")
	})
	link := eff.reaches(func(f *ssa.Function, ci ssa.CallInstruction) bool { return isElistOp(ci, "InsertBefore") })
	for f := range link {
		if isItemM(f) {
			delete(link, f)
		}
	}
	own := P.ownData()
	var roots []*ssa.Function
	for _, n := range []string{"Set", "StoreItem"} {
		roots = append(roots, P.method(P.root, "Map", n))
	}
	cl := &Client{}
	cl.noInline = func(f *ssa.Function) bool { return link[f] || !upd[f] && !smallPanicker(f) }
	cl.onCall = func(x *Exec, s *State, c *Call) ([]*Outcome, bool) {
		m := x.itemMethod(c)
		switch {
		case m == "SetValue":
			if !s.fresh[rootOf(c.args[0])] {
				s.toks[Tok{"upd", nil, nil}] = struct{}{}
				s.note(P.instrPos(c.instr) + " value replaced")
			}
			return x.opaqueCall(s, c, "sv"), true
		case m == "Delete":
			s.toks[Tok{"wrote:" + P.instrPos(c.instr) + ":deletion mark", nil, nil}] = struct{}{}
			return x.opaqueCall(s, c, "del"), true
		case m != "":
			return x.itemCall(s, c, m), true
		}
		if c.fn != nil && x.P.inMod[c.fn] && cl.noInline(c.fn) {
			if link[c.fn] {
				s.toks[Tok{"ins", nil, nil}] = struct{}{}
				return x.opaqueCall(s, c, "link"), true
			}
			for k := range eff.wset[c.fn] {
				root := k.root
				if root >= 0 && root < len(c.args) && s.fresh[rootOf(c.args[root])] {
					continue
				}
				if own(k.key) {
					s.toks[Tok{"wrote:" + P.instrPos(c.instr) + ":" + k.key + " in " + fname(c.fn), nil, nil}] = struct{}{}
				}
			}
			return nil, false
		}
		if c.fn != nil && !x.P.inMod[c.fn] {
			p, _, n := calleeName(c.fn)
			if isListPkg(c.fn.Pkg.Pkg) && listMutators[n] && len(c.args) > 0 && !s.fresh[rootOf(c.args[0])] {
				s.toks[Tok{"wrote:" + P.instrPos(c.instr) + ":link", nil, nil}] = struct{}{}
			}
			_ = p
		}
		return nil, false
	}
	cl.onStore = func(x *Exec, s *State, addr, v *Term, i ssa.Instruction, ctx *Ctx) {
		rt := rootOf(addr)
		if rt.Op == OAlloc && s.fresh[rt] || rt.Op == OGlobal {
			return // package variables are the business of C14
		}
		if k := locKey(addr); own(k) && rt.Op != OAlloc {
			s.toks[Tok{"wrote:" + P.instrPos(i) + ":" + k, nil, nil}] = struct{}{}
		}
	}
	x := newExec(P, eff, cl)
	exits := 0
	for _, f := range roots {
		if f == nil {
			r.violate("-", "-", "anchor", "write operation not found", "")
			continue
		}
		for _, o := range x.runRoot(f) {
			if len(o.rets) > 0 && o.rets[0].isFalse() {
				continue
			}
			if _, ok := o.st.toks[Tok{"upd", nil, nil}]; !ok {
				continue
			}
			if _, ok := o.st.toks[Tok{"ins", nil, nil}]; ok {
				continue
			}
			exits++
			bad := false
			for t := range o.st.toks {
				if strings.HasPrefix(t.kind, "wrote:") {
					bad = true
					p := strings.SplitN(t.kind, ":", 4)
					r.violate(p[1]+":"+p[2], fname(f), "value update changes only the value", "on a path that replaces a value and inserts nothing, this also changes "+p[3], o.st.path(20))
				}
			}
			r.obligation("update exit of "+fname(f)+" via "+o.st.path(12), !bad)
		}
	}
	r.need("value update paths", exits)
	x.finish(r)
}

// runRoot interprets f with unknown arguments.
func (x *Exec) runRoot(f *ssa.Function) []*Outcome { return x.runRootIn(f, newState()) }

func (x *Exec) runRootIn(f *ssa.Function, st *State) []*Outcome {
	var args []*Term
	for i, p := range f.Params {
		a := x.u.sym("param:"+fname(f)+":"+p.Name(), p.Type(), p.Name())
		st.born[a] = true
		if i == 0 && f.Signature.Recv() != nil {
			st.addFact(eqFact(a, x.u.Nil, true))
		}
		args = append(args, a)
	}
	return x.run(f, args, nil, st, x.ctx(nil, nil, f))
}
