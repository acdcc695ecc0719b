package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// selfOption: a named function type func(*X) T that returns its own type.
func selfOption(t types.Type) (elem types.Type, ok bool) {
	n, isN := types.Unalias(t).(*types.Named)
	if !isN {
		return nil, false
	}
	sig, isS := n.Underlying().(*types.Signature)
	if !isS || sig.Params().Len() != 1 || sig.Results().Len() != 1 || !types.Identical(sig.Results().At(0).Type(), n) {
		return nil, false
	}
	p, isP := sig.Params().At(0).Type().Underlying().(*types.Pointer)
	if !isP {
		return nil, false
	}
	return p.Elem(), true
}

// apply calls a function value in a state.
func (x *Exec) apply(s *State, fv *Term, args []*Term) ([]*Outcome, bool) {
	if fv.Op != OFunc && fv.Op != OClosure || fv.Fn == nil || len(fv.Fn.Blocks) == 0 {
		return nil, false
	}
	var free []*Term
	if fv.Op == OClosure {
		free = fv.Args
	}
	return x.run(fv.Fn, args, free, s, x.ctx(nil, nil, fv.Fn)), true
}

func init() {
	register("C10", "Every function that makes a self-returning option is interpreted; applying the option to an unknown target and then applying the option it returned must leave every cell written by the first application equal to its initial value on every path (a missing undo option is accepted only where the old value was nil).",
		func(P *Prog, eff *Effects, r *Report) {
			n := 0
			for _, f := range P.fns {
				if len(f.Blocks) == 0 || f.Parent() != nil || f.Signature.Results().Len() != 1 || f.Synthetic != "" {
					continue
				}
				elem, ok := selfOption(f.Signature.Results().At(0).Type())
				if !ok || f.Signature.Recv() != nil {
					continue
				}
				// an option itself (a function of the option type) is not a maker
				n++
				r.optionMaker(P, eff, f, elem)
			}
			r.need("option makers", n)
			// the map must offer its options through these makers
			m := 0
			for _, f := range P.fns {
				if f.Pkg == P.root && f.Parent() == nil && f.Signature.Recv() == nil && f.Signature.Results().Len() == 1 && f.Object() != nil && f.Object().Exported() {
					if el, ok := selfOption(f.Signature.Results().At(0).Type()); ok && typeIs(el, "skiplistmap", "Map") {
						m++
					}
				}
			}
			r.need("exported map options", m)
		})
}

func (r *Report) optionMaker(P *Prog, eff *Effects, f *ssa.Function, elem types.Type) {
	touched := map[*Term]ssa.Instruction{}
	cl := &Client{maxDepth: 12}
	phase := 0
	cl.onStore = func(x *Exec, s *State, addr, v *Term, i ssa.Instruction, ctx *Ctx) {
		if rootOf(addr).Op == OAlloc || phase == 0 || eff.bookkeeping(locKey(addr), elem) {
			return
		}
		if v == x.u.mk(OLoad, "", nil, addr) {
			return
		}
		if _, ok := touched[addr]; !ok {
			touched[addr] = i
		}
	}
	x := newExec(P, eff, cl)
	tgt := x.u.sym("target", types.NewPointer(elem), "the option's target")
	nilOK := func(s *State) bool {
		for a := range touched {
			if _, ok := s.mem[a]; !ok {
				continue
			}
			init := x.u.mk(OLoad, "", nil, a)
			if cur, ok := s.mem[a]; ok && cur == init {
				continue
			}
			if x.u.evalEq(s, init, x.u.Nil) != 1 {
				return false
			}
		}
		return true
	}
	report := func(at, what, path string) {
		r.violate(at, fname(f), "an option is undone by the option it returns", what, path)
	}
	exits := 0
	for _, o := range x.runRoot(f) {
		st := o.st
		st.addFact(eqFact(tgt, x.u.Nil, true))
		if len(st.mem) > 0 {
			for a := range st.mem {
				if rootOf(a).Op != OAlloc {
					report(P.pos(f.Pos()), "making the option already changes "+a.String(), st.path(12))
				}
			}
		}
		opt := o.rets[0]
		phase = 1
		outs1, ok := x.apply(st, opt, []*Term{tgt})
		if !ok {
			report(P.pos(f.Pos()), "the option returned on this path cannot be resolved: "+opt.String(), st.path(12))
			continue
		}
		for _, o1 := range outs1 {
			exits++
			undo := o1.rets[0]
			key := fmt.Sprintf("%s: apply and undo via %s", fname(f), o1.st.path(8))
			if undo.Op == ONil {
				good := nilOK(o1.st)
				if !good {
					report(P.pos(f.Pos()), "applying the option returns no option although the old setting was not nil", o1.st.path(12))
				}
				r.obligation(key, good)
				continue
			}
			phase = 2
			mid := o1.st.path(8)
			outs2, ok := x.apply(o1.st, undo, []*Term{tgt})
			if !ok {
				report(P.pos(f.Pos()), "the undo option cannot be resolved: "+undo.String(), o1.st.path(12))
				continue
			}
			for _, o2 := range outs2 {
				bad := false
				var as []*Term
				for a := range touched {
					as = append(as, a)
				}
				sort.Slice(as, func(i, j int) bool { return as[i].ID < as[j].ID })
				for _, a := range as {
					cur, known := o2.st.mem[a]
					init := x.u.mk(OLoad, "", nil, a)
					if o2.st.havoc[locKey(a)] != nil && !known {
						cur = x.u.mk(OLoad, "", nil, a, o2.st.havoc[locKey(a)])
						known = true
					}
					if !known || cur == init || x.u.evalEq(o2.st, cur, init) == 1 {
						continue
					}
					bad = true
					report(P.instrPos(touched[a]), fmt.Sprintf("after undoing, %s is %s and not its old value", strings.ReplaceAll(a.String(), "target", "map"), cur.String()), mid+" ; undo: "+o2.st.path(8))
				}
				r.obligation(key+" ; "+o2.st.path(8), !bad)
			}
			phase = 1
		}
	}
	if exits == 0 {
		report(P.pos(f.Pos()), "no application of this option could be interpreted", "")
	}
	r.count("applications", exits)
	x.finish(r)
}

// bookkeeping: the field is never looked at. What it held is only chained behind what replaces
// it (in objects of other types), so that it is no setting.
func (eff *Effects) bookkeeping(key string, owner types.Type) bool {
	seen := map[ssa.Value]bool{}
	var unused func(v ssa.Value) bool
	unused = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		if v.Referrers() == nil {
			return false
		}
		for _, i := range *v.Referrers() {
			switch y := i.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.Convert:
				if unused(y) {
					continue
				}
			case *ssa.ChangeType:
				if unused(y) {
					continue
				}
			case *ssa.Phi:
				if unused(y) {
					continue
				}
			case *ssa.Store:
				if fa, ok := stripConv(y.Addr).(*ssa.FieldAddr); ok && y.Val == v && !types.Identical(deref(fa.X.Type()), owner) {
					continue
				}
			case ssa.CallInstruction:
				if op, ok := cellOpOf(i); ok && strings.Contains(op.name, "CompareAndSwap") && addrKey(stripConv(op.addr)) == key {
					continue
				}
				if b, ok := y.Common().Value.(*ssa.Builtin); ok && b.Name() == "append" && len(y.Common().Args) > 0 && y.Common().Args[0] == v {
					// the longer table replaces it
					if res := y.Value(); res != nil && onlyStoredTo(res, key) {
						continue
					}
				}
			}
			return false
		}
		return true
	}
	for _, f := range eff.P.fns {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				v, ok := i.(ssa.Value)
				if !ok {
					continue
				}
				if u, ok := i.(*ssa.UnOp); ok && u.Op == token.MUL && addrKey(stripConv(u.X)) == key && !unused(v) {
					return false
				}
				if op, ok := cellOpOf(i); ok && strings.Contains(op.name, "Load") && addrKey(stripConv(op.addr)) == key && !unused(v) {
					return false
				}
				if fa, ok := i.(*ssa.FieldAddr); ok && addrKey(fa) == key && fa.Referrers() != nil {
					for _, u := range *fa.Referrers() {
						if c, ok := u.(ssa.CallInstruction); ok {
							if _, ok := cellOpOf(u); !ok {
								_ = c
								return false
							}
						}
					}
				}
			}
		}
	}
	return true
}

func onlyStoredTo(v ssa.Value, key string) bool {
	for _, i := range *v.Referrers() {
		switch y := i.(type) {
		case *ssa.DebugRef:
		case *ssa.Store:
			if addrKey(stripConv(y.Addr)) != key {
				return false
			}
		default:
			return false
		}
	}
	return true
}
