package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// headBool evaluates a boolean query of MapHead once; at gives the result for a content of the state field.
type headBool struct {
	t, l *Term
}

func (x *Exec) headBool(f *ssa.Function, state string) *headBool {
	if f == nil || len(f.Params) != 1 {
		return nil
	}
	st := newState()
	p := x.u.sym("query:"+fname(f), f.Params[0].Type(), "head")
	st.addFact(eqFact(p, x.u.Nil, true))
	old := x.relevant
	x.relevant = nil
	outs := x.run(f, []*Term{p}, nil, st, x.ctx(nil, nil, f))
	x.relevant = old
	if len(outs) != 1 || len(outs[0].rets) != 1 {
		return nil
	}
	t := outs[0].rets[0]
	var l *Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if t.Op == OLoad && t.Args[0] == x.headField(p, state) {
			l = t
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(t)
	if l == nil {
		return nil
	}
	return &headBool{t, l}
}

func (h *headBool) at(u *Univ, v *Term) *Term {
	return u.subst(h.t, map[*Term]*Term{h.l: v}, map[*Term]*Term{})
}

// known: the query about e is known to have the answer want (1, -1) at some point of the path.
func (h *headBool) known(x *Exec, s *State, e *Term, state string, want int) bool {
	if h == nil {
		return false
	}
	e = entryTerm(e)
	for _, l := range x.loadsOf(s, x.headField(e, state)) {
		if x.u.eval(s, h.at(x.u, l)) == want {
			return true
		}
		for _, q := range x.u.class(s, l) {
			if q.Op == OConst && x.u.eval(s, h.at(x.u, q)) == want {
				return true
			}
		}
	}
	return false
}

// cellOf: e was read from a cell of a table and is not nil.
func (x *Exec) liveCell(s *State, e *Term) bool {
	e = entryTerm(e)
	if x.u.evalEq(s, e, x.u.Nil) != -1 {
		return false
	}
	for e != nil && (e.Op == OLoad || e.Op == OField && len(e.Args) == 1) {
		e = e.Args[0]
	}
	if e == nil {
		return false
	}
	return e.Op == OPCall && e.Aux == "mapget" || e.Op == OSym && strings.HasPrefix(e.Desc, "range value")
}

// traversals: exported operations that call a function for every entry.
func (P *Prog) traversals(r *Report) (fs []*ssa.Function) {
	for _, n := range []string{"RangeItem", "Range"} {
		if f := P.method(P.root, "Map", n); f != nil {
			fs = append(fs, f)
		} else {
			r.violate("-", "Map."+n, "anchor", "operation not found", "")
		}
	}
	return
}

// entryOfArgs: the entry whose parts are handed to a callback; "" or what is wrong.
func entryOfArgs(c *Call) (*Term, string) {
	if len(c.args) == 1 {
		return entryTerm(c.args[0]), ""
	}
	if len(c.args) == 2 {
		k, v := c.args[0], c.args[1]
		if k.Op == OPCall && k.Aux == "Key" && v.Op == OPCall && v.Aux == "Value" {
			if entryTerm(k.Args[0]) != entryTerm(v.Args[0]) {
				return entryTerm(k.Args[0]), "with the key of one and the value of another entry"
			}
			return entryTerm(k.Args[0]), ""
		}
		if v.Op == OPCall && len(v.Args) > 0 {
			return entryTerm(v.Args[0]), "with other things than the key and the value of one entry, in this order"
		}
	}
	return nil, "with something that is no entry"
}

func init() {
	register("C02", "Every entry that a lookup reports, whose value an operation replaces or that it deletes, and every entry handed to the callback of a traversal is known on the path not to be marked deleted (or was read from a cell that is emptied on deletion and is not empty); every path on which a delete or purge can report success has marked an entry or emptied a cell; Delete of every entry type sets the mark on every path; the mark of an entry is only cleared after its hash has been overwritten.",
		func(P *Prog, eff *Effects, r *Report) {
			conflict, reverse, state := P.headRoles(eff, r)
			isDel, isIgn := P.method(P.root, "MapHead", "IsDeleted"), P.method(P.root, "MapHead", "IsIgnored")
			if conflict == "" || reverse == "" || state == "" || isIgn == nil {
				return
			}
			link := eff.reaches(func(f *ssa.Function, ci ssa.CallInstruction) bool { return isElistOp(ci, "InsertBefore") })
			seen := map[ssa.Instruction]bool{}
			bools := map[*Exec]*headBool{}
			del := func(x *Exec) *headBool {
				if h, ok := bools[x]; ok {
					return h
				}
				h := x.headBool(isDel, state)
				if h == nil {
					r.violate(P.pos(isDel.Pos()), fname(isDel), "anchor", "the result does not depend on the state of the entry", "")
				}
				bools[x] = h
				return h
			}
			j := &judge{field: state, cells: true, lookup: "no deleted entry is reported", update: "the value of a deleted entry is not replaced", delete: "only a live entry is deleted", good: "a live entry",
				check: func(x *Exec, s *State, e *Term, want []hashPair) (string, bool) {
					h := del(x)
					e = entryTerm(e)
					for _, k := range []string{"deleted"} {
						if _, ok := s.toks[Tok{k, e, nil}]; ok {
							return "it has been marked deleted on this path", false
						}
					}
					if h.known(x, s, e, state, -1) || x.liveCell(s, e) {
						return "", true
					}
					return "it is not known to be live", false
				},
				contract: func(x *Exec, s *State, e *Term) {
					l := x.u.mk(OLoad, "", types.Typ[types.Uint32], x.headField(e, state))
					if h := del(x); h != nil {
						x.u.assume(s, h.at(x.u, l), false)
					}
				}}
			// functions that hand out slots or link entries, but neither store values nor delete
			events := eff.reaches(func(_ *ssa.Function, ci ssa.CallInstruction) bool {
				_, cw := cellWrite(ci.Common())
				return cw || eff.isItemCall(ci, "SetValue") || eff.isItemCall(ci, "Delete")
			})
			j.noInline = func(f *ssa.Function) bool {
				if events[f] {
					return false
				}
				for k := range eff.wset[f] {
					if strings.HasPrefix(k.key, "MapHead.") {
						return true
					}
				}
				return link[f]
			}
			for _, kr := range P.keyRoots(r) {
				r.lookupRoot(P, eff, kr, j, conflict, reverse, link, seen)
			}
			for _, f := range P.traversals(r) {
				n := 0
				cl := &Client{interesting: func(x *Exec, i ssa.Instruction) bool { return readsField(i, state) || isDynCall(i) }}
				cl.onCall = func(x *Exec, s *State, c *Call) ([]*Outcome, bool) {
					if !isRootParam(f, c) {
						if m := x.itemMethod(c); m != "" {
							return x.itemCall(s, c, m), true
						}
						return nil, false
					}
					n++
					e, _ := entryOfArgs(c)
					ok := e != nil && del(x).known(x, s, e, state, -1)
					if !ok {
						r.violate(P.instrPos(c.instr), fname(c.instr.Parent()), "no deleted entry is visited", fname(f)+" calls the callback for an entry that is not known to be live", s.path(15))
					}
					r.obligation(fname(f)+": visits a live entry via "+s.path(8), ok)
					return nil, false
				}
				x := newExec(P, eff, cl)
				x.runRoot(f)
				r.need("visits of "+fname(f), n)
				x.finish(r)
			}
			r.tookEffect(P, eff, func(kind string) bool { return kind == "delete" })
			r.deleteMarks(P, eff, isDel, isIgn, state)
			r.markKept(P, eff, isDel, state, reverse)
		})
}

func isDynCall(i ssa.Instruction) bool {
	ci, ok := i.(ssa.CallInstruction)
	if !ok || ci.Common().IsInvoke() {
		return false
	}
	if _, b := ci.Common().Value.(*ssa.Builtin); b {
		return false
	}
	return ci.Common().StaticCallee() == nil
}

// isRootParam: the call calls a function parameter of the operation f.
func isRootParam(f *ssa.Function, c *Call) bool {
	if c.fn != nil || c.method != nil || c.fterm == nil || c.fterm.Op != OSym {
		return false
	}
	return strings.HasPrefix(c.fterm.Aux, "param:"+fname(f)+":")
}

// deleteMarks: Delete of every entry type sets the mark.
func (r *Report) deleteMarks(P *Prog, eff *Effects, isDel, isIgn *ssa.Function, state string) {
	n := 0
	for _, t := range P.itemTypes() {
		f := P.methodOf(t, "Delete")
		if f == nil {
			r.violate("-", t.Obj().Name()+".Delete", "anchor", "not found", "")
			continue
		}
		x := newExec(P, eff, &Client{})
		d, g := x.headBool(isDel, state), x.headBool(isIgn, state)
		if d == nil || g == nil {
			r.violate(P.pos(isDel.Pos()), fname(isDel), "anchor", "the result does not depend on the state of the entry", "")
			return
		}
		st := newState()
		p := x.u.sym("param:"+fname(f)+":recv", f.Params[0].Type(), "entry")
		st.born[p] = true
		st.addFact(eqFact(p, x.u.Nil, true))
		for _, o := range x.run(f, []*Term{p}, nil, st, x.ctx(nil, nil, f)) {
			n++
			v, ok := o.st.mem[x.headField(p, state)]
			good := ok && boolOf(x, o.st, d.at(x.u, v)) && boolOf(x, o.st, g.at(x.u, v))
			if !good {
				r.violate(P.pos(f.Pos()), fname(f), "Delete sets the deletion mark", "a path of Delete leaves the entry without the mark that searches ignore", o.st.path(10))
			}
			r.obligation(fname(f)+" sets the mark via "+o.st.path(5), good)
		}
		x.finish(r)
	}
	r.need("exits of Delete", n)
}

// boolOf: t is true, with what is known of single bits.
func boolOf(x *Exec, s *State, t *Term) bool {
	if x.u.eval(s, t) == 1 {
		return true
	}
	// !( (a|c1) & c2 == 0 ), !( (a|c1) == 0 )
	neg := false
	for t.Op == OUn && t.Aux == "!" {
		t, neg = t.Args[0], !neg
	}
	if !neg || t.Op != OBin || t.Aux != "==" {
		return false
	}
	a, b := t.Args[0], t.Args[1]
	if n, ok := isInt(a); ok && n == 0 {
		a, b = b, a
	}
	if n, ok := isInt(b); !ok || n != 0 {
		return false
	}
	return setBits(a) != 0
}

// setBits: bits of the value that are certainly set.
func setBits(t *Term) uint64 {
	if n, ok := isInt(t); ok {
		return uint64(n)
	}
	if t.Op == OBin && len(t.Args) == 2 {
		switch t.Aux {
		case "|":
			return setBits(t.Args[0]) | setBits(t.Args[1])
		case "&":
			return setBits(t.Args[0]) & setBits(t.Args[1])
		}
	}
	return 0
}

// callersOf lists the static callers of f; known is false if f may also be called otherwise.
func (e *Effects) callersOf(f *ssa.Function) (fs []*ssa.Function, known bool) {
	known = !(f.Object() != nil && f.Object().Exported())
	seen := map[*ssa.Function]bool{}
	for _, g := range e.P.fns {
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				if ci, ok := i.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == f {
					if !seen[g] {
						seen[g] = true
						fs = append(fs, g)
					}
					for _, a := range ci.Common().Args {
						if a == ssa.Value(f) {
							known = false
						}
					}
					continue
				}
				for _, op := range i.Operands(nil) {
					if *op == ssa.Value(f) {
						known = false
						if !seen[g] {
							seen[g] = true
							fs = append(fs, g)
						}
					}
				}
			}
		}
	}
	return
}

// inContext judges the events of f on their own and, where that does not suffice, in the context of all callers.
// run interprets one function and returns what fails there.
func (r *Report) inContext(P *Prog, eff *Effects, f *ssa.Function, depth int, run func(root *ssa.Function) []Violation) []Violation {
	bad := run(f)
	if len(bad) == 0 || depth == 0 {
		return bad
	}
	cs, known := eff.callersOf(f)
	if f.Parent() != nil {
		return bad
	}
	if !known {
		return bad
	}
	var all []Violation
	for _, c := range cs {
		if c == f || P.isDead(eff, c) {
			continue
		}
		all = append(all, r.inContext(P, eff, c, depth-1, run)...)
	}
	return all
}

// markKept: a store to the state keeps the deletion mark, or the hash of the entry was overwritten before.
func (r *Report) markKept(P *Prog, eff *Effects, isDel *ssa.Function, state, reverse string) {
	key := "MapHead." + state
	writers := map[*ssa.Function]bool{}
	n := 0
	for _, f := range P.fns {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if st, ok := i.(*ssa.Store); ok && addrKey(st.Addr) == key {
					writers[f] = true
					n++
				}
				if op, ok := cellOpOf(i); ok && op.kind == "mutate" && addrKey(op.addr) == key {
					writers[f] = true
					n++
				}
			}
		}
	}
	r.need("places that change the state of an entry", n)
	rehash := eff.reachesInstr(func(i ssa.Instruction) bool {
		st, ok := i.(*ssa.Store)
		if ok && addrKey(st.Addr) == "MapHead."+reverse {
			return true
		}
		op, ok := cellOpOf(i)
		return ok && op.kind == "mutate" && addrKey(op.addr) == "MapHead."+reverse
	})
	for _, f := range sortFns(writers) {
		to := eff.reachesInstr(func(i ssa.Instruction) bool { return i.Parent() == f })
		bad := r.inContext(P, eff, f, 3, func(root *ssa.Function) (res []Violation) {
			cl := &Client{interesting: func(x *Exec, i ssa.Instruction) bool {
				if i.Parent() == f || isElemStep(i) {
					return true
				}
				st, ok := i.(*ssa.Store)
				if ok && addrKey(st.Addr) == "MapHead."+reverse {
					return true
				}
				op, ok := cellOpOf(i)
				return ok && op.kind == "mutate" && addrKey(op.addr) == "MapHead."+reverse
			}}
			cl.noInline = func(g *ssa.Function) bool {
				return !to[g] && !rehash[g] && !elemAccessor(eff, g)
			}
			cl.onStore = func(x *Exec, s *State, addr, v *Term, i ssa.Instruction, ctx *Ctx) {
				if addr.Op != OField {
					return
				}
				e := entryTerm(addr.Args[0])
				switch locKey(addr) {
				case "MapHead." + reverse:
					s.toks[Tok{"rehashed", e, nil}] = struct{}{}
				case key:
					if i.Parent() != f {
						return
					}
					old := x.load(s, addr, types.Typ[types.Uint32], i, ctx)
					_, re := s.toks[Tok{"rehashed", e, nil}]
					good := re || s.fresh[rootOf(addr)] || keepsBits(v, old) || x.u.evalEq(s, v, old) == 1
					d := x.headBool(isDel, state)
					if d != nil && x.u.eval(s, d.at(x.u, old)) == -1 {
						good = true // not deleted
					}
					if d != nil && boolOf(x, s, d.at(x.u, v)) {
						good = true // marks it
					}
					if e == x.u.Nil || x.beyondLen(s, e) {
						good = true // not in use
					}
					if !good {

						res = append(res, Violation{P.instrPos(i), fname(f), "the deletion mark is only cleared when the slot is used again", "the state of an entry is overwritten although its hash has not been overwritten before", s.path(12)})
					}
					r.obligation(fmt.Sprintf("%s (from %s): state change at %s", fname(f), fname(root), P.instrPos(i)), true)
				}
			}
			x := newExec(P, eff, cl)
			x.runRoot(root)
			x.finish(r)
			return
		})
		for _, v := range bad {
			r.violate(v.Where, v.Func, v.Rule, v.What, v.Path)
		}
	}
}

// elemAccessor: a function without effects that does address arithmetic.
func elemAccessor(eff *Effects, f *ssa.Function) bool {
	if len(eff.wset[f]) > 0 || eff.dyn[f] > 0 {
		return false
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if isElemStep(i) {
				return true
			}
		}
	}
	return false
}

// reachesInstr: the functions from which an instruction can be reached.
func (e *Effects) reachesInstr(match func(i ssa.Instruction) bool) map[*ssa.Function]bool {
	res := map[*ssa.Function]bool{}
	for _, f := range e.P.fns {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if !res[f] && match(i) {
					res[f] = true
				}
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for _, f := range e.P.fns {
			if res[f] {
				continue
			}
			for _, c := range e.callees[f] {
				if res[c] {
					res[f] = true
					ch = true
					break
				}
			}
		}
	}
	return res
}

// isElemStep: pointer arithmetic on untyped addresses.
func isElemStep(i ssa.Instruction) bool {
	ci, ok := i.(ssa.CallInstruction)
	if !ok {
		return false
	}
	b, ok := ci.Common().Value.(*ssa.Builtin)
	return ok && b.Name() == "Add"
}

// beyondLen: e is the element of a slice header at the index of its length.
func (x *Exec) beyondLen(s *State, e *Term) bool {
	if e == nil || e.Op != OElem {
		return false
	}
	base, ok := fieldLoad(e.Args[0])
	if !ok {
		return false
	}
	for _, i := range append(x.u.class(s, e.Args[1]), e.Args[1]) {
		if b, ok := fieldLoad(i); ok && b.Args[0] == base.Args[0] && strings.HasSuffix(b.Aux, ".len") {
			return true
		}
	}
	return false
}

func fieldLoad(t *Term) (*Term, bool) {
	if t.Op == OLoad && t.Args[0].Op == OField {
		return t.Args[0], true
	}
	return nil, false
}

// keepsBits: v is old with more bits set.
func keepsBits(v, old *Term) bool {
	if v == old {
		return true
	}
	if v.Op == OBin && v.Aux == "|" {
		return keepsBits(v.Args[0], old) || keepsBits(v.Args[1], old)
	}
	return false
}

func sortFns(m map[*ssa.Function]bool) (fs []*ssa.Function) {
	for f := range m {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
	return
}
