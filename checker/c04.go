package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// listOwner: the structure a list link belongs to ("" if it is unknown), without the embedded entry head.
func listOwner(t *Term) string {
	for t != nil && t.Op == OField {
		own, _, _ := strings.Cut(t.Aux, ".")
		if own != "MapHead" && !strings.HasSuffix(t.Aux, ".MapHead") && !strings.HasSuffix(t.Aux, ".ListHead") {
			return t.Aux
		}
		t = t.Args[0]
	}
	return ""
}

// oneOf: the callee of the term is a constructor of the list package.
func newList(t *Term) bool {
	for t != nil && len(t.Args) > 0 && (t.Op == OField || t.Op == OPCall || t.Op == OElem || t.Op == OContainer) {
		t = t.Args[0]
	}
	return t != nil && t.Op == OSym && strings.HasPrefix(t.Desc, "result of ") && strings.Contains(t.Desc, "kazu/elist_head.")
}

// hashBound: what is known about the order of the hashes of two entries.
func (x *Exec) notAbove(s *State, lows, highs []*Term) bool {
	for _, a := range lows {
		for _, b := range highs {
			if x.u.evalEq(s, a, b) == 1 || x.u.evalLt(s, b, a) == -1 || x.u.evalLt(s, a, b) == 1 {
				return true
			}
		}
	}
	return false
}

func (x *Exec) isMax(s *State, ts []*Term) bool {
	for _, t := range ts {
		for _, q := range append(x.u.class(s, t), t) {
			if q.Op == OConst && q.Val != nil && q.Val.ExactString() == "18446744073709551615" {
				return true
			}
		}
	}
	return false
}

// neighbours of an element named in the facts of the path
func (x *Exec) prevOf(s *State, right *Term) (res []*Term) {
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.Op == OPCall && (t.Aux == "Prev" || t.Aux == "DirectPrev") && len(t.Args) > 0 && t.Args[0] == right {
			res = append(res, t)
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	for f := range s.facts {
		walk(f.a)
		walk(f.b)
	}
	for _, v := range s.mem {
		walk(v)
	}
	return
}

func init() {
	register("C04", "Wherever an element is linked into the ordered entry list, the path has established that the hash of the right neighbour is not smaller, and that there is no left neighbour or its hash is not larger, than that of the element; wherever a slot is appended to an ordered pool, the path has established that the pool is empty or that the hash of its last slot is smaller than the hash the slot is wanted for.",
		func(P *Prog, eff *Effects, r *Report) {
			_, reverse, _ := P.headRoles(eff, r)
			if reverse == "" {
				return
			}
			r.linkOrder(P, eff, reverse)
			p := newPoolRules(P, eff, r)
			if p == nil {
				return
			}
			q := p.run(r, P.method(P.root, "bucket", "GetItem"), true, func(q *poolRun, o *Outcome) {
				r.obligation(fmt.Sprintf("slot query: exit with %v", o.rets[0]), true)
			})
			r.need("appended slots", q.n)
			r.report(q.bad, ruleOrder)
		})
}

func (r *Report) linkOrder(P *Prog, eff *Effects, reverse string) {
	n := 0
	for _, f := range P.fns {
		has := 0
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if ci, ok := i.(ssa.CallInstruction); ok && isElistOp(ci, "InsertBefore") {
					has++
				}
			}
		}
		if has == 0 || P.isDead(eff, f) {
			continue
		}
		depth := 1
		to := eff.reachesInstr(func(i ssa.Instruction) bool { return i.Parent() == f })
		bad := r.inContext(P, eff, f, depth, func(root *ssa.Function) (res []Violation) {
			cl := &Client{interesting: func(x *Exec, i ssa.Instruction) bool {
				if ci, ok := i.(ssa.CallInstruction); ok && ci.Common().StaticCallee() != nil && ci.Common().StaticCallee().Name() == "Empty" {
					return true
				}
				return i.Parent() == f || readsKey(i, "MapHead."+reverse)
			}}
			cl.noInline = func(g *ssa.Function) bool { return !to[g] && !smallQuery(eff, g) }
			cl.onBranch = func(x *Exec, s *State, ctx *Ctx) { x.noteLeft(s, reverse) }
			cl.onCall = func(x *Exec, s *State, c *Call) ([]*Outcome, bool) {
				ci, ok := c.instr.(ssa.CallInstruction)
				if !ok || c.fn == nil || c.method != nil || !isElistOp(ci, "InsertBefore") || len(c.args) < 2 || c.instr.Parent() != f {
					return nil, false
				}
				u := x.u
				right, center := c.args[0], c.args[1]
				why := ""
				switch {
				case x.separate(s, right, center):
				default:
					lc := x.loadsOf(s, x.headField(entryTerm(center), reverse))
					lr := x.loadsOf(s, x.headField(entryTerm(right), reverse))
					if inBucket(center) && x.settingUp(s) {
						// the markers of the first buckets are linked in sorted order to an empty list
						break
					}
					if !x.notAbove(s, lc, lr) {
						why = "the hash of the right neighbour is not known to be at least that of the element"
						break
					}
					_, ok := s.toks[Tok{"leftok", entryTerm(right), nil}]
					if !ok {
						_, ok = s.toks[Tok{"leftok", entryTerm(right), entryTerm(center)}]
					}
					for _, l := range x.prevOf(s, right) {
						ll := x.loadsOf(s, x.headField(entryTerm(l), reverse))
						if x.notAbove(s, ll, lc) || x.emptyEnd(s, l) {
							ok = true
						}
					}
					if !ok {
						why = "the hash of the left neighbour is not known to be at most that of the element"
					}
				}
				if os.Getenv("CHECKER_DEBUG") != "" && why != "" {
					fmt.Println("C04", P.instrPos(c.instr), "right", right, "center", center, "rootR", rootOf(right), s.fresh[rootOf(right)], "rootC", rootOf(center), s.fresh[rootOf(center)])
					for _, l := range x.loadsOf(s, x.headField(entryTerm(right), reverse)) {
						fmt.Println("   R", l)
					}
					for _, l := range x.loadsOf(s, x.headField(entryTerm(center), reverse)) {
						fmt.Println("   C", l)
					}
					for _, l := range x.prevOf(s, right) {
						fmt.Println("   L", l)
					}
					for f := range s.facts {
						fmt.Println("   fact", f.op, f.neg, f.a, f.b)
					}
				}
				_ = u
				r.obligation(fmt.Sprintf("%s (from %s): link at %s", fname(f), fname(root), P.instrPos(c.instr)), true)
				if why != "" {
					res = append(res, Violation{P.instrPos(c.instr), fname(f), "an element is linked only between neighbours whose hashes enclose its own", why, s.path(12)})
				}
				return nil, false
			}
			x := newExec(P, eff, cl)
			x.runRoot(root)
			x.finish(r)
			return
		})
		n += has
		for _, v := range bad {
			r.violate(v.Where, v.Func, v.Rule, v.What, v.Path)
		}
	}
	r.need("places that link an element into an entry list", n)
}

// loadedFrom: the address a pointer was loaded from, or the pointer itself.
func loadedFrom(t *Term) *Term {
	if t.Op == OLoad {
		return t.Args[0]
	}
	return t
}

// emptyEnd: the element is known to be the end of the list.
func (x *Exec) emptyEnd(s *State, l *Term) bool {
	for f := range s.facts {
		for _, t := range []*Term{f.a, f.b} {
			if t != nil && t.Op == OPCall && t.Aux == "Empty" && len(t.Args) > 0 && entryTerm(t.Args[0]) == entryTerm(l) && x.u.eval(s, t) == 1 {
				return true
			}
		}
	}
	return false
}

// separate: the list is none of the entry list of a map: both sides are private, or it is a list of another kind.
func (x *Exec) separate(s *State, right, center *Term) bool {
	if s.fresh[rootOf(center)] && (s.fresh[rootOf(right)] || newList(right)) {
		return true
	}
	for _, t := range []*Term{right, center} {
		o := listOwner(loadedFrom(t))
		if strings.HasPrefix(o, "samepleItemPool.") {
			return true
		}
	}
	return false
}

var _ = types.Typ

// settingUp: the path is taken only while the map has no buckets.
func (x *Exec) settingUp(s *State) bool {
	for f := range s.facts {
		for _, t := range []*Term{f.a, f.b} {
			if t != nil && t.Op == OPCall && t.Aux == "Empty" && x.u.eval(s, t) == 1 && fromBucketList(t) {
				return true
			}
		}
	}
	return false
}

func fromBucketList(t *Term) bool {
	if t.Op == OField && (t.Aux == "Map.tailBucket" || t.Aux == "Map.headBucket") {
		return true
	}
	for _, a := range t.Args {
		if fromBucketList(a) {
			return true
		}
	}
	return false
}

// smallQuery: a short function without effects and loops.
func smallQuery(eff *Effects, f *ssa.Function) bool {
	if len(f.Blocks) == 0 || len(f.Blocks) > 12 || len(eff.wset[f]) > 0 || eff.dyn[f] > 0 {
		return false
	}
	for _, b := range f.Blocks {
		for _, c := range b.Succs {
			if c.Dominates(b) {
				return false
			}
		}
	}
	return true
}

// isDead: nothing in the module uses the function except functions nothing uses, and its receiver cannot be named outside.
func (P *Prog) isDead(eff *Effects, f *ssa.Function) bool {
	return P.dead(eff, f, map[*ssa.Function]bool{})
}

func (P *Prog) dead(eff *Effects, f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return true
	}
	seen[f] = true
	if f.Parent() != nil || f.Object() == nil {
		return false
	}
	if f.Name() == "init" || f.Name() == "main" {
		return false
	}
	if f.Object().Exported() {
		rc := f.Signature.Recv()
		if rc == nil {
			return false
		}
		if n := namedOf(deref(rc.Type())); n == nil || n.Obj().Exported() {
			return false
		}
	}
	if P.invoked(eff)[f] {
		return false
	}
	cs, known := eff.callersOf(f)
	if len(cs) == 0 {
		return true
	}
	if !known {
		return false
	}
	for _, c := range cs {
		if !P.dead(eff, c, seen) {
			return false
		}
	}
	return true
}

// invoked: the methods that calls through interfaces may run, also those of interfaces of other packages.
func (P *Prog) invoked(eff *Effects) map[*ssa.Function]bool {
	if P.invokedMemo != nil {
		return P.invokedMemo
	}
	P.invokedMemo = map[*ssa.Function]bool{}
	for _, g := range P.fns {
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				switch y := i.(type) {
				case ssa.CallInstruction:
					if y.Common().IsInvoke() {
						for _, m := range eff.implementers(y.Common().Method) {
							P.invokedMemo[m] = true
						}
					}
				case *ssa.MakeInterface:
					// a conversion to an interface of another package hands the methods to it
					n := namedOf(y.Type())
					if n == nil || n.Obj().Pkg() == nil || n.Obj().Pkg() == P.root.Pkg {
						continue
					}
					it, ok := y.Type().Underlying().(*types.Interface)
					if !ok {
						continue
					}
					for k := 0; k < it.NumMethods(); k++ {
						for _, m := range eff.implementers(it.Method(k)) {
							P.invokedMemo[m] = true
						}
					}
				}
			}
		}
	}
	return P.invokedMemo
}

// noteLeft keeps what a branch has established about the left neighbour of an element as a token.
func (x *Exec) noteLeft(s *State, reverse string) {
	var prevs []*Term
	seen := map[*Term]bool{}
	others := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.Op == OPCall && (t.Aux == "Prev" || t.Aux == "DirectPrev") && len(t.Args) > 0 {
			prevs = append(prevs, t)
		}
		if t.Op == OLoad && t.Args[0].Op == OField && strings.HasSuffix(t.Args[0].Aux, "."+reverse) {
			others[t.Args[0].Args[0]] = true
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	for f := range s.facts {
		walk(f.a)
		walk(f.b)
	}
	for _, l := range prevs {
		if x.emptyEnd(s, l) {
			s.toks[Tok{"leftok", entryTerm(l.Args[0]), nil}] = struct{}{}
			continue
		}
		ll := x.loadsOf(s, x.headField(entryTerm(l), reverse))
		for c := range others {
			if entryTerm(c) == entryTerm(l) {
				continue
			}
			if x.notAbove(s, ll, x.loadsOf(s, x.headField(entryTerm(c), reverse))) {
				s.toks[Tok{"leftok", entryTerm(l.Args[0]), entryTerm(c)}] = struct{}{}
			}
		}
	}
}

// readsKey: the instruction reads the field, plainly or atomically.
func readsKey(i ssa.Instruction, key string) bool {
	if u, ok := i.(*ssa.UnOp); ok && u.Op == token.MUL {
		return addrKey(u.X) == key
	}
	op, ok := cellOpOf(i)
	return ok && strings.HasSuffix(op.kind, "load") && addrKey(op.addr) == key
}
