package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const ruleReject = "a call that rejects an argument has changed nothing"

// rejections finds the calls of the API that reject arguments for their type, and
// what they did before.
type rejections struct {
	P      *Prog
	eff    *Effects
	reach  map[*ssa.Function]bool // functions in which an argument can be rejected
	lookup map[*ssa.Function]bool // functions lookups use as well
	never  map[*ssa.Function]bool // functions that do not return
	state  func(string) bool
	bad    []Violation
	points map[string]bool
	vals   map[ssa.Value]bool     // what may be an argument of an operation
	tests  map[*ssa.Function]bool // functions that test the type of an argument
}

func plainInterface(t types.Type) bool {
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

// neverReturns: functions all paths of which panic.
func (P *Prog) neverReturns() map[*ssa.Function]bool {
	res := map[*ssa.Function]bool{}
	for _, f := range P.fns {
		if len(f.Blocks) == 0 {
			continue
		}
		ret, pan := false, false
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch i.(type) {
				case *ssa.Return:
					ret = ret || b != f.Recover
				case *ssa.Panic:
					pan = true
				}
			}
		}
		if pan && !ret {
			res[f] = true
		}
	}
	return res
}

// rejects: i can panic because of the type of an argument of the function.
func (q *rejections) rejects(i ssa.Instruction) bool {
	switch t := i.(type) {
	case *ssa.TypeAssert:
		return !t.CommaOk && q.vals[t.X]
	case *ssa.Panic:
		return q.tests[i.Parent()]
	case ssa.CallInstruction:
		if g := t.Common().StaticCallee(); g != nil && q.never[g] {
			return q.tests[i.Parent()]
		}
	}
	return false
}

// arguments finds the values that may be arguments of operations (followed through
// calls inside of the module), and the functions that test the types of such.
func (q *rejections) arguments(roots []*ssa.Function) {
	q.vals, q.tests = map[ssa.Value]bool{}, map[*ssa.Function]bool{}
	var work []ssa.Value
	add := func(v ssa.Value) {
		if v != nil && plainInterface(v.Type()) && !q.vals[v] {
			q.vals[v] = true
			work = append(work, v)
		}
	}
	for _, f := range roots {
		for k, p := range f.Params {
			if !(k == 0 && f.Signature.Recv() != nil) {
				add(p)
			}
		}
	}
	for len(work) > 0 {
		v := work[len(work)-1]
		work = work[:len(work)-1]
		if v.Referrers() == nil {
			continue
		}
		for _, i := range *v.Referrers() {
			switch t := i.(type) {
			case *ssa.Phi:
				add(t)
			case *ssa.ChangeInterface:
				add(t)
			case *ssa.TypeAssert:
				if t.CommaOk {
					q.tests[t.Parent()] = true
					for _, e := range *t.Referrers() {
						if x, ok := e.(*ssa.Extract); ok && x.Index == 0 {
							add(x)
						}
					}
				} else {
					add(t)
				}
			case *ssa.MakeClosure:
				for k, b := range t.Bindings {
					if b == v {
						add(t.Fn.(*ssa.Function).FreeVars[k])
					}
				}
			case *ssa.Store:
				// a local that a function value captures
				if a, ok := t.Addr.(*ssa.Alloc); ok && t.Val == v {
					q.cell(a, add)
				}
			case ssa.CallInstruction:
				c := t.Common()
				if c.IsInvoke() && c.Value == v && c.Method.Name() == "Key" {
					add(t.Value())
				}
				for _, cs := range q.eff.calls[t.Parent()] {
					if cs.instr != i {
						continue
					}
					for k, a := range cs.args {
						if a == v && k < len(cs.callee.Params) {
							add(cs.callee.Params[k])
						}
					}
				}
			}
		}
	}
}

// cell: what is loaded from a local variable, also by functions that captured it.
func (q *rejections) cell(a ssa.Value, add func(ssa.Value)) {
	if a.Referrers() == nil {
		return
	}
	for _, i := range *a.Referrers() {
		switch t := i.(type) {
		case *ssa.UnOp:
			add(t)
		case *ssa.MakeClosure:
			for k, b := range t.Bindings {
				if b == a {
					q.cell(t.Fn.(*ssa.Function).FreeVars[k], add)
				}
			}
		}
	}
}

// argument: the term is an argument of the call, or what a method of one returns.
func argument(t *Term, params map[*Term]bool) *Term {
	for d := 0; t != nil && d < 8; d++ {
		if params[t] {
			return t
		}
		switch {
		case t.Op == OIface || t.Op == OPCall && t.Aux == "Key":
			if len(t.Args) == 0 {
				return nil
			}
			t = t.Args[0]
		default:
			return nil
		}
	}
	return nil
}

func (q *rejections) run(f *ssa.Function, r *Report) {
	P, eff := q.P, q.eff
	params := map[*Term]bool{}
	cl := &Client{interesting: func(x *Exec, i ssa.Instruction) bool { return q.rejects(i) }}
	cl.noInline = func(g *ssa.Function) bool { return !q.reach[g] }
	var nilTerm *Term
	touched := func(s *State, what string) {
		if len(toksOfPrefix(s, "changed:")) == 0 {
			s.toks[Tok{"changed:" + what, nilTerm, nil}] = struct{}{}
		}
	}
	fail := func(x *Exec, s *State, i ssa.Instruction, ctx *Ctx, t *Term, how string) {
		for k := ctx; k != nil; k = k.parent {
			if _, ok := s.toks[Tok{"accepted:" + fname(k.fn), t, nil}]; ok {
				return // the same test has passed before
			}
		}
		q.points[fname(f)+": "+how] = true
		for _, k := range toksOfPrefix(s, "changed:") {
			q.bad = append(q.bad, Violation{P.instrPos(i), fname(i.Parent()), ruleReject, fname(f) + " panics for " + how + " after it " + strings.TrimPrefix(k, "changed:"), s.path(20)})
		}
		for _, l := range toks(s, tokWrite, tokRead) {
			if !q.releasedLater(x, s, l.a) {
				q.bad = append(q.bad, Violation{P.instrPos(i), fname(i.Parent()), ruleReject, fname(f) + " panics for " + how + " with a lock that nothing releases", s.path(20)})
			}
		}
	}
	cl.onInstr = func(x *Exec, s *State, i ssa.Instruction, ctx *Ctx) {
		if !q.rejects(i) {
			return
		}
		if t, ok := i.(*ssa.TypeAssert); ok {
			v := x.val(s, ctx, t.X)
			if v.Op == OIface {
				return // the type is known
			}
			a := argument(v, params)
			if a == nil {
				return
			}
			if e := x.u.eval(s, x.u.mk(OPCall, "istype:"+typeKey(t.AssertedType), types.Typ[types.Bool], v)); e == 1 {
				return
			}
			tok := Tok{"asserted:" + typeKey(t.AssertedType), v, nil}
			if _, ok := s.toks[tok]; ok {
				return
			}
			fail(x, s, i, ctx, v, "an argument that is no "+typeKey(t.AssertedType)+" at "+P.instrPos(i))
			s.toks[tok] = struct{}{}
			return
		}
		// no case of a type switch
		no, yes := map[*Term]bool{}, map[*Term]bool{}
		for fa := range s.facts {
			if fa.op != 'T' || fa.a == nil || fa.a.Op != OPCall || !strings.HasPrefix(fa.a.Aux, "istype:") {
				continue
			}
			v := fa.a.Args[0]
			if fa.neg {
				if _, ok := s.toks[Tok{"asserted:" + strings.TrimPrefix(fa.a.Aux, "istype:"), v, nil}]; ok {
					yes[v] = true
				}
				no[v] = true
			} else {
				yes[v] = true
			}
		}
		for v := range no {
			if !yes[v] && argument(v, params) != nil {
				fail(x, s, i, ctx, v, "the type of an argument at "+P.instrPos(i))
			}
		}
	}
	// what is known about the arguments outlives joins
	cl.onBranch = func(x *Exec, s *State, ctx *Ctx) {
		for p := range params {
			if x.u.evalEq(s, p, x.u.Nil) == 1 {
				s.toks[Tok{"nil", p, nil}] = struct{}{}
			}
		}
	}
	cl.onReturn = func(x *Exec, s *State, ctx *Ctx) {
		if ctx.parent == nil || !q.reach[ctx.fn] {
			return
		}
		for _, e := range toks(s, "entered:"+fname(ctx.fn)) {
			delete(s.toks, e)
			s.toks[Tok{"accepted:" + fname(ctx.fn), e.a, nil}] = struct{}{}
		}
	}
	cl.onStore = func(x *Exec, s *State, addr, v *Term, i ssa.Instruction, ctx *Ctx) {
		root := rootOf(addr)
		k := locKey(addr)
		if s.fresh[root] || root.Op == OAlloc || q.lookup[i.Parent()] || !q.state(k) {
			return
		}
		if _, isG := addrRootOf(i).(*ssa.Global); isG {
			return
		}
		touched(s, "changes "+k+" at "+P.instrPos(i))
	}
	cl.onLock = func(x *Exec, s *State, kind string, mu *Term, c *Call) ([]*Outcome, bool) {
		mu = lockTerm(mu)
		switch kind {
		case "Lock":
			s.toks[Tok{tokWrite, mu, nil}] = struct{}{}
		case "RLock":
			s.toks[Tok{tokRead, mu, nil}] = struct{}{}
		case "TryLock", "TryRLock":
			no := s.clone()
			s.toks[Tok{tokWrite, mu, nil}] = struct{}{}
			return []*Outcome{{no, []*Term{x.u.Fals}}, {s, []*Term{x.u.True}}}, true
		default:
			for _, l := range toks(s, tokWrite, tokRead) {
				if l.a == mu || x.u.evalEq(s, l.a, mu) == 1 {
					delete(s.toks, l)
				}
			}
		}
		return []*Outcome{{s, nil}}, true
	}
	cl.onCall = func(x *Exec, s *State, c *Call) ([]*Outcome, bool) {
		if _, b := c.common.Value.(*ssa.Builtin); b {
			return nil, false
		}
		for _, k := range toks(s, "nil") {
			s.addFact(eqFact(k.a, x.u.Nil, false))
		}
		if c.fn != nil && q.reach[c.fn] {
			for _, v := range c.args {
				if argument(v, params) != nil {
					s.toks[Tok{"entered:" + fname(c.fn), v, nil}] = struct{}{}
				}
			}
			return nil, false // what it does is followed
		}
		in := c.instr.Parent()
		for _, cs := range eff.calls[in] {
			if cs.instr != c.instr || q.reach[cs.callee] || q.lookup[cs.callee] {
				continue
			}
			for _, k := range sortedWkeys(eff.wset[cs.callee]) {
				if !q.state(k.key) || k.root >= freeVar0 {
					continue
				}
				if k.root != rootHeap && k.root < len(c.args) {
					root := rootOf(c.args[k.root])
					if s.fresh[root] || root.Op == OAlloc {
						continue
					}
				}
				touched(s, "calls "+fname(cs.callee)+" at "+P.instrPos(c.instr)+", which changes "+k.key)
			}
		}
		if g := c.common.StaticCallee(); g != nil && !P.inMod[g] && syncMapStore(g) && len(c.args) > 0 {
			touched(s, "stores in a table at "+P.instrPos(c.instr))
		}
		return nil, false
	}
	x := newExec(P, eff, cl)
	nilTerm = x.u.Nil
	st := newState()
	var args []*Term
	for k, p := range f.Params {
		a := x.u.sym("param:"+fname(f)+":"+p.Name(), p.Type(), p.Name())
		st.born[a] = true
		if k == 0 && f.Signature.Recv() != nil {
			st.addFact(eqFact(a, x.u.Nil, true))
		} else if plainInterface(p.Type()) {
			params[a] = true
		}
		args = append(args, a)
	}
	n := len(x.run(f, args, nil, st, x.ctx(nil, nil, f)))
	r.count("exits", n)
	r.need("exits of "+fname(f), n)
	x.finish(r)
}

// releasedLater: a deferred call releases the lock.
func (q *rejections) releasedLater(x *Exec, s *State, mu *Term) bool {
	all := append([]deferRec(nil), s.defers...)
	for _, d := range s.dstack {
		all = append(all, d...)
	}
	for _, d := range all {
		ts := append([]*Term(nil), d.args...)
		if d.fn != nil {
			ts = append(ts, d.fn.Args...)
			if d.fn.Op != OFunc && d.fn.Op != OClosure {
				return true // a function that was handed over with the lock
			}
		}
		for _, t := range ts {
			if t = lockTerm(t); t == mu || x.u.evalEq(s, t, mu) == 1 || rootOf(mu) == rootOf(t) {
				return true
			}
		}
	}
	return false
}

func addrRootOf(i ssa.Instruction) ssa.Value {
	if st, ok := i.(*ssa.Store); ok {
		return addrRoot(st.Addr)
	}
	if op, ok := cellOpOf(i); ok {
		return addrRoot(op.addr)
	}
	return nil
}

func toksOfPrefix(s *State, p string) (r []string) {
	for t := range s.toks {
		if strings.HasPrefix(t.kind, p) {
			r = append(r, t.kind)
		}
	}
	sort.Strings(r)
	return
}

func sortedWkeys(m map[wkey]prov) []wkey {
	var r []wkey
	for k := range m {
		r = append(r, k)
	}
	sort.Slice(r, func(i, j int) bool {
		if r[i].key != r[j].key {
			return r[i].key < r[j].key
		}
		return r[i].root < r[j].root
	})
	return r
}

func init() {
	register("C24", "On no path of an operation does a panic that depends on the type of an argument (a type assertion of it, the default of a type switch over it) follow a change of the state of a map, and no lock is held then that no deferred call releases.",
		func(P *Prog, eff *Effects, r *Report) {
			q := &rejections{P: P, eff: eff, lookup: map[*ssa.Function]bool{}, never: P.neverReturns(), state: P.mapState(), points: map[string]bool{}}
			for _, kr := range P.keyRoots(r) {
				if kr.kind == "lookup" {
					for g := range eff.reachable(kr.f) {
						q.lookup[g] = true
					}
				}
			}
			var roots []*ssa.Function
			for _, f := range P.fns {
				if f.Object() == nil || !f.Object().Exported() || f.Parent() != nil || !isAPI(f) {
					continue
				}
				takes := false
				for k, p := range f.Params {
					if !(k == 0 && f.Signature.Recv() != nil) && plainInterface(p.Type()) {
						takes = true
					}
				}
				if takes {
					roots = append(roots, f)
				}
			}
			q.arguments(roots)
			q.reach = eff.reachesInstr(func(i ssa.Instruction) bool { return q.rejects(i) })
			n := 0
			for _, f := range roots {
				if !q.reach[f] {
					continue
				}
				n++
				q.bad = nil
				q.run(f, r)
				for _, v := range q.bad {
					r.violate(v.Where, v.Func, v.Rule, v.What, v.Path)
				}
				r.obligation(fname(f)+" rejects arguments before it changes anything", len(q.bad) == 0)
			}
			for _, k := range sortedKeys(q.points) {
				r.obligation("rejection: "+k, true)
			}
			r.need("operations that reject arguments", n)
			r.need("rejections", len(q.points))
		})
}
