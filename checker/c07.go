package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	ruleHeld   = "only a lock that is held is released"
	ruleTwice  = "no lock is waited for while it is held"
	ruleLeak   = "a lock that is taken is released or handed over"
	ruleHand   = "a lock is handed over once, with what releases it"
	tokWrite   = "lock"
	tokRead    = "rlock"
	tokDone    = "released"
	tokRelease = "rel" // (function, lock): calling the function releases the lock
)

// lockRun follows the locks of functions.
type lockRun struct {
	P        *Prog
	eff      *Effects
	reach    map[*ssa.Function]bool
	balanced map[*ssa.Function]map[string]bool // functions that leave all locks as they were -> classes they take
	assumed  map[*ssa.Function]bool            // functions whose contract is used for recursive calls
	bad      []Violation
	ops      int
	fail     string
}

// isLocker: values of t are locks that can be handed over.
func isLocker(t types.Type) bool {
	if it, ok := t.Underlying().(*types.Interface); ok {
		has := map[string]bool{}
		for i := 0; i < it.NumMethods(); i++ {
			has[it.Method(i).Name()] = true
		}
		return has["Lock"] && has["Unlock"]
	}
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n := namedOf(p.Elem())
	if n == nil || n.Obj().Pkg() == nil {
		return false
	}
	pkg := n.Obj().Pkg().Path()
	return (n.Obj().Name() == "Mutex" || n.Obj().Name() == "RWMutex") && (pkg == "sync" || strings.HasSuffix(pkg, "/trylock"))
}

// isUnlocker: functions that can release a lock: of no argument or of the lock.
func isUnlocker(t types.Type) bool {
	s, ok := t.Underlying().(*types.Signature)
	return ok && s.Results().Len() == 0 && (s.Params().Len() == 0 || s.Params().Len() == 1 && isLocker(s.Params().At(0).Type()))
}

// takesLocks: the locks of f depend on its caller.
func takesLocks(f *ssa.Function) bool {
	for k, p := range f.Params {
		if isUnlocker(p.Type()) || isLocker(p.Type()) && !(k == 0 && f.Signature.Recv() != nil) {
			return true
		}
	}
	return len(f.FreeVars) > 0
}

func (q *lockRun) touch(i ssa.Instruction) bool {
	ci, ok := i.(ssa.CallInstruction)
	if !ok {
		return false
	}
	if k, _ := lockOp(ci.Common()); k != "" {
		return true
	}
	if isDynCall(i) {
		for _, a := range ci.Common().Args {
			if isLocker(a.Type()) {
				return true
			}
		}
		return isUnlocker(ci.Common().Value.Type())
	}
	return false
}

func lockTerm(t *Term) *Term {
	for t != nil && t.Op == OIface && len(t.Args) > 0 {
		t = t.Args[0]
	}
	return t
}

// holds finds the token of a held lock.
func (q *lockRun) holds(x *Exec, s *State, mu *Term, kinds ...string) (Tok, bool) {
	for _, k := range kinds {
		for _, t := range toks(s, k) {
			if t.a == mu || x.u.evalEq(s, t.a, mu) == 1 {
				return t, true
			}
		}
	}
	return Tok{}, false
}

func toks(s *State, kinds ...string) (ts []Tok) {
	for t := range s.toks {
		for _, k := range kinds {
			if t.kind == k {
				ts = append(ts, t)
			}
		}
	}
	sort.Slice(ts, func(i, j int) bool {
		if ts[i].a.ID != ts[j].a.ID {
			return ts[i].a.ID < ts[j].a.ID
		}
		return ts[i].kind < ts[j].kind
	})
	return
}

func (q *lockRun) violate(x *Exec, s *State, i ssa.Instruction, rule, what string) {
	q.bad = append(q.bad, Violation{q.P.instrPos(i), fname(i.Parent()), rule, what, s.path(20)})
}

// lockClass names a lock by the field that holds it.
func lockClass(t *Term) string {
	if t != nil && t.Op == OField {
		return t.Aux
	}
	if t != nil && t.Typ != nil {
		return typeKey(deref(t.Typ))
	}
	return "?"
}

func (q *lockRun) client(f *ssa.Function, classes map[string]bool) *Client {
	cl := &Client{volatile: true}
	cl.interesting = func(x *Exec, i ssa.Instruction) bool { return q.touch(i) }
	cl.noInline = func(g *ssa.Function) bool { return !q.reach[g] }
	cl.keepRet = func(t *Term) bool {
		return t.Op == OFunc || t.Op == OClosure || t.Op == ONil || t.Typ != nil && (isLocker(t.Typ) || isUnlocker(t.Typ))
	}
	drop := func(s *State, t Tok) {
		delete(s.toks, t)
		s.toks[Tok{tokDone, t.a, nil}] = struct{}{}
	}
	take := func(s *State, kind string, mu *Term, at string) {
		delete(s.toks, Tok{tokDone, mu, nil})
		s.toks[Tok{kind, mu, nil}] = struct{}{}
		s.note(at)
	}
	cl.onLock = func(x *Exec, s *State, kind string, mu *Term, c *Call) ([]*Outcome, bool) {
		q.ops++
		mu = lockTerm(mu)
		classes[lockClass(mu)] = true
		at := q.P.instrPos(c.instr) + " " + kind
		switch kind {
		case "Lock", "RLock":
			if _, ok := q.holds(x, s, mu, tokWrite, tokRead); ok {
				q.violate(x, s, c.instr, ruleTwice, fname(f)+" waits for a lock it holds already")
			}
			if kind == "Lock" {
				take(s, tokWrite, mu, at)
			} else {
				take(s, tokRead, mu, at)
			}
			return []*Outcome{{s, nil}}, true
		case "TryLock", "TryRLock":
			no := s.clone()
			no.note(at + " failed")
			outs := []*Outcome{{no, []*Term{x.u.Fals}}}
			if _, ok := q.holds(x, s, mu, tokWrite, tokRead); !ok {
				if kind == "TryLock" {
					take(s, tokWrite, mu, at)
				} else {
					take(s, tokRead, mu, at)
				}
				outs = append(outs, &Outcome{s, []*Term{x.u.True}})
			}
			return outs, true
		case "Unlock", "RUnlock":
			want := tokWrite
			if kind == "RUnlock" {
				want = tokRead
			}
			t, ok := q.holds(x, s, mu, want)
			if _, was := q.holds(x, s, mu, tokDone); !ok && !was && mu.Op == OSym && handedCell(q.eff, c.common) {
				// the lock another goroutine may have handed over through a variable
			} else if !ok {
				q.violate(x, s, c.instr, ruleHeld, fname(f)+" releases a lock it does not hold")
			} else {
				drop(s, t)
			}
			s.note(at)
			return []*Outcome{{s, nil}}, true
		}
		return nil, false
	}
	cl.onCall = func(x *Exec, s *State, c *Call) ([]*Outcome, bool) {
		if _, b := c.common.Value.(*ssa.Builtin); b || c.method != nil {
			return nil, false
		}
		if c.fn == nil {
			// a function that releases a lock
			for _, t := range toks(s, tokRelease) {
				if t.a != c.fterm && x.u.evalEq(s, t.a, c.fterm) != 1 {
					continue
				}
				mu := t.b
				if len(c.args) == 1 && x.u.evalEq(s, lockTerm(c.args[0]), mu) != 1 {
					q.violate(x, s, c.instr, ruleHand, fname(f)+" calls the function that releases a lock with another lock")
				}
				h, ok := q.holds(x, s, mu, tokWrite, tokRead)
				if !ok {
					q.violate(x, s, c.instr, ruleHeld, fname(f)+" releases a lock it does not hold")
				} else {
					drop(s, h)
				}
				s.note(q.P.instrPos(c.instr) + " released")
				return []*Outcome{{s, nil}}, true
			}
			for _, a := range c.args {
				if a.Typ == nil && a.Op != OField && a.Op != OIface {
					continue
				}
				mu := lockTerm(a)
				if h, ok := q.holds(x, s, mu, tokWrite, tokRead); ok {
					drop(s, h)
					s.note(q.P.instrPos(c.instr) + " handed over")
				} else if _, was := q.holds(x, s, mu, tokDone); was && x.u.evalEq(s, a, x.u.Nil) != 1 {
					q.violate(x, s, c.instr, ruleHand, fname(f)+" hands over a lock that has been released already")
				}
			}
			return nil, false
		}
		if cs, ok := q.balanced[c.fn]; ok && c.fn != f {
			free := true
			for _, t := range toks(s, tokWrite, tokRead) {
				if cs[lockClass(t.a)] {
					free = false
				}
			}
			for k := range cs {
				classes[k] = true
			}
			if free {
				return x.opaqueModule(s, c), true
			}
		}
		return nil, false
	}
	cl.onBackEdge = func(x *Exec, s *State, ctx *Ctx, from, to *ssa.BasicBlock, phis map[*ssa.Phi]*Term) {
		for t := range s.toks {
			if t.kind == tokDone {
				delete(s.toks, t)
			}
			if t.kind == tokRelease {
				if _, ok := q.holds(x, s, t.b, tokWrite, tokRead); !ok {
					delete(s.toks, t)
				}
			}
		}
	}
	cl.onRecursion = func(x *Exec, s *State, c *Call) ([]*Outcome, bool) {
		q.assumed[c.fn] = true
		u := x.u
		var mu *Term
		for k, p := range c.fn.Params {
			if isLocker(p.Type()) && k < len(c.args) {
				mu = lockTerm(c.args[k])
			}
		}
		fnRes, muRes := -1, -1
		rs := c.sig.Results()
		for k := 0; k < rs.Len(); k++ {
			switch t := rs.At(k).Type(); {
			case isUnlocker(t):
				fnRes = k
			case isLocker(t):
				muRes = k
			}
		}
		if fnRes < 0 && muRes < 0 {
			return nil, false
		}
		no := x.opaqueModule(s.clone(), c)[0]
		outs := []*Outcome{no}
		if muRes >= 0 {
			no.rets[muRes] = u.Nil
			yes := x.opaqueModule(s, c)[0]
			l := yes.rets[muRes]
			yes.st.addFact(eqFact(l, u.Nil, true))
			take(yes.st, tokWrite, l, q.P.instrPos(c.instr)+" returns a lock")
			return append(outs, yes), true
		}
		no.rets[fnRes] = u.Nil
		if mu == nil || u.evalEq(s, mu, u.Nil) == 1 {
			return outs, true
		}
		if _, ok := q.holds(x, s, mu, tokWrite, tokRead); ok {
			q.violate(x, s, c.instr, ruleTwice, fname(f)+" asks "+fname(c.fn)+" for a lock that is held already")
		}
		yes := x.opaqueModule(s, c)[0]
		fn := yes.rets[fnRes]
		yes.st.addFact(eqFact(fn, u.Nil, true))
		yes.st.addFact(eqFact(mu, u.Nil, true))
		take(yes.st, tokWrite, mu, q.P.instrPos(c.instr)+" returns with the lock")
		yes.st.toks[Tok{tokRelease, fn, mu}] = struct{}{}
		return append(outs, yes), true
	}
	return cl
}

// handedCell: the receiver of the call is read from a local variable that a
// function value sets.
func handedCell(eff *Effects, c *ssa.CallCommon) bool {
	v := c.Value
	if !c.IsInvoke() {
		if len(c.Args) == 0 {
			return false
		}
		v = c.Args[0]
	}
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	cells := []ssa.Value{u.X}
	if fv, ok := u.X.(*ssa.FreeVar); ok {
		cells = eff.bindings(fv)
	}
	for _, cell := range cells {
		a, ok := cell.(*ssa.Alloc)
		if !ok {
			return false
		}
		set := false
		for _, r := range *a.Referrers() {
			if mc, ok := r.(*ssa.MakeClosure); ok {
				for k, b := range mc.Bindings {
					set = set || b == ssa.Value(a) && closureWrites(mc.Fn.(*ssa.Function), k)
				}
			}
		}
		if !set {
			return false
		}
	}
	return len(cells) > 0
}

// run judges f on its own, called without locks.
func (q *lockRun) run(f *ssa.Function) (ok bool, leaves bool, classes map[string]bool, exits int) {
	classes = map[string]bool{}
	q.bad, q.fail = nil, ""
	var lk []int
	for k, p := range f.Params {
		if isLocker(p.Type()) && !(k == 0 && f.Signature.Recv() != nil) {
			lk = append(lk, k)
		}
	}
	for mask := 0; mask < 1<<len(lk) && len(lk) <= 2; mask++ {
		x := newExec(q.P, q.eff, q.client(f, classes))
		st := newState()
		var args []*Term
		var mus []*Term
		for k, p := range f.Params {
			a := x.u.sym("param:"+fname(f)+":"+p.Name(), p.Type(), p.Name())
			st.born[a] = true
			if k == 0 && f.Signature.Recv() != nil {
				st.addFact(eqFact(a, x.u.Nil, true))
			}
			for j, l := range lk {
				if l == k {
					st.addFact(eqFact(a, x.u.Nil, mask>>j&1 == 1))
					if mask>>j&1 == 1 {
						mus = append(mus, a)
					}
				}
			}
			args = append(args, a)
		}
		// what a closure captured was stored before it runs
		var free []*Term
		for _, v := range f.FreeVars {
			if _, ok := v.Type().Underlying().(*types.Pointer); !ok {
				free = append(free, x.u.sym("free:"+fname(f)+":"+v.Name(), v.Type(), v.Name()))
				continue
			}
			a := x.u.mk(OAlloc, "free:"+fname(f)+":"+v.Name(), v.Type())
			a.Desc = v.Name()
			st.born[a], st.fresh[a] = true, true
			x.store(st, a, x.u.sym("free:"+fname(f)+":"+v.Name(), deref(v.Type()), v.Name()), deref(v.Type()), nil, nil)
			free = append(free, a)
		}
		for _, o := range x.run(f, args, free, st, x.ctx(nil, nil, f)) {
			exits++
			if q.exit(x, f, o, mus) {
				leaves = true
			}
		}
		if len(x.incomplete) > 0 {
			q.fail = strings.Join(x.incomplete, "; ")
		}
	}
	return len(q.bad) == 0, leaves, classes, exits
}

// exit judges what is held and handed over at an exit of f; it tells whether
// anything is.
func (q *lockRun) exit(x *Exec, f *ssa.Function, o *Outcome, mus []*Term) bool {
	u := x.u
	given := map[Tok]int{}
	at := q.P.pos(f.Pos())
	bad := func(rule, what string) {
		q.bad = append(q.bad, Violation{at, fname(f), rule, what, o.st.path(20)})
	}
	any := false
	rs := f.Signature.Results()
	for k := 0; k < rs.Len() && k < len(o.rets); k++ {
		ret := o.rets[k]
		if u.evalEq(o.st, ret, u.Nil) == 1 {
			continue
		}
		switch t := rs.At(k).Type(); {
		case isUnlocker(t):
			if h, ok := q.releasedBy(x, o.st, ret); ok {
				given[h]++
				any = true
				continue
			}
			if ret.Op != OFunc && ret.Op != OClosure {
				continue
			}
			held := toks(o.st, tokWrite, tokRead)
			try := mus
			for _, h := range held {
				try = append(try, h.a)
			}
			save := q.bad
			for _, mu := range try {
				var args, free []*Term
				if len(ret.Fn.Params) == 1 {
					args = []*Term{mu}
				}
				if ret.Op == OClosure {
					free = ret.Args
				}
				st := o.st.clone()
				q.bad = nil
				gone := map[Tok]int{}
				n := 0
				for _, p := range x.run(ret.Fn, args, free, st, x.ctx(nil, nil, ret.Fn)) {
					n++
					for _, h := range held {
						if _, still := p.st.toks[h]; !still {
							gone[h]++
						}
					}
				}
				bogus := len(q.bad) > 0 && len(held) == 0
				q.bad = nil
				for h, m := range gone {
					if m == n && given[h] == 0 {
						given[h]++
						any = true
					}
				}
				if bogus {
					save = append(save, Violation{at, fname(f), ruleHand, fname(f) + " returns a function that releases a lock which is not held", o.st.path(20)})
					break
				}
			}
			q.bad = save
		case isLocker(t):
			mu := lockTerm(ret)
			if h, ok := q.holds(x, o.st, mu, tokWrite, tokRead); ok {
				given[h]++
				any = true
			} else if _, was := q.holds(x, o.st, mu, tokDone); was {
				bad(ruleHand, fname(f)+" hands over a lock that it has released already")
			}
		}
	}
	for _, h := range toks(o.st, tokWrite, tokRead) {
		switch given[h] {
		case 0:
			bad(ruleLeak, fmt.Sprintf("%s returns without releasing the lock %v", fname(f), h.a))
		case 1:
		default:
			bad(ruleHand, fmt.Sprintf("%s hands over the lock %v more than once", fname(f), h.a))
		}
	}
	return any
}

func (q *lockRun) releasedBy(x *Exec, s *State, fn *Term) (Tok, bool) {
	for _, t := range toks(s, tokRelease) {
		if t.a == fn || x.u.evalEq(s, t.a, fn) == 1 {
			return q.holds(x, s, t.b, tokWrite, tokRead)
		}
	}
	return Tok{}, false
}

func init() {
	register("C07", "On every path of every function that is exported, started as a goroutine or called recursively, taken locks are released exactly once or handed over exactly once, no lock that is not held is released, and no lock that is held is waited for.",
		func(P *Prog, eff *Effects, r *Report) {
			q := &lockRun{P: P, eff: eff, balanced: map[*ssa.Function]map[string]bool{}, assumed: map[*ssa.Function]bool{}}
			q.reach = eff.reachesInstr(q.touch)
			roots := map[*ssa.Function]string{}
			for _, f := range P.fns {
				if !q.reach[f] {
					continue
				}
				if f.Parent() == nil && f.Object() != nil && f.Object().Exported() {
					roots[f] = "exported"
				}
			}
			nops := 0
			for _, f := range P.fns {
				for _, b := range f.Blocks {
					for _, i := range b.Instrs {
						if ci, ok := i.(ssa.CallInstruction); ok {
							if k, _ := lockOp(ci.Common()); k != "" {
								nops++
							}
						}
						g, ok := i.(*ssa.Go)
						if !ok {
							continue
						}
						if fn := g.Call.StaticCallee(); fn != nil && q.reach[fn] {
							roots[fn] = "goroutine"
						}
						if mc, ok := g.Call.Value.(*ssa.MakeClosure); ok && q.reach[mc.Fn.(*ssa.Function)] {
							roots[mc.Fn.(*ssa.Function)] = "goroutine"
						}
					}
				}
			}
			r.need("lock operations", nops)
			type res struct {
				bad   []Violation
				exits int
				fail  string
			}
			results := map[*ssa.Function]res{}
			seen := map[*ssa.Function]bool{}
			var visit func(f *ssa.Function)
			visit = func(f *ssa.Function) {
				if seen[f] || !q.reach[f] || !P.inMod[f] || len(f.Blocks) == 0 {
					return
				}
				seen[f] = true
				for _, g := range eff.callees[f] {
					visit(g)
				}
				ok, leaves, classes, exits := q.run(f)
				results[f] = res{q.bad, exits, q.fail}
				if ok && !leaves && q.fail == "" && !q.assumed[f] && !takesLocks(f) {
					q.balanced[f] = classes
				}
			}
			for _, f := range P.fns {
				visit(f)
			}
			for f := range q.assumed {
				if roots[f] == "" {
					roots[f] = "recursive"
				}
			}
			for _, f := range P.fns {
				if f.Parent() != nil && q.reach[f] && roots[f] == "" && results[f].exits > 0 {
					roots[f] = "callback"
					if res := results[f]; len(res.bad) > 0 {
						var bad []Violation
						for _, b := range res.bad {
							if b.Rule != ruleHeld { // it may release a lock for its maker
								bad = append(bad, b)
							}
						}
						res.bad = bad
						results[f] = res
					}
				}
			}
			var fs []*ssa.Function
			for f := range roots {
				fs = append(fs, f)
			}
			sort.Slice(fs, func(i, j int) bool { return fs[i].Pos() < fs[j].Pos() })
			for _, f := range fs {
				v := results[f]
				if v.fail != "" {
					r.violate(P.pos(f.Pos()), fname(f), "incomplete", "analysis incomplete: "+v.fail, "")
				}
				for _, b := range v.bad {
					r.violate(b.Where, b.Func, b.Rule, b.What, b.Path)
				}
				r.obligation(fmt.Sprintf("%s (%s): locks are released or handed over once at each of %d exits", fname(f), roots[f], v.exits), len(v.bad) == 0)
			}
			r.count("functions that deal with locks", len(seen))
			r.count("functions that leave all locks as they were", len(q.balanced))
			r.count("lock operations met on paths", q.ops)
		})
}
