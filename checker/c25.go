package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

const (
	ruleCallback = "no lock is held while a function of the caller runs"
	ruleUndo     = "what a traversal changes for its duration is undone when the function of the caller panics"
)

// callbackRun follows a traversal to the calls of the function it was given.
func (r *Report) callbackRun(P *Prog, eff *Effects, f *ssa.Function) (calls int) {
	match := func(i ssa.Instruction) bool {
		ci, ok := i.(ssa.CallInstruction)
		if !ok {
			return false
		}
		if k, _ := lockOp(ci.Common()); k != "" {
			return true
		}
		return isDynCall(i) || isToggle(ci.Common())
	}
	cl := &Client{interesting: func(x *Exec, i ssa.Instruction) bool { return match(i) }}
	// only what gets the function, or takes locks for longer than a call
	gets := map[*ssa.Function]bool{}
	for g := range eff.reachable(f) {
		for _, p := range g.Params {
			if isFuncType(p.Type()) {
				gets[g] = true
			}
		}
		if len(g.FreeVars) > 0 {
			gets[g] = true
		}
	}
	lk := &lockRun{P: P, eff: eff}
	locks := eff.reachesInstr(lk.touch)
	toggles := eff.reachesInstr(func(i ssa.Instruction) bool {
		ci, ok := i.(ssa.CallInstruction)
		return ok && isToggle(ci.Common())
	})
	cl.noInline = func(g *ssa.Function) bool { return !gets[g] && !locks[g] && !toggles[g] }
	cl.onLock = func(x *Exec, s *State, kind string, mu *Term, c *Call) ([]*Outcome, bool) {
		mu = lockTerm(mu)
		at := P.instrPos(c.instr) + " " + kind
		switch kind {
		case "Lock", "RLock":
			s.toks[Tok{tokWrite, mu, nil}] = struct{}{}
			s.note(at)
		case "TryLock", "TryRLock":
			no := s.clone()
			s.toks[Tok{tokWrite, mu, nil}] = struct{}{}
			s.note(at)
			return []*Outcome{{no, []*Term{x.u.Fals}}, {s, []*Term{x.u.True}}}, true
		default:
			for _, l := range toks(s, tokWrite) {
				if l.a == mu || x.u.evalEq(s, l.a, mu) == 1 {
					delete(s.toks, l)
				}
			}
			s.note(at)
		}
		return []*Outcome{{s, nil}}, true
	}
	restores := func(x *Exec, a, old *Term) bool {
		return a == old || a.Op == OStruct && len(a.Args) > 0 && a.Args[0] == x.u.slicePart(old, 0)
	}
	params := map[*Term]bool{}
	cl.onCall = func(x *Exec, s *State, c *Call) ([]*Outcome, bool) {
		if isToggle(c.common) {
			if len(c.args) > 0 {
				if l := x.u.slicePart(c.args[len(c.args)-1], 1); l == x.u.int(0) || c.args[len(c.args)-1].Op == ONil {
					return x.opaqueCall(s, c, "nothing"), true // no options given
				}
			}
			for _, t := range toks(s, "mode") {
				for _, a := range c.args {
					if restores(x, a, t.a) {
						delete(s.toks, t)
						return x.opaqueCall(s, c, "restore"), true
					}
				}
			}
			s.note(P.instrPos(c.instr) + " mode changed")
			outs := x.opaqueCall(s, c, "mode")
			if len(outs[0].rets) > 0 {
				s.toks[Tok{"mode", outs[0].rets[0], nil}] = struct{}{}
			}
			return outs, true
		}
		if c.fterm == nil || !params[c.fterm] {
			return nil, false
		}
		calls++
		for _, l := range toks(s, tokWrite) {
			r.violate(P.instrPos(c.instr), fname(c.instr.Parent()), ruleCallback, fname(f)+" calls the function it was given with "+lockClass(l.a)+" locked: an operation on the map in that function waits for ever", s.path(15))
		}
		for _, m := range toks(s, "mode") {
			all := append([]deferRec(nil), s.defers...)
			for _, d := range s.dstack {
				all = append(all, d...)
			}
			ok := false
			for _, d := range all {
				for _, a := range d.args {
					ok = ok || restores(x, a, m.a)
				}
				if d.fn != nil && (d.fn.Op == OClosure || d.fn.Op == OFunc) {
					ok = ok || d.fn.Fn != nil && toggles[d.fn.Fn]
				}
			}
			if !ok {
				r.violate(P.instrPos(c.instr), fname(c.instr.Parent()), ruleUndo, fname(f)+" calls the function it was given while the traversal mode is changed, and no deferred call restores it", s.path(15))
			}
		}
		return x.opaqueCall(s, c, "callback"), true
	}
	x := newExec(P, eff, cl)
	st := newState()
	var args []*Term
	for k, p := range f.Params {
		a := x.u.sym("param:"+fname(f)+":"+p.Name(), p.Type(), p.Name())
		st.born[a] = true
		if k == 0 && f.Signature.Recv() != nil {
			st.addFact(eqFact(a, x.u.Nil, true))
		}
		if isFuncType(p.Type()) {
			params[a] = true
		}
		args = append(args, a)
	}
	x.run(f, args, nil, st, x.ctx(nil, nil, f))
	x.finish(r)
	return
}

func isFuncType(t types.Type) bool {
	_, ok := t.Underlying().(*types.Signature)
	return ok
}

func init() {
	register("C25", "On every path of a traversal to a call of the function it was given, every lock taken has been released and a deferred call restores every traversal mode changed before.",
		func(P *Prog, eff *Effects, r *Report) {
			for _, f := range P.traversals(r) {
				n := r.callbackRun(P, eff, f)
				r.need("calls of the function given to "+fname(f), n)
				r.obligation(fname(f)+": calls of the function it is given", true)
			}
		})
}
