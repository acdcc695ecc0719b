package main

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// walker follows the position of a traversal: on every path the token "next" names the first
// entry that has neither been handed to the callback nor been found to be ignored.
type walker struct {
	P             *Prog
	r             *Report
	root          *ssa.Function
	ign, del, dum *headBool
	state         string
	first         *Term
	start         func(t *Term) bool // the address of the start of the list
	steps, calls  int
	tracked       map[string]map[Tok]bool
}

const walkMax = 6

// canon: positions without the time of the read; the first entry is w.first.
func (w *walker) canon(x *Exec, t *Term) *Term {
	t = entryTerm(t)
	if t == nil {
		return t
	}
	if t.Op == OPCall && len(t.Args) > 0 {
		switch t.Aux {
		case "Next", "DirectNext":
			p := entryTerm(t.Args[0])
			for p != nil && p.Op == OPCall && (p.Aux == "Prev" || p.Aux == "DirectPrev") {
				p = entryTerm(p.Args[0])
			}
			if p != nil && w.start(p) {
				return w.first
			}
			return w.succ(x, w.canon(x, t.Args[0]))
		}
	}
	return t
}

func (w *walker) succ(x *Exec, t *Term) *Term { return x.u.mk(OPCall, "next", nil, t) }

// isStart: the place before the first entry.
func (w *walker) isStart(t *Term) bool {
	p := entryTerm(t)
	for p != nil && p.Op == OPCall && (p.Aux == "Prev" || p.Aux == "DirectPrev") {
		p = entryTerm(p.Args[0])
	}
	return p != nil && w.start(p)
}

// after: the position that follows v.
func (w *walker) after(x *Exec, v *Term) *Term {
	if w.isStart(v) {
		return w.first
	}
	return w.succ(x, w.canon(x, v))
}

func (w *walker) same(x *Exec, s *State, a, b *Term) bool {
	return a == b || x.u.evalEq(s, a, b) == 1
}

// all terms of the path that stand for the position t
func (w *walker) names(x *Exec, s *State, t *Term) (ts []*Term) {
	ts = append(ts, t)
	seen := map[*Term]bool{t: true}
	var walk func(q *Term)
	walk = func(q *Term) {
		if q == nil || seen[q] {
			return
		}
		seen[q] = true
		if w.canon(x, q) == t {
			ts = append(ts, q)
		}
		for _, a := range q.Args {
			walk(a)
		}
	}
	for f := range s.facts {
		walk(f.a)
		walk(f.b)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].ID < ts[j].ID })
	return
}

// learn keeps what a branch says about the next entries, which may be forgotten where paths meet.
func (w *walker) learn(x *Exec, s *State) {
	n := w.next(s)
	if n == nil {
		return
	}
	for _, q := range w.chain(x, s, n) {
		if w.ignored(x, s, q) {
			s.toks[Tok{"ignored", q, nil}] = struct{}{}
		} else if w.notIgnored(x, s, q) {
			s.toks[Tok{"live", q, nil}] = struct{}{}
		}
	}
}

func (w *walker) ignored(x *Exec, s *State, t *Term) bool {
	if _, ok := s.toks[Tok{"ignored", t, nil}]; ok {
		return true
	}
	for _, n := range w.names(x, s, t) {
		if w.ign.known(x, s, n, w.state, 1) || w.del.known(x, s, n, w.state, 1) || w.dum.known(x, s, n, w.state, 1) {
			return true
		}
	}
	return false
}

func (w *walker) notIgnored(x *Exec, s *State, t *Term) bool {
	if _, ok := s.toks[Tok{"live", t, nil}]; ok {
		return true
	}
	for _, n := range w.names(x, s, t) {
		if w.ign.known(x, s, n, w.state, -1) || w.del.known(x, s, n, w.state, -1) && w.dum.known(x, s, n, w.state, -1) {
			return true
		}
	}
	return false
}

// atEnd: there is no entry at position t.
func (w *walker) atEnd(x *Exec, s *State, t *Term) bool {
	if x.u.evalEq(s, t, x.u.Nil) == 1 {
		return true
	}
	for f := range s.facts {
		if f.op == 'T' && !f.neg && f.a.Op == OPCall && f.a.Aux == "Empty" && w.canon(x, f.a.Args[0]) == t {
			return true
		}
		if f.op == '=' && !f.neg && f.b != nil && t.Op == OPCall && t.Aux == "next" {
			// the last element is its own successor
			a, b := w.canon(x, f.a), w.canon(x, f.b)
			if a == t && b == t.Args[0] || b == t && a == t.Args[0] {
				return true
			}
		}
	}
	return false
}

func (w *walker) next(s *State) *Term {
	for k := range s.toks {
		if k.kind == "next" {
			return k.a
		}
	}
	return nil
}

func (w *walker) set(s *State, t *Term) {
	for k := range s.toks {
		if k.kind == "next" || k.kind == "cursor" || k.kind == "before" || k.kind == "ignored" || k.kind == "live" {
			delete(s.toks, k)
		}
	}
	if t != nil {
		s.toks[Tok{"next", t, nil}] = struct{}{}
	}
}

// position chain: next and what follows it as long as entries are ignored.
func (w *walker) chain(x *Exec, s *State, t *Term) (ts []*Term) {
	for k := 0; k < walkMax; k++ {
		ts = append(ts, t)
		if !w.ignored(x, s, t) {
			break
		}
		t = w.succ(x, t)
	}
	return
}

func phiMarker(x *Exec, ctx *Ctx, p *ssa.Phi) *Term {
	return x.u.sym(fmt.Sprintf("cursor:%d:%s", ctx.id, p.Name()), p.Type(), "cursor")
}

// loop: at a loop header the position is expressed by one of its variables.
func (w *walker) loop(x *Exec, s *State, ctx *Ctx, to *ssa.BasicBlock, phis map[*ssa.Phi]*Term, back bool) {
	n := w.next(s)
	if n == nil {
		return
	}
	var ps []*ssa.Phi
	for p := range phis {
		ps = append(ps, p)
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].Name() < ps[j].Name() })
	key := fmt.Sprintf("%d:%s:%d", ctx.id, fname(to.Parent()), to.Index)
	for _, q := range w.chain(x, s, n) {
		for _, kind := range []string{"cursor", "before"} {
			for _, p := range ps {
				v := phis[p]
				m := Tok{kind, phiMarker(x, ctx, p), nil}
				if back && len(w.tracked[key]) > 0 && !w.tracked[key][m] {
					continue
				}
				if v.Op == OConst || v.Op == ONil && kind == "before" {
					continue
				}
				c := w.canon(x, v)
				if kind == "before" {
					c = w.after(x, v)
				}
				if c == q || w.same(x, s, c, q) || kind == "cursor" && x.u.evalEq(s, v, x.u.Nil) == 1 && w.atEnd(x, s, q) {
					w.set(s, nil)
					s.toks[m] = struct{}{}
					if w.tracked[key] == nil {
						w.tracked[key] = map[Tok]bool{}
					}
					w.tracked[key][m] = true
					if back {
						w.steps++
						w.r.obligation(fname(w.root)+": advances by one entry via "+s.path(8), true)
					}
					return
				}
			}
		}
	}
	if back && len(w.tracked[key]) > 0 {
		w.r.violate(w.P.instrPos(to.Instrs[0]), fname(to.Parent()), "a traversal advances by exactly one entry at a time",
			fname(w.root)+" goes on to another position than the one after the last entry it handed to the callback or found to be ignored", s.path(15))
		w.r.obligation(fname(w.root)+": advances by one entry via "+s.path(8), false)
		w.set(s, nil)
	}
}

// enter: resolves the position to the value of the loop variable.
func (w *walker) enter(x *Exec, s *State, i ssa.Instruction, ctx *Ctx) {
	for k := range s.toks {
		if k.kind != "cursor" && k.kind != "before" {
			continue
		}
		for _, j := range i.Block().Instrs {
			p, ok := j.(*ssa.Phi)
			if !ok {
				break
			}
			if phiMarker(x, ctx, p) != k.a {
				continue
			}
			v, ok := s.env[p]
			if !ok {
				continue
			}
			if k.kind == "cursor" {
				w.set(s, w.canon(x, v))
			} else {
				w.set(s, w.after(x, v))
			}
			return
		}
	}
}

func (w *walker) callback(x *Exec, s *State, c *Call) []*Outcome {
	w.calls++
	P := w.P
	bad := func(rule, what string) {
		w.r.violate(P.instrPos(c.instr), fname(c.instr.Parent()), rule, what, s.path(15))
	}
	e, wrong := entryOfArgs(c)
	good := true
	if wrong != "" {
		good = false
		bad("the callback gets an entry with its own key and value", fname(w.root)+" calls the callback "+wrong)
	}
	if _, ok := s.toks[Tok{"stopped", nil, nil}]; ok {
		good = false
		bad("no call after the callback returned false", fname(w.root)+" calls the callback again")
	} else if e != nil {
		e = w.canon(x, e)
		n := w.next(s)
		hit := false
		if n != nil {
			for _, q := range w.chain(x, s, n) {
				if q == e || w.same(x, s, q, e) {
					hit = true
				}
			}
		}
		if !hit {
			good = false
			bad("every live entry is visited once, in the order of the list", fname(w.root)+" calls the callback with "+e.String()+", which is not the next entry of the list")
		}
		if !w.notIgnored(x, s, e) {
			good = false
			bad("no internal marker is visited", fname(w.root)+" calls the callback for an entry that may be an internal marker or deleted")
		}
		w.set(s, w.succ(x, e))
	}
	w.r.obligation(fname(w.root)+": calls the callback for the next live entry via "+s.path(8), good)
	no := s.clone()
	w.set(no, nil)
	no.toks[Tok{"stopped", nil, nil}] = struct{}{}
	no.note(P.instrPos(c.instr) + " callback returned false")
	s.note(P.instrPos(c.instr) + " callback returned true")
	return []*Outcome{{s, []*Term{x.u.True}}, {no, []*Term{x.u.Fals}}}
}

func init() {
	register("C03", "On every path through a traversal the position is followed from the first element of the ordered list: every call of the callback is for the entry at the position, which is known not to be a marker or deleted, with its own key and value; every step, also round loops, goes to exactly the next position and only past entries that were visited or are known to be ignored; the traversal ends only at the end of the list or after the callback returned false, and does not call it afterwards.",
		func(P *Prog, eff *Effects, r *Report) {
			_, _, state := P.headRoles(eff, r)
			isIgn := P.method(P.root, "MapHead", "IsIgnored")
			isDel, isDum := P.method(P.root, "MapHead", "IsDeleted"), P.method(P.root, "MapHead", "IsDummy")
			first := P.method(P.root, "Map", "First")
			if state == "" || isIgn == nil || isDel == nil || isDum == nil || first == nil {
				r.violate("-", "Map.First", "anchor", "First or one of the queries of the state not found", "")
				return
			}
			// where the list starts: First returns the element after it
			fx := newExec(P, eff, &Client{})
			field := ""
			for _, o := range fx.runRoot(first) {
				t := entryTerm(o.rets[0])
				if t.Op != OPCall || t.Aux != "Next" && t.Aux != "DirectNext" {
					field = ""
					break
				}
				p := entryTerm(t.Args[0])
				for p.Op == OPCall && (p.Aux == "Prev" || p.Aux == "DirectPrev") {
					p = entryTerm(p.Args[0])
				}
				if a, ok := fieldLoad(p); ok {
					field = a.Aux
				}
			}
			fx.finish(r)
			r.obligation("First returns the element after the start of the list", field != "")
			if field == "" {
				r.violate(P.pos(first.Pos()), fname(first), "First returns the first entry", "First does not return the element that follows the start of the ordered list", "")
				return
			}
			for _, f := range P.traversals(r) {
				w := &walker{P: P, r: r, root: f, state: state, tracked: map[string]map[Tok]bool{}}
				cl := &Client{interesting: func(x *Exec, i ssa.Instruction) bool {
					if ci, ok := i.(ssa.CallInstruction); ok && isElistOp(ci, "Next", "Prev", "DirectNext", "DirectPrev", "Empty") {
						return true
					}
					return readsField(i, state) || isDynCall(i)
				}}
				cl.onEnterLoop = func(x *Exec, s *State, ctx *Ctx, from, to *ssa.BasicBlock, phis map[*ssa.Phi]*Term) {
					w.loop(x, s, ctx, to, phis, false)
				}
				cl.onBackEdge = func(x *Exec, s *State, ctx *Ctx, from, to *ssa.BasicBlock, phis map[*ssa.Phi]*Term) {
					w.loop(x, s, ctx, to, phis, true)
				}
				cl.onBranch = func(x *Exec, s *State, ctx *Ctx) { w.learn(x, s) }
				cl.onInstr = func(x *Exec, s *State, i ssa.Instruction, ctx *Ctx) {
					if _, ok := i.(*ssa.Phi); !ok && x.headers[i.Block()] {
						w.enter(x, s, i, ctx)
					}
				}
				cl.onCall = func(x *Exec, s *State, c *Call) ([]*Outcome, bool) {
					if isRootParam(f, c) {
						return w.callback(x, s, c), true
					}
					if m := x.itemMethod(c); m != "" {
						return x.itemCall(s, c, m), true
					}
					return nil, false
				}
				x := newExec(P, eff, cl)
				w.ign, w.del, w.dum = x.headBool(isIgn, state), x.headBool(isDel, state), x.headBool(isDum, state)
				if w.ign == nil || w.del == nil || w.dum == nil {
					r.violate(P.pos(isIgn.Pos()), fname(isIgn), "anchor", "the result does not depend on the state of the entry", "")
					return
				}
				w.first = x.u.sym("first entry", nil, "first entry")
				w.start = func(t *Term) bool {
					a, ok := fieldLoad(t)
					return ok && a.Aux == field && a.Args[0].Op == OSym && strings.HasPrefix(a.Args[0].Aux, "param:"+fname(f)+":")
				}
				st := newState()
				w.set(st, w.first)
				n := 0
				for _, o := range x.runRootIn(f, st) {
					n++
					good := false
					if _, ok := o.st.toks[Tok{"stopped", nil, nil}]; ok {
						good = true
					} else if p := w.next(o.st); p != nil {
						for _, q := range w.chain(x, o.st, p) {
							good = good || w.atEnd(x, o.st, q)
						}
					}
					if !good {
						r.violate(P.pos(f.Pos()), fname(f), "a traversal ends at the end of the list or on request", fname(f)+" can return although the callback did not return false and entries may follow", o.st.path(15))
					}
					r.obligation(fname(f)+": ends at the end of the list or on request via "+o.st.path(6), good)
				}
				r.need("exits of "+fname(f), n)
				r.need("visits of "+fname(f), w.calls)
				r.need("steps of "+fname(f), w.steps)
				x.finish(r)
			}
		})
}
