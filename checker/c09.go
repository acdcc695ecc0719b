package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// poolRules follows the slots of the entry pools: which slots are handed out, appended and dropped.
type poolRules struct {
	P                        *Prog
	eff                      *Effects
	conflict, reverse, state string
	isDel                    *ssa.Function
	pool                     *types.Named // the pool type
}

func newPoolRules(P *Prog, eff *Effects, r *Report) *poolRules {
	c, v, st := P.headRoles(eff, r)
	isDel := P.method(P.root, "MapHead", "IsDeleted")
	get := P.method(P.root, "bucket", "GetItem")
	if c == "" || v == "" || st == "" {
		return nil
	}
	if isDel == nil || get == nil {
		r.violate("-", "-", "anchor", "MapHead.IsDeleted or the slot query of the bucket not found", "")
		return nil
	}
	p := &poolRules{P: P, eff: eff, conflict: c, reverse: v, state: st, isDel: isDel}
	res := get.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		if n := namedOf(deref(res.At(i).Type())); n != nil {
			if _, ok := n.Underlying().(*types.Struct); ok {
				p.pool = n
			}
		}
	}
	if p.pool == nil {
		r.violate("-", fname(get), "anchor", "the slot query does not yield a pool", "")
		return nil
	}
	return p
}

// hdrOf: the slice header of a pool whose len, cap or data cell has the address.
func hdrOf(addr *Term, part string) *Term {
	if addr == nil || addr.Op != OField || !strings.HasSuffix(addr.Aux, "."+part) {
		return nil
	}
	return addr.Args[0]
}

// isPoolHdr: the header is the slot table of a pool.
func (p *poolRules) isPoolHdr(h *Term) bool {
	return h != nil && h.Op == OField && strings.HasPrefix(h.Aux, p.pool.Obj().Name()+".")
}

// plus: b == a + n
func (x *Exec) plus(s *State, a *Term, n int64, b *Term) bool {
	u := x.u
	op, k := token.ADD, n
	if n < 0 {
		op, k = token.SUB, -n
	}
	for _, q := range append(u.class(s, a), a) {
		if u.evalEq(s, u.bin(op, q, u.int(k), types.Typ[types.Int]), b) == 1 {
			return true
		}
	}
	for _, q := range append(u.class(s, b), b) {
		op2 := token.SUB
		if n < 0 {
			op2 = token.ADD
		}
		if u.evalEq(s, u.bin(op2, q, u.int(k), types.Typ[types.Int]), a) == 1 {
			return true
		}
	}
	return false
}

// elemIdx splits the address of a slot into the table it is in and its index.
func (x *Exec) elemIdx(e *Term) (base, idx *Term) {
	e = entryTerm(e)
	if e != nil && e.Op == OElem {
		return e.Args[0], e.Args[1]
	}
	return e, x.u.int(0)
}

type poolRun struct {
	x     *Exec
	p     *poolRules
	bad   []Violation
	order bool // judge the order of appended slots against the parameter
	hash  *Term
	rec   map[*ssa.Function]bool
	n     int
}

func (q *poolRun) fail(s *State, i ssa.Instruction, rule, what string) {
	q.bad = append(q.bad, Violation{q.p.P.instrPos(i), fname(i.Parent()), rule, what, s.path(14)})
}

const (
	ruleOrder = "a slot is appended only behind a slot with a smaller hash"
	ruleDrop  = "only slots of deleted entries are dropped from a pool"
	ruleClean = "a slot that is handed out carries nothing over"
	ruleUsed  = "only slots of deleted entries or unused slots are handed out"
)

// lenChange judges a change of the number of used slots.
func (q *poolRun) lenChange(s *State, h, old, new *Term, i ssa.Instruction, ctx *Ctx) {
	x, u := q.x, q.x.u
	q.n++
	if _, ok := s.toks[Tok{"impossible", nil, nil}]; ok {
		return
	}
	if dbg {
		fmt.Println("LEN", q.p.P.instrPos(i), h, old, new)
	}
	data := x.load(s, q.dataAddr(h), types.Typ[types.UnsafePointer], i, ctx)
	for t := range s.toks {
		if t.kind == "emptied" && t.a == h {
			if u.evalEq(s, new, t.b) != 1 && !x.plus(s, t.b, 1, new) {
				q.fail(s, i, ruleDrop, "the table is filled again with another number of slots")
			}
			delete(s.toks, t)
			return
		}
	}
	if u.evalEq(s, data, u.Nil) == 1 {
		s.toks[Tok{"emptied", h, old}] = struct{}{}
		return
	}
	if x.plus(s, old, 1, new) {
		s.toks[Tok{"appended", h, old}] = struct{}{}
		_, a := s.toks[Tok{"empty", h, nil}]
		_, b := s.toks[Tok{"fits", h, nil}]
		if q.order && !a && !b && u.evalEq(s, old, u.int(0)) != 1 {
			s.toks[Tok{"unordered:" + q.p.P.instrPos(i), h, nil}] = struct{}{}
		}
		return
	}
	if u.evalEq(s, old, new) == 1 {
		return
	}
	if _, ok := s.toks[Tok{"moved", entryTerm(u.elem(data, new, nil)), nil}]; ok {
		return
	}
	for t := range s.toks {
		if t.kind == "moved" {
			b, k := x.elemIdx(t.a)
			if b == data && u.evalEq(s, k, new) == 1 {
				return
			}
		}
	}
	if x.plus(s, old, -1, new) {
		d := x.headBool(q.p.isDel, q.p.state)
		for t := range s.toks {
			if t.kind == "deleted" {
				b, k := x.elemIdx(t.a)
				if b == data && u.evalEq(s, k, new) == 1 {
					return
				}
			}
		}
		e := entryTerm(u.elem(data, new, nil))
		if d.known(x, s, e, q.p.state, 1) {
			return
		}
		q.fail(s, i, ruleDrop, "the last slot is dropped although its entry is not known to be deleted")
		return
	}
	q.fail(s, i, ruleDrop, "the number of used slots is changed to something else than one more, or one less after a deletion")
}

func (q *poolRun) dataAddr(h *Term) *Term { return q.x.u.sliceField(h, 0) }

// note keeps what a branch has established as tokens.
func (q *poolRun) note(s *State) {
	x, u := q.x, q.x.u
	d := x.headBool(q.p.isDel, q.p.state)
	if d == nil {
		return
	}
	lens := map[*Term]*Term{} // header -> load of its length
	caps := map[*Term][]*Term{}
	heads := map[*Term]bool{} // entries whose state is known of
	var rev []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.Op == OLoad && t.Args[0].Op == OField {
			a := t.Args[0]
			switch {
			case hdrOf(a, "len") != nil && q.p.isPoolHdr(a.Args[0]):
				lens[a.Args[0]] = t
			case hdrOf(a, "cap") != nil && q.p.isPoolHdr(a.Args[0]):
				caps[a.Args[0]] = append(caps[a.Args[0]], t)
			case a.Aux == "MapHead."+q.p.state:
				heads[a.Args[0]] = true
			case a.Aux == "MapHead."+q.p.reverse:
				rev = append(rev, t)
			}
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	for f := range s.facts {
		walk(f.a)
		walk(f.b)
	}
	for h, l := range lens {
		if u.evalEq(s, l, u.int(0)) == 1 {
			s.toks[Tok{"empty", h, nil}] = struct{}{}
		}
		for _, c := range caps[h] {
			for f := range s.facts {
				for _, t := range []*Term{f.a, f.b} {
					if f.op == '<' && t != l && t != c && u.evalLt(s, t, l) == 1 && u.evalLt(s, t, c) == -1 {
						s.toks[Tok{"impossible", nil, nil}] = struct{}{} // a table is never longer than its capacity
					}
				}
			}
		}
	}
	for e := range heads {
		if d.known(x, s, e, q.p.state, 1) {
			s.toks[Tok{"deleted", entryTerm(e), nil}] = struct{}{}
		}
	}
	if q.hash == nil {
		return
	}
	for _, l := range rev {
		if u.evalLt(s, l, q.hash) != 1 {
			continue
		}
		base, idx := x.elemIdx(l.Args[0].Args[0])
		if u.evalEq(s, base, u.Nil) == 1 {
			// the load has failed, nothing follows
			for h := range lens {
				s.toks[Tok{"fits", h, nil}] = struct{}{}
			}
			continue
		}
		a, ok := fieldLoad(base)
		if !ok || !q.p.isPoolHdr(a.Args[0]) {
			continue
		}
		if ln := lens[a.Args[0]]; ln != nil && x.plus(s, ln, -1, idx) {
			s.toks[Tok{"fits", a.Args[0], nil}] = struct{}{}
		}
	}
}

// cellHelper: a small function that changes the cell its first parameter points to.
func cellHelper(f *ssa.Function) bool {
	if f == nil || len(f.Blocks) == 0 || len(f.Blocks) > 6 || len(f.Params) == 0 {
		return false
	}
	if _, ok := deref(f.Params[0].Type()).Underlying().(*types.Basic); !ok {
		return false
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if op, ok := cellOpOf(i); ok && op.kind == "mutate" && addrRoot(op.addr) == ssa.Value(f.Params[0]) {
				return true
			}
		}
	}
	return false
}

// cellMutation: the address of the cell an instruction changes.
func cellMutation(i ssa.Instruction) (ssa.Value, bool) {
	if st, ok := i.(*ssa.Store); ok {
		return st.Addr, true
	}
	if op, ok := cellOpOf(i); ok && op.kind == "mutate" {
		return op.addr, true
	}
	if ci, ok := i.(ssa.CallInstruction); ok && cellHelper(ci.Common().StaticCallee()) {
		return ci.Common().Args[0], true
	}
	return nil, false
}

// touches: the instruction is of interest for the use of slots.
func (p *poolRules) touches(i ssa.Instruction) bool {
	part := func(v ssa.Value) bool {
		k := addrKey(v)
		return k == "MapHead."+p.state || k == "MapHead."+p.reverse || k == "MapHead."+p.conflict
	}
	hdr := func(v ssa.Value) bool {
		k := addrKey(v)
		return strings.HasSuffix(k, ".len") || strings.HasSuffix(k, ".data") || strings.HasSuffix(k, ".cap") || strings.HasPrefix(k, p.pool.Obj().Name()+".")
	}
	if cellHelper(i.Parent()) {
		return true
	}
	if a, ok := cellMutation(i); ok && (part(a) || hdr(a)) {
		return true
	}
	switch y := i.(type) {
	case *ssa.UnOp:
		return y.Op == token.MUL && (part(y.X) || hdr(y.X))
	case ssa.CallInstruction:
		if op, ok := cellOpOf(i); ok {
			return part(op.addr) || hdr(op.addr)
		}
		if isElemStep(i) {
			return true
		}
		b, ok := y.Common().Value.(*ssa.Builtin)
		return ok && b.Name() == "copy"
	}
	return false
}

// run interprets a function and reports its exits.
func (p *poolRules) run(r *Report, root *ssa.Function, order bool, exit func(q *poolRun, o *Outcome)) *poolRun {
	P, eff := p.P, p.eff
	q := &poolRun{p: p, order: order}
	to := eff.reachesInstr(func(i ssa.Instruction) bool {
		if cellHelper(i.Parent()) {
			return true
		}
		a, ok := cellMutation(i)
		if !ok {
			return false
		}
		k := addrKey(a)
		if _, ok := i.(*ssa.Store); ok {
			return k == "MapHead."+p.state || k == "MapHead."+p.reverse || k == "MapHead."+p.conflict
		}
		return strings.HasPrefix(k, "MapHead.") || strings.HasSuffix(k, ".len") || strings.HasSuffix(k, ".data")
	})
	cl := &Client{interesting: func(x *Exec, i ssa.Instruction) bool {
		_, ret := i.(*ssa.Return)
		return p.touches(i) || ret && yieldsSlot(i.Parent())
	}}
	cl.noInline = func(g *ssa.Function) bool {
		return !(to[g] || len(eff.wset[g]) == 0 && p.query(g) || yieldsSlot(g))
	}
	cl.onBranch = func(x *Exec, s *State, ctx *Ctx) { q.note(s) }
	cl.redoLoops = true
	cl.onBackEdge = func(x *Exec, s *State, ctx *Ctx, from, to *ssa.BasicBlock, phis map[*ssa.Phi]*Term) {
		for t := range s.toks {
			switch t.kind {
			case "deleted", "was deleted", "moved":
				delete(s.toks, t)
			}
		}
	}
	cl.keepRet = func(t *Term) bool {
		return t.Typ != nil && (typeIs(t.Typ, "skiplistmap", "MapItem") || isSampleT(deref(t.Typ)))
	}
	cl.onStore = func(x *Exec, s *State, addr, v *Term, i ssa.Instruction, ctx *Ctx) {
		if st, ok := i.(*ssa.Store); ok {
			if t := st.Val.Type(); isSampleT(t) {
				s.toks[Tok{"overwritten", addr, nil}] = struct{}{}
			} else if typeIs(t, "skiplistmap", "MapHead") && addr.Op == OField {
				s.toks[Tok{"overwritten", addr.Args[0], nil}] = struct{}{}
			}
		}
		switch {
		case hdrOf(addr, "len") != nil && p.isPoolHdr(addr.Args[0]) && !s.fresh[rootOf(addr)]:
			if _, ok := i.(*ssa.Store); ok {
				return // a new table
			}
			old := x.load(s, addr, types.Typ[types.Int], i, ctx)
			q.lenChange(s, addr.Args[0], old, v, i, ctx)
		case hdrOf(addr, "data") != nil:
			if v.Op == OElem {
				s.toks[Tok{"moved", v, nil}] = struct{}{}
			} else if _, ok := fieldLoad(v); ok {
				s.toks[Tok{"moved", v, nil}] = struct{}{}
			}
			if p.isPoolHdr(addr.Args[0]) && !s.fresh[rootOf(addr)] {
				h := addr.Args[0]
				defer func() { s.toks[Tok{"table", h, v}] = struct{}{} }()
				for t := range s.toks {
					if t.a == h && (t.kind == "table" || strings.HasPrefix(t.kind, "unordered:") || t.kind == "appended") {
						delete(s.toks, t)
					}
				}
			}
		case locKey(addr) == "MapHead."+p.state:
			e := entryTerm(addr.Args[0])
			old := x.load(s, addr, types.Typ[types.Uint32], i, ctx)
			d := x.headBool(p.isDel, p.state)
			if d == nil {
				return
			}
			was := x.u.eval(s, d.at(x.u, old)) == 1 || boolOf(x, s, d.at(x.u, old))
			if was {
				s.toks[Tok{"was deleted", e, nil}] = struct{}{}
			}
		}
	}
	cl.onCall = func(x *Exec, s *State, c *Call) ([]*Outcome, bool) {
		if b, ok := c.common.Value.(*ssa.Builtin); ok && c.method == nil && b.Name() == "copy" {
			dst := c.args[0]
			s.toks[Tok{"copied", x.u.slicePart(dst, 0), x.u.slicePart(dst, 1)}] = struct{}{}
			k := rootOf(x.u.slicePart(dst, 0))
			was := s.fresh[k]
			o := x.builtin(s, c, "copy")
			if was {
				// the entries copied are those of another table, and the copy stays private
				s.fresh[k] = true
			}
			return o, true
		}
		return nil, false
	}
	cl.onRecursion = func(x *Exec, s *State, c *Call) ([]*Outcome, bool) {
		if dbg {
			fmt.Println("REC", P.instrPos(c.instr))
		}
		o := x.opaqueModule(s, c)[0]
		if len(o.rets) == 0 || o.rets[0].Typ == nil || !typeIs(o.rets[0].Typ, "skiplistmap", "MapItem") {
			return []*Outcome{o}, true
		}
		if q.hash != nil {
			same := false
			for _, a := range c.args {
				if x.u.evalEq(s, a, q.hash) == 1 {
					same = true
				}
			}
			if !same {
				q.fail(s, c.instr, ruleOrder, "a slot is asked for with another hash")
			}
		}
		s.toks[Tok{"clean", entryTerm(o.rets[0]), nil}] = struct{}{}
		return []*Outcome{o}, true
	}
	x := newExec(P, eff, cl)
	q.x = x
	st := newState()
	var args []*Term
	for i, prm := range root.Params {
		a := x.u.sym("param:"+fname(root)+":"+prm.Name(), prm.Type(), prm.Name())
		st.born[a] = true
		if i == 0 && isPtrLike(prm.Type()) {
			st.addFact(eqFact(a, x.u.Nil, true))
		}
		if b, ok := prm.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Uint64 && order {
			q.hash = a
		}
		args = append(args, a)
	}
	for _, o := range x.run(root, args, nil, st, x.ctx(nil, nil, root)) {
		for t := range o.st.toks {
			switch {
			case strings.HasPrefix(t.kind, "unordered:"):
				q.bad = append(q.bad, Violation{t.kind[len("unordered:"):], fname(root), ruleOrder, "a slot is appended although neither the pool is known to be empty nor the hash of its last slot is known to be smaller", o.st.path(14)})
			case t.kind == "emptied":
				q.bad = append(q.bad, Violation{P.pos(root.Pos()), fname(root), ruleDrop, "the table of a pool stays empty", o.st.path(14)})
			}
		}
		if exit != nil {
			exit(q, o)
		}
	}
	x.finish(r)
	return q
}

// yieldsSlot: a function of the module that returns a slot.
func yieldsSlot(g *ssa.Function) bool {
	res := g.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		if _, ok := res.At(i).Type().Underlying().(*types.Pointer); ok && isSampleT(deref(res.At(i).Type())) {
			return true
		}
	}
	return false
}

// query: a function that only looks at slots, itself or through a helper.
func (p *poolRules) query(f *ssa.Function) bool {
	return len(f.Blocks) <= 3 || p.looks(f, 2)
}

func (p *poolRules) looks(f *ssa.Function, depth int) bool {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if p.touches(i) {
				return true
			}
		}
	}
	if depth > 0 {
		for _, g := range p.eff.callees[f] {
			if p.P.inMod[g] && p.looks(g, depth-1) {
				return true
			}
		}
	}
	return false
}

// handOut judges the slot a function hands out.
func (q *poolRun) handOut(o *Outcome, reset bool) (rule, what string) {
	x, u, s := q.x, q.x.u, o.st
	e := entryTerm(o.rets[0])
	if u.evalEq(s, e, u.Nil) == 1 {
		return "", ""
	}
	if _, ok := s.toks[Tok{"clean", e, nil}]; ok {
		return "", ""
	}
	if _, ok := s.toks[Tok{"impossible", nil, nil}]; ok {
		return "", ""
	}
	base, idx := x.elemIdx(e)
	if u.evalEq(s, base, u.Nil) == 1 {
		return "", "" // the access fails
	}
	if e.Op == OPCall && len(e.Args) > 0 && e.Args[0].Op == OField && q.p.isPoolHdr(e.Args[0]) {
		return "", "" // given back through the exported Pool.Put
	}
	unused := false
	if a, ok := fieldLoad(base); ok {
		for t := range s.toks {
			if t.kind == "appended" && t.a == a.Args[0] && u.evalEq(s, t.b, idx) == 1 {
				unused = true
			}
		}
	}
	gap := false // a new slot in a new table
	if r := rootOf(base); r.Op == OAlloc {
		gap = true
		for t := range s.toks {
			if t.kind != "copied" {
				continue
			}
			b, lo := t.a, u.int(0)
			if b.Op == OElem {
				b, lo = b.Args[0], b.Args[1]
			}
			if b != base {
				continue
			}
			above := u.evalEq(s, u.bin(token.ADD, lo, t.b, types.Typ[types.Int]), idx) == 1
			below := u.evalLt(s, idx, lo) == 1 || x.plus(s, idx, 1, lo)
			if !above && !below {
				gap = false
			}
		}
	}
	_, del := s.toks[Tok{"was deleted", e, nil}]
	if !unused && !gap && !del {
		return ruleUsed, "the slot is neither that of a deleted entry nor the next unused one"
	}
	if !reset {
		return "", ""
	}
	if gap {
		for t := range s.toks {
			if t.kind != "overwritten" {
				continue
			}
			if b, i := x.elemIdx(entryTerm(t.a)); t.a == e || b == base && u.evalEq(s, i, idx) == 1 {
				return ruleClean, "another entry has been copied to the slot"
			}
		}
		for _, f := range []string{q.p.state, q.p.reverse, q.p.conflict} {
			if v := s.mem[x.headField(e, f)]; v != nil && u.evalEq(s, v, u.int(0)) != 1 {
				return ruleClean, fmt.Sprintf("the field %s of the slot is not reset", f)
			}
		}
		return "", ""
	}
	for _, f := range []string{q.p.state, q.p.reverse, q.p.conflict} {
		if v := s.mem[x.headField(e, f)]; v == nil || u.evalEq(s, v, u.int(0)) != 1 {
			return ruleClean, fmt.Sprintf("the field %s of the slot is not reset", f)
		}
	}
	return "", ""
}

func init() {
	register("C09", "Every slot a pool hands out is, on its path, the slot of an entry known to be deleted, the next unused slot, or the gap left in a new table, and its mark, hash and conflict hash are zero; the number of used slots is only lowered past a slot whose entry is known to be deleted, or past slots that another table has taken over.",
		func(P *Prog, eff *Effects, r *Report) {
			p := newPoolRules(P, eff, r)
			if p == nil {
				return
			}
			get := P.method(P.root, "bucket", "GetItem")
			pget := P.method(P.root, p.pool.Obj().Name(), "Get")
			if pget == nil {
				r.violate("-", "-", "anchor", "the slot query of the pool not found", "")
				return
			}
			for _, root := range []*ssa.Function{get, pget} {
				n := 0
				q := p.run(r, root, false, func(q *poolRun, o *Outcome) {
					n++
					rule, what := q.handOut(o, root == get)
					if dbg {
						fmt.Println("EXIT", fname(root), entryTerm(o.rets[0]), rule, what)
						for t := range o.st.toks {
							fmt.Println("   ", t.kind, t.a, t.b)
						}
					}
					r.obligation(fmt.Sprintf("%s: slot %v", fname(root), o.rets[0]), true)
					if rule != "" {
						q.bad = append(q.bad, Violation{P.pos(root.Pos()), fname(root), rule, what, o.st.path(16)})
					}
				})
				r.need("exits of "+fname(root), n)
				r.report(q.bad, ruleClean, ruleUsed)
			}
			p.drops(r)
		})
}

// report adds what was found about some rules.
func (r *Report) report(bad []Violation, rules ...string) {
	for _, v := range bad {
		for _, k := range rules {
			if v.Rule == k {
				r.violate(v.Where, v.Func, v.Rule, v.What, v.Path)
			}
		}
	}
}

// drops judges every place where the number of used slots of a pool is changed.
func (p *poolRules) drops(r *Report) {
	near, outer := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	for _, f := range p.P.fns {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if _, ok := i.(*ssa.Store); ok {
					continue
				}
				if a, ok := cellMutation(i); ok && p.tableLen(a) {
					near[f] = true
					if _, param := addrRoot(a).(*ssa.Parameter); param && !p.poolMethod(f) {
						outer[f] = true
					}
				}
			}
		}
	}
	for _, f := range sortFns(outer) {
		cs, _ := p.eff.callersOf(f)
		for _, c := range cs {
			near[c] = true
		}
	}
	n := 0
	for _, f := range sortFns(near) {
		bad := r.inContext(p.P, p.eff, f, 2, func(root *ssa.Function) (res []Violation) {
			q := p.run(r, root, false, nil)
			n += q.n
			for k := 0; k < q.n; k++ {
				r.obligation(fmt.Sprintf("%s: change %d of the number of used slots", fname(root), k), true)
			}
			for _, v := range q.bad {
				if v.Rule == ruleDrop {
					res = append(res, v)
				}
			}
			return
		})
		r.report(bad, ruleDrop)
	}
	r.need("changes of the number of used slots", n)
}

func (p *poolRules) poolMethod(f *ssa.Function) bool {
	rc := f.Signature.Recv()
	return rc != nil && namedOf(deref(rc.Type())) == p.pool
}

// tableLen: the address is the length of a table of slots.
func (p *poolRules) tableLen(a ssa.Value) bool {
	fa, ok := stripConv(a).(*ssa.FieldAddr)
	if !ok || !strings.HasSuffix(addrKey(a), ".len") {
		return false
	}
	s, ok := deref(fa.X.Type()).Underlying().(*types.Struct)
	return ok && isSliceMirror(s)
}
