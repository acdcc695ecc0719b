package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	ruleFits   = "the number of used slots never exceeds the capacity"
	ruleInside = "slots reached by pointer arithmetic are inside the table"
)

// tableBounds judges, with other goroutines changing everything between two steps, that
// the tables of the pools are used within their capacity.
type tableBounds struct {
	P      *Prog
	eff    *Effects
	pool   *poolRules
	mirror map[string]bool        // keys of the header fields
	alone  map[*ssa.Function]bool // judged on their own
	lifted map[*ssa.Function]bool // judged with their callers
	minCap map[string]int64       // field holding a table -> smallest capacity it is made with
	grows  int
	steps  int
}

type boundsRun struct {
	b      *tableBounds
	x      *Exec
	bad    []Violation
	params bool                   // what is wrong depends on what the callers give
	down   map[*ssa.Phi]Violation // indexes that are counted down
	under  map[*ssa.Phi]bool      // those that are counted down below the first slot
	n      int
}

// mirrors finds the structs that are laid over slices.
func (b *tableBounds) mirrors() {
	for _, n := range b.P.root.Pkg.Scope().Names() {
		tn, ok := b.P.root.Pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		if st, ok := tn.Type().Underlying().(*types.Struct); ok && st.NumFields() == 3 {
			if bt, ok := st.Field(0).Type().Underlying().(*types.Basic); !ok || bt.Kind() != types.UnsafePointer {
				continue
			}
			for k := 0; k < 3; k++ {
				key, _, _ := fieldKey(tn.Type(), k)
				b.mirror[key] = true
			}
		}
	}
}

// toSize: a function that gives the length or the capacity of a table.
func (b *tableBounds) toSize(f *ssa.Function) bool {
	if len(f.Blocks) != 1 {
		return false
	}
	for _, i := range f.Blocks[0].Instrs {
		if c, ok := i.(*ssa.Call); ok {
			for _, a := range c.Call.Args {
				if b.mirror[addrKey(a)] {
					return true
				}
			}
		}
	}
	return false
}

func (b *tableBounds) touches(i ssa.Instruction) bool {
	if cellHelper(i.Parent()) || isElemStep(i) {
		return true
	}
	if a, ok := cellMutation(i); ok && b.mirror[addrKey(a)] {
		return true
	}
	switch y := i.(type) {
	case *ssa.UnOp:
		return y.Op == token.MUL && b.mirror[addrKey(y.X)]
	case ssa.CallInstruction:
		if op, ok := cellOpOf(i); ok {
			return b.mirror[addrKey(op.addr)] || i.Parent().Pkg != b.P.root
		}
		if f := y.Common().StaticCallee(); f != nil && smallCell(f) && len(y.Common().Args) > 0 {
			return b.mirror[addrKey(y.Common().Args[0])]
		}
	}
	return false
}

// smallCell: a helper that only loads or changes the cell it is given.
func smallCell(f *ssa.Function) bool {
	if len(f.Blocks) == 0 || len(f.Blocks) > 6 || len(f.Params) == 0 {
		return false
	}
	if _, ok := deref(f.Params[0].Type()).Underlying().(*types.Basic); !ok {
		return false
	}
	for _, bl := range f.Blocks {
		for _, i := range bl.Instrs {
			if op, ok := cellOpOf(i); ok && addrRoot(op.addr) == ssa.Value(f.Params[0]) {
				return true
			}
		}
	}
	return false
}

func plain(t *Term) *Term {
	for t != nil && t.Op == OConv && len(t.Args) > 0 {
		t = t.Args[0]
	}
	return t
}

// part: the header whose len, cap or data a value has been read from.
func (q *boundsRun) part(t *Term, part string) *Term {
	t = plain(t)
	if t == nil {
		return nil
	}
	a := q.x.loaded[t]
	if a == nil && t.Op == OSym && strings.HasPrefix(t.Aux, "old:") {
		a = q.x.loaded[q.x.u.mk(OSym, strings.TrimPrefix(t.Aux, "old:"), t.Typ)]
	}
	if a != nil {
		return hdrOf(a, part)
	}
	return nil
}

// lt: a < b is known.
func (q *boundsRun) lt(s *State, a, b *Term) bool {
	u := q.x.u
	for _, p := range append(u.class(s, a), a, plain(a)) {
		for _, r := range append(u.class(s, b), b, plain(b)) {
			if u.evalLt(s, p, r) == 1 {
				return true
			}
			for f := range s.facts {
				a, b := plain(f.a), plain(f.b)
				switch {
				case f.op == '<' && !f.neg && a == plain(p) && b == plain(r):
					return true
				case f.op == '<' && !f.neg && atLeast(a, 0) && isDiff(b, r, p), f.op == '<' && f.neg && atLeast(b, 1) && isDiff(a, r, p):
					return true
				case f.op == '=' && f.neg && (a == plain(p) && b == plain(r) || b == plain(p) && a == plain(r)):
					// the length is not the capacity
					if h := q.part(p, "len"); h != nil && q.part(r, "cap") == h {
						return true
					}
				}
			}
		}
	}
	return false
}

func atLeast(t *Term, n int64) bool {
	k, ok := isInt(t)
	return ok && k >= n
}

// isDiff: t is a-b.
func isDiff(t, a, b *Term) bool {
	return t.Op == OBin && t.Aux == "-" && plain(t.Args[0]) == plain(a) && plain(t.Args[1]) == plain(b)
}

// positive: a counter that goes down to 0 has not arrived there.
func (q *boundsRun) positive(s *State, t *Term) bool {
	u := q.x.u
	if t == nil {
		return false
	}
	if u.evalLt(s, u.int(0), t) == 1 || u.evalEq(s, t, u.int(0)) == -1 {
		return true
	}
	for f := range s.facts {
		a, b := plain(f.a), plain(f.b)
		if f.op == '<' && !f.neg && b == plain(t) && atLeast(a, 0) || f.op == '<' && f.neg && a == plain(t) && atLeast(b, 1) {
			return true
		}
	}
	return false
}

func (q *boundsRun) le(s *State, a, b *Term) bool {
	u := q.x.u
	a, b = plain(a), plain(b)
	if a == b || u.evalEq(s, a, b) == 1 || q.lt(s, a, b) || u.evalLt(s, b, a) == -1 {
		return true
	}
	if k, ok := isInt(a); ok {
		if k == 0 {
			return true
		}
		if l, ok := isInt(b); ok {
			return k <= l
		}
	}
	if _, ok := s.toks[Tok{"fit", a, b}]; ok {
		return true
	}
	// a slice is never longer than its capacity
	if h := q.part(a, "len"); h != nil && q.part(b, "cap") == h {
		return true
	}
	if b.Op == OBin && b.Aux == "-" {
		if k, ok := isInt(b.Args[1]); ok && k == 0 {
			return q.le(s, a, b.Args[0])
		}
		if a.Op == OBin && a.Aux == "-" && plain(a.Args[1]) == plain(b.Args[1]) {
			return q.le(s, a.Args[0], b.Args[0])
		}
	}
	// x+1 <= b if x < b
	if a.Op == OBin && a.Aux == "+" {
		if k, ok := isInt(a.Args[1]); ok && k == 1 {
			return q.lt(s, a.Args[0], b)
		}
	}
	return false
}

// maxOf: the largest value an index computed with a mask can have.
func maxOf(t *Term) (int64, bool) {
	t = plain(t)
	if k, ok := isInt(t); ok {
		return k, true
	}
	if t.Op != OBin {
		return 0, false
	}
	switch t.Aux {
	case "&":
		for _, a := range t.Args {
			a = plain(a)
			if a.Op == OConst && a.Val != nil {
				if k, ok := constant.Int64Val(constant.ToInt(a.Val)); ok && k >= 0 {
					return k, true
				}
			}
		}
	case "%":
		if k, ok := isInt(plain(t.Args[1])); ok && k > 0 {
			return k - 1, true
		}
	case "+":
		a, ok1 := maxOf(t.Args[0])
		b, ok2 := maxOf(t.Args[1])
		return a + b, ok1 && ok2
	}
	return 0, false
}

// known values of the capacity, and of the length, of a table.
func (q *boundsRun) seen(s *State, h *Term, parts ...string) []*Term {
	var res []*Term
	have := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || have[t] {
			return
		}
		have[t] = true
		for _, p := range parts {
			if q.part(t, p) == h {
				res = append(res, t)
			}
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	for f := range s.facts {
		walk(f.a)
		walk(f.b)
	}
	return res
}

func (q *boundsRun) fail(s *State, i ssa.Instruction, rule, what string, vals ...*Term) {
	for _, v := range vals {
		if symIs(v, "param:") {
			q.params = true
		}
	}
	q.bad = append(q.bad, Violation{q.b.P.instrPos(i), fname(i.Parent()), rule, what, s.path(14)})
}

// symIs: the value is, or is made of, an unknown of a kind.
func symIs(t *Term, kind string) bool {
	if t == nil {
		return false
	}
	if t.Op == OSym && strings.HasPrefix(t.Aux, kind) {
		return true
	}
	for _, a := range t.Args {
		if symIs(a, kind) {
			return true
		}
	}
	return false
}

// small: not more than a length or capacity the table has had.
func (q *boundsRun) small(s *State, h, n *Term) bool {
	if k, ok := isInt(n); ok && k == 0 {
		return true
	}
	for _, c := range q.seen(s, h, "cap", "len") {
		if q.le(s, n, c) {
			return true
		}
	}
	return q.part(n, "len") == h || q.part(n, "cap") == h
}

func (q *boundsRun) size(s *State, h, old, new *Term, i ssa.Instruction) {
	x := q.x
	q.n++
	for _, t := range toks(s, "lennow") {
		if t.a == h {
			delete(s.toks, t)
		}
	}
	if q.small(s, h, new) {
		s.toks[Tok{"lennow", h, new}] = struct{}{}
		return
	}
	if x.u.evalEq(s, new, x.u.int(0)) == 1 || q.part(new, "len") == h || q.part(new, "cap") == h {
		return
	}
	if old != nil && (old == new || x.plus(s, old, -1, new) || x.plus(s, plain(old), -1, plain(new))) {
		return
	}
	if m, ok := maxOf(new); ok && h.Op == OField && m <= q.b.minCap[h.Aux] {
		return
	}
	for _, t := range toks(s, "capset") {
		if t.a == h && q.le(s, new, t.b) {
			delete(s.toks, t)
			s.toks[Tok{"lennow", h, new}] = struct{}{}
			return
		}
	}
	s.toks[Tok{"lenset:" + q.b.P.instrPos(i), h, new}] = struct{}{}
}

func (q *boundsRun) capacity(s *State, h, new *Term, i ssa.Instruction) {
	q.n++
	for _, t := range pending(s, "capgrow:") {
		if t.a == h {
			delete(s.toks, t)
		}
	}
	if !q.small(s, h, new) && !q.moved(s, h) {
		s.toks[Tok{"capgrow:" + q.b.P.instrPos(i), h, new}] = struct{}{}
	}
	for _, t := range append(pending(s, "lenset:"), toks(s, "lennow")...) {
		if t.a != h {
			continue
		}
		if !q.le(s, t.b, new) {
			q.fail(s, i, ruleFits, "the table gets a capacity that is not known to be as large as its length", t.b, new)
		}
		delete(s.toks, t)
		s.toks[Tok{"lennow", h, t.b}] = struct{}{}
		return
	}
	s.toks[Tok{"capset", h, new}] = struct{}{}
}

// moved: the table has got other memory on this path.
func (q *boundsRun) moved(s *State, h *Term) bool {
	for _, t := range toks(s, "moved") {
		if t.a == h {
			return true
		}
	}
	return false
}

func (q *boundsRun) move(s *State, h *Term) {
	for _, t := range pending(s, "capgrow:") {
		if t.a == h {
			delete(s.toks, t)
		}
	}
	s.toks[Tok{"moved", h, h}] = struct{}{}
}

func (b *tableBounds) run(root *ssa.Function) *boundsRun {
	P, eff := b.P, b.eff
	q := &boundsRun{b: b, down: map[*ssa.Phi]Violation{}, under: map[*ssa.Phi]bool{}}
	to := eff.reachesInstr(func(i ssa.Instruction) bool {
		return i.Parent().Pkg == P.root && b.touches(i)
	})
	cl := &Client{volatile: true, redoLoops: true}
	cl.steady = func(addr *Term) bool {
		return hdrOf(addr, "len") == nil && hdrOf(addr, "cap") == nil && hdrOf(addr, "data") == nil
	}
	cl.interesting = func(x *Exec, i ssa.Instruction) bool { return b.touches(i) }
	cl.noInline = func(g *ssa.Function) bool {
		if smallCell(g) {
			return false
		}
		if b.alone[g] && !b.lifted[g] && g != root {
			return true // judged on its own
		}
		return !to[g] || g.Pkg != P.root
	}
	cl.keepParts = func(t *Term) bool { return t.Op == OBin && t.Aux == "<" || t.Op == OUn && t.Aux == "!" }
	hdr := func(s *State, addr *Term) *Term {
		for _, p := range []string{"len", "cap"} {
			if h := hdrOf(addr, p); h != nil {
				return h
			}
		}
		return nil
	}
	private := func(s *State, h *Term) bool {
		r := rootOf(h)
		return r.Op == OAlloc && s.fresh[r]
	}
	change := func(s *State, addr, old, new *Term, i ssa.Instruction) {
		h := hdr(s, addr)
		if h == nil || private(s, h) {
			return
		}
		if hdrOf(addr, "len") != nil {
			q.size(s, h, old, new, i)
		} else if b.pool.isPoolHdr(h) || h.Op != OField {
			q.capacity(s, h, new, i)
		}
	}
	mine := func(i ssa.Instruction, ctx *Ctx) (ssa.Instruction, bool) {
		for smallCell(i.Parent()) && ctx != nil && ctx.site != nil {
			i, ctx = ctx.site, ctx.parent
		}
		f := i.Parent()
		return i, f == root || !b.alone[f] || b.lifted[f]
	}
	cl.onStore = func(x *Exec, s *State, addr, v *Term, i ssa.Instruction, ctx *Ctx) {
		st, ok := i.(*ssa.Store)
		if !ok || v == nil {
			return
		}
		if h := hdrOf(addr, "data"); h != nil {
			q.move(s, h)
		}
		if _, isSlice := st.Val.Type().Underlying().(*types.Slice); isSlice {
			q.move(s, addr)
			return // checked by the language
		}
		if at, ok := mine(i, ctx); ok && b.mirror[addrKey(st.Addr)] {
			change(s, addr, nil, v, at)
		}
	}
	cl.onInstr = func(x *Exec, s *State, i ssa.Instruction, ctx *Ctx) {
		y, ok := i.(*ssa.MakeSlice)
		if !ok {
			return
		}
		l, c := plain(x.val(s, ctx, y.Len)), plain(x.val(s, ctx, y.Cap))
		s.toks[Tok{"fit", l, c}] = struct{}{}
	}
	cl.onBackEdge = func(x *Exec, s *State, ctx *Ctx, from, to *ssa.BasicBlock, phis map[*ssa.Phi]*Term) {
		for p := range phis {
			for k, pred := range to.Preds {
				if d, ok := stripConv(p.Edges[k]).(*ssa.BinOp); ok && pred == from && countsDown(d, p) && !q.positive(s, s.env[p]) {
					q.under[p] = true
				}
			}
		}
		for _, t := range toks(s, "fit", "capset", "lennow", "moved") {
			if t.kind != "fit" || symIs(t.a, "old:") || symIs(t.b, "old:") {
				delete(s.toks, t)
			}
		}
	}
	cl.onCall = func(x *Exec, s *State, c *Call) ([]*Outcome, bool) {
		if bi, ok := c.common.Value.(*ssa.Builtin); ok && c.method == nil {
			if _, ok := mine(c.instr, c.ctx); ok && bi.Name() == "Add" {
				q.step(s, c)
			}
			return nil, false
		}
		if c.fn == nil || len(c.args) < 2 {
			return nil, false
		}
		pkg, _, name := calleeName(c.fn)
		if h := hdrOf(c.args[0], "data"); pkg == "sync/atomic" && h != nil && !strings.HasPrefix(name, "Load") {
			q.move(s, h)
		}
		if pkg != "sync/atomic" || hdr(s, c.args[0]) == nil {
			return nil, false
		}
		at, ok := mine(c.instr, c.ctx)
		if !ok {
			return nil, false
		}
		switch {
		case strings.HasPrefix(name, "CompareAndSwap"):
			change(s, c.args[0], plain(c.args[1]), plain(c.args[2]), at)
		case strings.HasPrefix(name, "Store"), strings.HasPrefix(name, "Swap"):
			change(s, c.args[0], nil, plain(c.args[1]), at)
		case strings.HasPrefix(name, "Add") && !private(s, c.args[0]):
			if k, ok := isInt(plain(c.args[1])); !ok || k > 0 {
				q.fail(s, at, ruleFits, "the length is raised by adding to it, whatever it is by then")
			}
		}
		return nil, false
	}
	x := newExec(P, eff, cl)
	q.x = x
	for _, o := range x.runRoot(root) {
		for _, t := range pending(o.st, "capgrow:") {
			q.bad = append(q.bad, Violation{strings.TrimPrefix(t.kind, "capgrow:"), fname(root), ruleFits,
				"the capacity is set to a value that is not known to be at most what the table has: " + t.b.String(), o.st.path(14)})
			if symIs(t.b, "param:") {
				q.params = true
			}
		}
		for _, t := range pending(o.st, "lenset:") {
			q.bad = append(q.bad, Violation{strings.TrimPrefix(t.kind, "lenset:"), fname(root), ruleFits,
				"the number of used slots is set to a value that is not known to be at most the capacity: " + t.b.String(), o.st.path(14)})
			if symIs(t.b, "param:") {
				q.params = true
			}
		}
	}
	for _, p := range sortedPhis(q.down) {
		if q.under[p] {
			q.bad = append(q.bad, q.down[p])
		}
	}
	if dbg {
		for _, v := range q.bad {
			fmt.Println("BOUNDS", fname(root), q.params, v.Where, v.What)
		}
	}
	return q
}

// step judges an address computed from an element and an index.
func (q *boundsRun) step(s *State, c *Call) {
	p, n := c.args[0], plain(c.args[1])
	if k, ok := isInt(n); ok {
		if k >= 0 {
			return // an offset inside a struct, see C11
		}
		q.n++
		if q.counted(s, c) {
			return
		}
		// a step back: not from the first element
		for _, f := range sortedFacts(s) {
			if f.op == '=' && f.neg && (plain(f.a) == plain(p) || plain(f.b) == plain(p)) {
				o := f.a
				if plain(f.a) == plain(p) {
					o = f.b
				}
				if q.part(o, "data") != nil {
					return
				}
			}
		}
		q.fail(s, c.instr, ruleInside, "steps back from an element that may be the first one")
		return
	}
	idx, size, _ := splitIndex(n)
	if size == 0 {
		return
	}
	q.n++
	if k, ok := isInt(plain(idx)); ok && k == 0 {
		return
	}
	h := q.part(p, "data")
	if h == nil {
		h = q.partOf(s, p)
	}
	if h == nil {
		q.fail(s, c.instr, ruleInside, "an element is taken from what is not known to be a table", p)
		return
	}
	for _, l := range q.seen(s, h, "len", "cap") {
		if q.lt(s, idx, l) {
			return
		}
	}
	if ok, phi := q.below(s, c.ctx, indexOf(c.common.Args[1]), h, 0); ok {
		if phi != nil {
			q.down[phi] = Violation{q.b.P.instrPos(c.instr), fname(c.instr.Parent()), ruleInside, "the index is counted down and may get below the first slot", s.path(14)}
		}
		return
	}
	q.fail(s, c.instr, ruleInside, "the index is not known to be below the length or the capacity of the table", idx)
}

func countsDown(d *ssa.BinOp, p *ssa.Phi) bool {
	c, ok := d.Y.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int || stripConv(d.X) != ssa.Value(p) {
		return false
	}
	return d.Op == token.SUB && c.Int64() > 0 || d.Op == token.ADD && c.Int64() < 0
}

// indexOf: the index in index*size.
func indexOf(v ssa.Value) ssa.Value {
	if m, ok := stripConv(v).(*ssa.BinOp); ok && m.Op == token.MUL {
		if _, ok := m.Y.(*ssa.Const); ok {
			return stripConv(m.X)
		}
		return stripConv(m.Y)
	}
	return nil
}

// below: an index that is only counted down from one inside the table. The counter is
// given back if it has to be known where it stops.
func (q *boundsRun) below(s *State, ctx *Ctx, v ssa.Value, h *Term, depth int) (bool, *ssa.Phi) {
	if v == nil || depth > 4 {
		return false, nil
	}
	if t := plain(q.x.val(s, ctx, v)); t != nil {
		for _, l := range q.seen(s, h, "len", "cap") {
			if q.lt(s, t, l) {
				return true, nil
			}
		}
	}
	if depth > 0 && q.compared(v) {
		return true, nil
	}
	switch y := v.(type) {
	case *ssa.BinOp:
		p, ok := stripConv(y.X).(*ssa.Phi)
		if !ok || !countsDown(y, p) || !q.positive(s, plain(q.x.val(s, ctx, p))) {
			return false, nil
		}
		ok, _ = q.below(s, ctx, p, h, depth+1)
		return ok, nil
	case *ssa.Phi:
		found := false
		for _, e := range y.Edges {
			e = stripConv(e)
			if d, ok := e.(*ssa.BinOp); ok && countsDown(d, y) {
				found = true
				continue
			}
			if e == ssa.Value(y) {
				continue
			}
			if ok, _ := q.below(s, ctx, e, h, depth+1); !ok {
				return false, nil
			}
		}
		return found, y
	}
	return false, nil
}

// compared: where a counter starts is compared with a length or capacity before the loop.
// (What is known of it at that point is gone inside of the loop.)
func (q *boundsRun) compared(v ssa.Value) bool {
	i, ok := v.(ssa.Instruction)
	f := v.Parent()
	if ok {
		f = i.Parent()
	}
	if f == nil {
		return false
	}
	size := func(o ssa.Value) bool {
		c, ok := stripConv(o).(*ssa.Call)
		if !ok {
			return false
		}
		for _, a := range c.Call.Args {
			if q.b.mirror[addrKey(a)] {
				return true
			}
		}
		g := c.Call.StaticCallee()
		return g != nil && len(c.Call.Args) == 1 && q.b.toSize(g)
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			c, ok := i.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch c.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ:
				if stripConv(c.X) == v && size(c.Y) || stripConv(c.Y) == v && size(c.X) {
					return true
				}
			}
		}
	}
	return false
}

// counted: a step back from an element whose index is counted down along with it, and is
// not 0 yet.
func (q *boundsRun) counted(s *State, c *Call) bool {
	p, ok := stripConv(c.common.Args[0]).(*ssa.Phi)
	if !ok {
		return false
	}
	for _, i := range p.Block().Instrs {
		n, ok := i.(*ssa.Phi)
		if !ok || n == p {
			continue
		}
		if b, ok := n.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
			continue
		}
		down := false
		for k, e := range n.Edges {
			e, pe := stripConv(e), stripConv(p.Edges[k])
			if d, ok := e.(*ssa.BinOp); ok && countsDown(d, n) {
				if y := d.Y.(*ssa.Const).Int64(); pe != c.instr.(ssa.Value) || y != 1 && y != -1 {
					down = false
					break
				}
				down = true
				continue
			}
			a, ok := pe.(*ssa.Call)
			if !ok || len(a.Call.Args) != 2 || indexOf(a.Call.Args[1]) != e {
				down = false
				break
			}
		}
		if down && q.positive(s, plain(q.x.val(s, c.ctx, n))) {
			return true
		}
	}
	return false
}

func sortedPhis(m map[*ssa.Phi]Violation) []*ssa.Phi {
	var res []*ssa.Phi
	for p := range m {
		res = append(res, p)
	}
	sort.Slice(res, func(i, j int) bool { return m[res[i]].Where < m[res[j]].Where })
	return res
}

// partOf: the header of a private copy the data was read from.
func (q *boundsRun) partOf(s *State, p *Term) *Term {
	for a, v := range s.mem {
		if v == p {
			if h := hdrOf(a, "data"); h != nil {
				return h
			}
		}
	}
	return nil
}

func sortedFacts(s *State) []Fact {
	var res []Fact
	for f := range s.facts {
		res = append(res, f)
	}
	return res
}

func init() {
	register("C27", "On every path of every function that changes the number of used slots or the capacity of a table or computes the address of a slot, whatever other goroutines do between two reads: a new length is at most a capacity read before or set with it, and an index is below a length or capacity read from the same table.",
		func(P *Prog, eff *Effects, r *Report) {
			pr := newPoolRules(P, eff, r)
			if pr == nil {
				return
			}
			b := &tableBounds{P: P, eff: eff, pool: pr, mirror: map[string]bool{}, alone: map[*ssa.Function]bool{}, lifted: map[*ssa.Function]bool{}, minCap: map[string]int64{}}
			b.mirrors()
			b.caps()
			if len(b.mirror) == 0 {
				r.violate("-", "-", "anchor", "no struct is laid over a slice", "")
				return
			}
			reach := map[*ssa.Function]bool{}
			for _, f := range P.opRoots() {
				for g := range eff.reachable(f) {
					reach[g] = true
				}
			}
			todo := map[*ssa.Function]bool{}
			for _, f := range sortedFns(reach) {
				if f.Pkg != P.root || smallCell(f) {
					continue
				}
				for _, bl := range f.Blocks {
					for _, i := range bl.Instrs {
						a, ok := cellMutation(i)
						if ok {
							_, own := addrRoot(a).(*ssa.Alloc)
							ok = !own // a copy belongs to who asks for it
						}
						if ok && b.mirror[addrKey(a)] || isElemStep(i) {
							todo[f] = true
						}
					}
				}
			}
			for f := range todo {
				b.alone[f] = true
			}
			if dbg {
				for _, f := range sortedFns(todo) {
					fmt.Println("TODO", fname(f))
				}
			}
			total := 0
			judged := map[*ssa.Function]bool{}
			for round := 0; round < 4 && len(todo) > 0; round++ {
				next := map[*ssa.Function]bool{}
				for _, f := range sortedFns(todo) {
					if judged[f] {
						continue
					}
					judged[f], b.alone[f] = true, true
					q := b.run(f)
					total += q.n
					if len(q.bad) == 0 {
						r.obligation(fmt.Sprintf("%s: %d changes and accesses of tables", fname(f), q.n), true)
						q.x.finish(r)
						continue
					}
					callers, _ := eff.callersOf(f)
					up := map[*ssa.Function]bool{}
					for _, c := range callers {
						if reach[c] && c != f && c.Pkg == P.root {
							up[c] = true
						}
					}
					if q.params && len(up) > 0 && round < 3 {
						b.lifted[f] = true
						for c := range up {
							next[c] = true
							delete(judged, c)
						}
						r.obligation(fmt.Sprintf("%s is judged with its callers", fname(f)), true)
						continue
					}
					q.x.finish(r)
					have := map[string]bool{}
					for _, v := range q.bad {
						if k := v.Where + v.Rule + v.What; !have[k] {
							have[k] = true
							r.violate(v.Where, v.Func, v.Rule, v.What, v.Path)
						}
					}
					r.obligation(fname(f), false)
				}
				todo = next
			}
			r.need("changes of tables and accesses to their slots", total)
		})
}

// caps finds the tables that are always made with the same capacity.
func (b *tableBounds) caps() {
	for _, f := range b.P.fns {
		for _, bl := range f.Blocks {
			for _, i := range bl.Instrs {
				st, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				if _, ok := st.Val.Type().Underlying().(*types.Slice); !ok {
					continue
				}
				key := addrKey(st.Addr)
				n := madeCap(st.Val, key, map[ssa.Value]bool{})
				if old, ok := b.minCap[key]; !ok || n < old {
					b.minCap[key] = n
				}
			}
		}
	}
}

// pending: changes not known to fit yet.
func pending(s *State, kind string) []Tok {
	var res []Tok
	for t := range s.toks {
		if strings.HasPrefix(t.kind, kind) {
			res = append(res, t)
		}
	}
	sort.Slice(res, func(i, j int) bool {
		return res[i].kind < res[j].kind || res[i].kind == res[j].kind && res[i].b.ID < res[j].b.ID
	})
	return res
}

// madeCap: the smallest capacity of the slices a value can be. Parts of what the field
// holds already do not count.
func madeCap(v ssa.Value, key string, seen map[ssa.Value]bool) int64 {
	const any = 1 << 62
	v = stripConv(v)
	if seen[v] {
		return any
	}
	seen[v] = true
	switch y := v.(type) {
	case *ssa.MakeSlice:
		if c, ok := y.Cap.(*ssa.Const); ok {
			return c.Int64()
		}
	case *ssa.Phi:
		n := int64(any)
		for _, e := range y.Edges {
			n = min(n, madeCap(e, key, seen))
		}
		return n
	case *ssa.UnOp:
		if y.Op == token.MUL && addrKey(y.X) == key {
			return any
		}
	case *ssa.Slice:
		if y.Low != nil || y.Max != nil {
			return 0
		}
		if a, ok := y.X.(*ssa.Alloc); ok {
			if at, ok := deref(a.Type()).Underlying().(*types.Array); ok {
				return at.Len()
			}
		}
		return madeCap(y.X, key, seen)
	}
	return 0
}
