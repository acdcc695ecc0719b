package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	ruleUnlocked = "entries of a pool are modified under the lock of the pool"
	ruleStale    = "entries of a pool are modified through a pointer that was looked up under the lock"
	ruleOther    = "the lock that is held belongs to the bucket whose pool contains the entry"
	ruleBase     = "the bucket of a looked up entry is the base bucket, whose pool contains the entry"
	tokFrom      = "from"  // (entry, bucket): looked up in the pool of the bucket
	tokUnder     = "under" // the same, while a lock was held
	auxBase      = "base"
)

// lookupSrc: where a value that was looked up comes from.
type lookupSrc struct {
	fn   *ssa.Function
	args []*Term
}

// poolLocks follows entries and the locks of the pools that contain them.
type poolLocks struct {
	P      *Prog
	eff    *Effects
	bucket *types.Named
	lock   string // key of the lock field
	flag   string // key of the field that selects embedded pools
	base   map[*ssa.Function]bool
	reach  map[*ssa.Function]bool
	src    map[*Univ]map[*Term][]lookupSrc
	based  map[*Univ]map[*Term]bool
	pairs  map[*ssa.Function]bool // contracts that are used
	single map[*ssa.Function]bool
	bad    []Violation
	events int
	looks  int
}

func isEntryType(P *Prog, t types.Type) bool {
	return isPtrLike(t) && P.isItemPtr(t) || typeIs(t, "skiplistmap", "MapItem") || typeIs(t, "skiplistmap", "HMapEntry")
}

func (q *poolLocks) isBucket(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n := namedOf(p.Elem())
	return n != nil && n.Obj() == q.bucket.Obj()
}

// anchors finds the type of buckets, the lock of their pools, the option for
// embedded pools and the function that leads to the base bucket.
func (q *poolLocks) anchors(r *Report) bool {
	sc := q.P.root.Pkg.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		st, ok := tn.Type().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		pool, lock := false, ""
		for k := 0; k < st.NumFields(); k++ {
			f := st.Field(k)
			if holdsSlots(f.Type()) {
				pool = true
			}
			if isLocker(types.NewPointer(f.Type())) {
				lock = n + "." + f.Name()
			}
		}
		if pool && lock != "" {
			q.bucket, _ = tn.Type().(*types.Named)
			q.lock = lock
		}
	}
	if q.bucket == nil {
		r.violate("-", "bucket", "anchor", "no structure with a pool and its lock", "")
		return false
	}
	opt := q.P.root.Func("UseEmbeddedPool")
	if opt == nil {
		r.violate("-", "UseEmbeddedPool", "anchor", "option not found", "")
		return false
	}
	mt := q.P.root.Type("Map").Type().Underlying().(*types.Struct)
	for _, g := range append([]*ssa.Function{opt}, opt.AnonFuncs...) {
		for k := 0; k < mt.NumFields(); k++ {
			f := mt.Field(k)
			if b, ok := f.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool && q.eff.trans[g]["Map."+f.Name()] {
				q.flag = "Map." + f.Name()
			}
		}
	}
	if q.flag == "" {
		r.violate(q.P.pos(opt.Pos()), fname(opt), "anchor", "the option sets no flag of the map", "")
		return false
	}
	for _, f := range q.P.fns {
		if q.isBase(f) {
			q.base[f] = true
		}
	}
	r.need("functions that lead to the base bucket", len(q.base))
	return true
}

// isBase: f follows one reference between buckets to its end.
func (q *poolLocks) isBase(f *ssa.Function) bool {
	if len(f.Params) != 1 || f.Signature.Results().Len() != 1 || !q.isBucket(f.Params[0].Type()) || !q.isBucket(f.Signature.Results().At(0).Type()) {
		return false
	}
	key := ""
	end := false
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			switch t := i.(type) {
			case *ssa.FieldAddr:
				if !q.isBucket(deref(t.Type())) || key != "" && key != addrKey(t) {
					return false
				}
				key = addrKey(t)
			case *ssa.Call:
				if t.Call.StaticCallee() != f {
					return false
				}
			case *ssa.Store, *ssa.MapUpdate, *ssa.Go, *ssa.Defer, *ssa.Convert:
				return false
			case *ssa.BinOp:
				end = end || t.Op == token.EQL || t.Op == token.NEQ
			}
		}
	}
	if key == "" || !end {
		return false
	}
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !chainEnd(f, r.Results[0], b, nil, map[*ssa.Phi]bool{}) {
			return false
		}
	}
	return true
}

// chainEnd: v is the result of f itself or a value whose reference is known to
// be nil in block b (entered from block from, if that is given).
func chainEnd(f *ssa.Function, v ssa.Value, b, from *ssa.BasicBlock, seen map[*ssa.Phi]bool) bool {
	if c, ok := v.(*ssa.Call); ok {
		return c.Call.StaticCallee() == f
	}
	if refIsNil(v, b, from) {
		return true
	}
	p, ok := v.(*ssa.Phi)
	if !ok || seen[p] {
		return false
	}
	seen[p] = true
	for k, e := range p.Edges {
		if !chainEnd(f, e, p.Block(), p.Block().Preds[k], seen) {
			return false
		}
	}
	return true
}

// refIsNil: a branch before b was taken because the reference of v is nil.
func refIsNil(v ssa.Value, b, from *ssa.BasicBlock) bool {
	isRef := func(w, v ssa.Value) bool {
		l, ok := w.(*ssa.UnOp)
		if !ok || l.Op != token.MUL {
			return false
		}
		fa, ok := l.X.(*ssa.FieldAddr)
		return ok && fa.X == v
	}
	test := func(d, succ *ssa.BasicBlock) bool {
		i, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok || d.Succs[0] == d.Succs[1] {
			return false
		}
		c, ok := i.Cond.(*ssa.BinOp)
		if !ok || !(c.Op == token.EQL && d.Succs[0] == succ || c.Op == token.NEQ && d.Succs[1] == succ) {
			return false
		}
		w := c.X
		if isNilConst(w) {
			w = c.Y
		} else if !isNilConst(c.Y) {
			return false
		}
		if isRef(w, v) {
			return true
		}
		p, ok1 := w.(*ssa.Phi)
		q, ok2 := v.(*ssa.Phi)
		if !ok1 || !ok2 || p.Block() != q.Block() {
			return false
		}
		for k := range p.Edges {
			if !isRef(p.Edges[k], q.Edges[k]) {
				return false
			}
		}
		return true
	}
	if from != nil {
		if test(from, b) {
			return true
		}
		b = from
	}
	for d := b; d.Idom() != nil; d = d.Idom() {
		if len(d.Preds) == 1 && test(d.Preds[0], d) {
			return true
		}
	}
	return false
}

func (q *poolLocks) touch(i ssa.Instruction) bool {
	ci, ok := i.(ssa.CallInstruction)
	if !ok {
		return false
	}
	if q.eff.isItemCall(ci, "SetValue") || q.eff.isItemCall(ci, "Delete") {
		return true
	}
	if k, mu := lockOp(ci.Common()); k != "" {
		mu = stripConv(mu)
		if m, ok := mu.(*ssa.MakeInterface); ok {
			mu = stripConv(m.X)
		}
		if fa, ok := mu.(*ssa.FieldAddr); ok {
			return addrKey(fa) == q.lock
		}
		_, glob := mu.(*ssa.Global)
		return !glob
	}
	return isDynCall(i) && isUnlocker(ci.Common().Value.Type())
}

// isLookup: a function that reads the map and gives an entry, a bucket or a pool.
func (q *poolLocks) isLookup(f *ssa.Function) bool {
	if f == nil || !q.P.inMod[f] || q.reach[f] {
		return false
	}
	rs := f.Signature.Results()
	for k := 0; k < rs.Len(); k++ {
		if t := rs.At(k).Type(); isEntryType(q.P, t) || q.isBucket(t) || holdsSlots(t) {
			return true
		}
	}
	return false
}

func (q *poolLocks) baseOf(x *Exec, b *Term) *Term {
	if b.Op == OPCall && b.Aux == auxBase || q.based[x.u][b] {
		return b
	}
	return x.u.mk(OPCall, auxBase, types.NewPointer(q.bucket), b)
}

// buckets finds the nearest buckets a value was read from.
func (q *poolLocks) buckets(x *Exec, t *Term, seen map[*Term]bool) (r []*Term) {
	if t == nil || seen[t] {
		return
	}
	seen[t] = true
	if t.Typ != nil && q.isBucket(t.Typ) {
		return []*Term{t}
	}
	for _, s := range q.src[x.u][t] {
		for _, a := range s.args {
			r = append(r, q.buckets(x, a, seen)...)
		}
	}
	for _, a := range t.Args {
		r = append(r, q.buckets(x, a, seen)...)
	}
	return
}

func (q *poolLocks) client(root *ssa.Function) *Client {
	cl := &Client{volatile: true}
	cl.interesting = func(x *Exec, i ssa.Instruction) bool { return q.touch(i) }
	cl.noInline = func(g *ssa.Function) bool {
		if !q.reach[g] {
			return true
		}
		// functions that take a slot under a lock they are given
		for k, p := range g.Params {
			if isLocker(p.Type()) && !(k == 0 && g.Signature.Recv() != nil) {
				return true
			}
		}
		return false
	}
	cl.constCell = func(x *Exec, addr *Term) *Term {
		if addr.Op == OField && addr.Aux == q.flag {
			return x.u.True
		}
		return nil
	}
	cl.keepRet = func(t *Term) bool {
		return t.Op == ONil || t.Typ != nil && (isLocker(t.Typ) || isUnlocker(t.Typ))
	}
	held := func(s *State) []Tok { return toks(s, tokWrite) }
	note := func(x *Exec, s *State, e, b *Term) {
		s.toks[Tok{tokFrom, e, b}] = struct{}{}
		if len(held(s)) > 0 {
			s.toks[Tok{tokUnder, e, b}] = struct{}{}
		}
	}
	violate := func(s *State, i ssa.Instruction, rule, what string) {
		q.bad = append(q.bad, Violation{q.P.instrPos(i), fname(i.Parent()), rule, what + ", called by " + fname(root), s.path(20)})
	}
	cl.onLock = func(x *Exec, s *State, kind string, mu *Term, c *Call) ([]*Outcome, bool) {
		mu = lockTerm(mu)
		if mu == nil || mu.Op == OField && mu.Aux != q.lock || mu.Op == OGlobal {
			return nil, false
		}
		at := q.P.instrPos(c.instr) + " " + kind
		switch kind {
		case "Lock":
			s.toks[Tok{tokWrite, mu, nil}] = struct{}{}
			s.note(at)
			return []*Outcome{{s, nil}}, true
		case "TryLock":
			no := s.clone()
			no.note(at + " failed")
			s.toks[Tok{tokWrite, mu, nil}] = struct{}{}
			s.note(at)
			return []*Outcome{{no, []*Term{x.u.Fals}}, {s, []*Term{x.u.True}}}, true
		case "Unlock":
			for t := range s.toks {
				if t.kind == tokUnder || t.kind == tokWrite && (t.a == mu || x.u.evalEq(s, t.a, mu) == 1) {
					delete(s.toks, t)
				}
			}
			s.note(at)
			return []*Outcome{{s, nil}}, true
		}
		return nil, false
	}
	cl.onCall = func(x *Exec, s *State, c *Call) ([]*Outcome, bool) {
		if m := x.itemMethod(c); m == "SetValue" || m == "Delete" {
			q.events++
			q.modify(x, s, c, root, m, violate)
			return nil, false
		}
		if c.fn == nil {
			return nil, false
		}
		if q.base[c.fn] && len(c.args) == 1 {
			return []*Outcome{{s, []*Term{q.baseOf(x, c.args[0])}}}, true
		}
		if cl.noInline(c.fn) && q.reach[c.fn] {
			q.slotTaken(x, s, c, violate)
		}
		if !q.isLookup(c.fn) {
			return nil, false
		}
		q.looks++
		rets := x.freshRets(s, c, "found")
		if q.src[x.u] == nil {
			q.src[x.u], q.based[x.u] = map[*Term][]lookupSrc{}, map[*Term]bool{}
		}
		var bucket *Term
		nb := 0
		rs := c.fn.Signature.Results()
		for k := 0; k < rs.Len(); k++ {
			if q.isBucket(rs.At(k).Type()) {
				bucket = rets[k]
				nb++
			}
		}
		for k, ret := range rets {
			t := rs.At(k).Type()
			if !isEntryType(q.P, t) && !q.isBucket(t) && !holdsSlots(t) {
				continue
			}
			known := false
			for _, o := range q.src[x.u][ret] {
				same := len(o.args) == len(c.args)
				for j := range o.args {
					same = same && o.args[j] == c.args[j]
				}
				known = known || same
			}
			if !known {
				q.src[x.u][ret] = append(q.src[x.u][ret], lookupSrc{c.fn, c.args})
			}
			if holdsSlots(t) && !isEntryType(q.P, t) {
				// the bucket this pool was read from
				for o := range s.toks {
					if o.kind == "pool of" && o.a == ret {
						delete(s.toks, o)
					}
				}
				var bs []*Term
				seen := map[*Term]bool{}
				for _, a := range c.args {
					bs = append(bs, q.buckets(x, a, seen)...)
				}
				if len(bs) == 1 {
					s.toks[Tok{"pool of", ret, bs[0]}] = struct{}{}
				}
			}
			if !isEntryType(q.P, t) {
				continue
			}
			if nb == 1 {
				q.pairs[c.fn] = true
				q.based[x.u][bucket] = true
				note(x, s, ret, bucket)
				continue
			}
			var bs []*Term
			seen := map[*Term]bool{}
			for _, a := range c.args {
				bs = append(bs, q.buckets(x, a, seen)...)
			}
			if len(bs) == 1 {
				q.single[c.fn] = true
				note(x, s, ret, q.baseOf(x, bs[0]))
			} else {
				note(x, s, ret, nil)
			}
		}
		return []*Outcome{{s, rets}}, true
	}
	cl.onRecursion = func(x *Exec, s *State, c *Call) ([]*Outcome, bool) {
		return x.opaqueModule(s, c), true
	}
	return cl
}

// modify judges a call that modifies an entry.
func (q *poolLocks) modify(x *Exec, s *State, c *Call, root *ssa.Function, m string, violate func(s *State, i ssa.Instruction, rule, what string)) {
	u := x.u
	e := entryTerm(c.args[0])
	var from, under []Tok
	for _, t := range toks(s, tokFrom, tokUnder) {
		if t.a == e || entryTerm(t.a) == e || u.evalEq(s, t.a, e) == 1 {
			if t.kind == tokFrom {
				from = append(from, t)
			} else {
				under = append(under, t)
			}
		}
	}
	if len(from) == 0 && !(root.Name() == "Delete" || root.Name() == "Purge") {
		return // an entry that is not in the map yet
	}
	locks := toks(s, tokWrite)
	what := fmt.Sprintf("%s calls %s of an entry", fname(c.instr.Parent()), m)
	switch {
	case len(locks) == 0:
		violate(s, c.instr, ruleUnlocked, what+" and holds no lock")
		return
	case len(under) == 0:
		violate(s, c.instr, ruleStale, what+" that was looked up before the lock was taken")
		return
	}
	for _, t := range under {
		if t.b == nil {
			continue
		}
		b := q.baseOf(x, t.b)
		for _, l := range locks {
			if l.a.Op == OField && (l.a.Args[0] == b || u.evalEq(s, l.a.Args[0], b) == 1) {
				return
			}
		}
	}
	violate(s, c.instr, ruleOther, what+", and the lock that is held is not known to belong to the bucket it was found in")
}

// slotTaken: a function that takes a slot of a pool gets the lock of the pool.
func (q *poolLocks) slotTaken(x *Exec, s *State, c *Call, violate func(s *State, i ssa.Instruction, rule, what string)) {
	var pool, mu *Term
	for k, p := range c.fn.Params {
		if k >= len(c.args) {
			break
		}
		if holdsSlots(p.Type()) {
			pool = c.args[k]
		} else if isLocker(p.Type()) {
			mu = lockTerm(c.args[k])
		}
	}
	if pool == nil || mu == nil || x.u.evalEq(s, mu, x.u.Nil) == 1 {
		return
	}
	bs := q.buckets(x, pool, map[*Term]bool{})
	for t := range s.toks {
		if t.kind == "pool of" && t.a == pool {
			bs = []*Term{t.b}
		}
	}
	q.events++
	if mu.Op == OField && len(bs) == 1 {
		b := q.baseOf(x, bs[0])
		if mu.Args[0] == b || x.u.evalEq(s, mu.Args[0], b) == 1 {
			return
		}
	}
	violate(s, c.instr, ruleOther, fmt.Sprintf("%s takes a slot of a pool with a lock that is not known to belong to the bucket of the pool", fname(c.instr.Parent())))
}

// pair judges a function that gives an entry and its bucket.
func (q *poolLocks) pair(f *ssa.Function) (exits int, fail string) {
	x := newExec(q.P, q.eff, q.client(f))
	st := newState()
	var args []*Term
	for _, p := range f.Params {
		a := x.u.sym("param:"+fname(f)+":"+p.Name(), p.Type(), p.Name())
		st.born[a] = true
		args = append(args, a)
	}
	rs := f.Signature.Results()
	ei, bi := -1, -1
	for k := 0; k < rs.Len(); k++ {
		if isEntryType(q.P, rs.At(k).Type()) {
			ei = k
		} else if q.isBucket(rs.At(k).Type()) {
			bi = k
		}
	}
	for _, o := range x.run(f, args, nil, st, x.ctx(nil, nil, f)) {
		exits++
		e, b := entryTerm(o.rets[ei]), o.rets[bi]
		if x.u.evalEq(o.st, o.rets[ei], x.u.Nil) == 1 || e == x.u.Nil {
			continue
		}
		ok := false
		for _, t := range toks(o.st, tokFrom) {
			if t.b != nil && (t.a == e || entryTerm(t.a) == e) {
				base := q.baseOf(x, t.b)
				ok = ok || base == b || x.u.evalEq(o.st, base, b) == 1
			}
		}
		if !ok {
			q.bad = append(q.bad, Violation{q.P.pos(f.Pos()), fname(f), ruleBase, fname(f) + " gives an entry and a bucket that is not known to be the base bucket the entry was found in", o.st.path(20)})
		}
	}
	return exits, strings.Join(x.incomplete, "; ")
}

// sources: the buckets the entries f returns are read from.
func (q *poolLocks) sources(f *ssa.Function) (fromParam, other []ssa.Value) {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		if q.isBucket(v.Type()) {
			b := v
			for {
				if c, ok := b.(*ssa.Call); ok && q.base[c.Call.StaticCallee()] {
					b = c.Call.Args[0]
					continue
				}
				break
			}
			if p, ok := b.(*ssa.Phi); ok {
				for _, e := range p.Edges {
					walk(e)
				}
				return
			}
			if _, ok := b.(*ssa.Parameter); ok {
				fromParam = append(fromParam, b)
			} else {
				other = append(other, b)
			}
			return
		}
		if a, ok := v.(*ssa.Alloc); ok {
			for _, r := range *a.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == a {
					walk(s.Val)
				}
			}
			return
		}
		if i, ok := v.(ssa.Instruction); ok {
			for _, op := range i.Operands(nil) {
				if *op != nil {
					walk(*op)
				}
			}
		}
	}
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			for _, v := range r.Results {
				if isEntryType(q.P, v.Type()) {
					walk(v)
				}
			}
		}
	}
	return
}

func init() {
	register("C20", "With embedded pools: every SetValue or Delete of an entry of the map that Set, StoreItem, Delete and Purge can reach happens with a lock held, through a pointer looked up after the lock was taken, and the bucket of that lookup is the bucket of the lock; functions that give an entry with its bucket give the base bucket whose pool contains the entry.",
		func(P *Prog, eff *Effects, r *Report) {
			q := &poolLocks{P: P, eff: eff, base: map[*ssa.Function]bool{}, src: map[*Univ]map[*Term][]lookupSrc{}, based: map[*Univ]map[*Term]bool{},
				pairs: map[*ssa.Function]bool{}, single: map[*ssa.Function]bool{}}
			if !q.anchors(r) {
				return
			}
			q.reach = eff.reachesInstr(q.touch)
			n := 0
			for _, name := range []string{"Set", "StoreItem", "Delete", "Purge"} {
				f := P.method(P.root, "Map", name)
				if f == nil {
					r.violate("-", "Map."+name, "anchor", "operation not found", "")
					continue
				}
				n++
				q.bad, q.events, q.looks = nil, 0, 0
				x := newExec(P, eff, q.client(f))
				st := newState()
				var args []*Term
				for _, p := range f.Params {
					a := x.u.sym("param:"+fname(f)+":"+p.Name(), p.Type(), p.Name())
					st.born[a] = true
					args = append(args, a)
				}
				outs := x.run(f, args, nil, st, x.ctx(nil, nil, f))
				if len(x.incomplete) > 0 {
					r.violate(P.pos(f.Pos()), fname(f), "incomplete", "analysis incomplete: "+strings.Join(x.incomplete, "; "), "")
				}
				if q.events == 0 {
					r.violate(P.pos(f.Pos()), fname(f), "anchor", "no modification of an entry found", "")
				}
				for _, v := range q.bad {
					r.violate(v.Where, v.Func, v.Rule, v.What, v.Path)
				}
				r.obligation(fmt.Sprintf("%s: %d modifications after %d lookups on paths to %d exits", fname(f), q.events, q.looks, len(outs)), len(q.bad) == 0)
				r.count("modifications judged", q.events)
			}
			r.need("operations", n)
			done := map[*ssa.Function]bool{}
			for again := true; again; {
				again = false
				for _, f := range P.fns {
					if done[f] || !q.pairs[f] && !q.single[f] {
						continue
					}
					done[f], again = true, true
					q.bad = nil
					if q.pairs[f] {
						exits, fail := q.pair(f)
						if fail != "" {
							r.violate(P.pos(f.Pos()), fname(f), "incomplete", "analysis incomplete: "+fail, "")
						}
						r.obligation(fmt.Sprintf("%s: the bucket is the base bucket the entry was found in, at %d exits", fname(f), exits), len(q.bad) == 0)
					}
					if q.single[f] {
						from, other := q.sources(f)
						if len(from) == 0 || len(other) > 0 {
							what := fname(f) + " gives entries that are not known to come from the pool of the bucket it is given"
							if len(other) > 0 {
								what += ": they depend on " + other[0].String()
							}
							q.bad = append(q.bad, Violation{P.pos(f.Pos()), fname(f), ruleBase, what, ""})
						}
						r.obligation(fmt.Sprintf("%s: entries come from the pool of the bucket that is given", fname(f)), len(from) > 0 && len(other) == 0)
					}
					for _, v := range q.bad {
						r.violate(v.Where, v.Func, v.Rule, v.What, v.Path)
					}
				}
			}
			r.need("lookups with a contract", len(done))
		})
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.IsNil()
}
