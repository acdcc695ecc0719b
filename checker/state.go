package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Fact struct {
	op   byte // '=' , '<' , 'T'
	a, b *Term
	neg  bool
}

// Tok is a client fact that partitions states (never lost at joins).
type Tok struct {
	kind string
	a, b *Term
}

type Trail struct {
	prev *Trail
	at   string
	n    int
}

type deferRec struct {
	instr *ssa.Defer
	fn    *Term
	args  []*Term
	call  *ssa.CallCommon
}

type State struct {
	env    map[ssa.Value]*Term
	frames []map[ssa.Value]*Term // environments of the callers
	rets   []*Term
	mem    map[*Term]*Term
	havoc  map[string]*Term
	facts  map[Fact]struct{}
	toks   map[Tok]struct{}
	defers []deferRec
	dstack [][]deferRec
	fresh  map[*Term]bool
	born   map[*Term]bool
	trail  *Trail
}

func newState() *State {
	return &State{env: map[ssa.Value]*Term{}, mem: map[*Term]*Term{}, havoc: map[string]*Term{}, facts: map[Fact]struct{}{},
		toks: map[Tok]struct{}{}, fresh: map[*Term]bool{}, born: map[*Term]bool{}}
}

func cp[K comparable, V any](m map[K]V) map[K]V {
	r := make(map[K]V, len(m)+2)
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (s *State) clone() *State {
	n := &State{env: cp(s.env), mem: cp(s.mem), havoc: cp(s.havoc), facts: cp(s.facts), toks: cp(s.toks), fresh: cp(s.fresh), born: cp(s.born), trail: s.trail}
	n.rets = s.rets
	n.frames = append([]map[ssa.Value]*Term(nil), s.frames...)
	n.defers = append([]deferRec(nil), s.defers...)
	n.dstack = append([][]deferRec(nil), s.dstack...)
	return n
}

func (s *State) note(at string) {
	n := 1
	if s.trail != nil {
		if s.trail.at == at {
			return
		}
		n = s.trail.n + 1
	}
	s.trail = &Trail{s.trail, at, n}
}

func (s *State) path(max int) string {
	var p []string
	for t := s.trail; t != nil && len(p) < max; t = t.prev {
		p = append([]string{t.at}, p...)
	}
	return strings.Join(p, " -> ")
}

// ---- facts

func (s *State) has(f Fact) bool { _, ok := s.facts[f]; return ok }

func (s *State) addFact(f Fact) { s.facts[f] = struct{}{} }

// atom splits a boolean term into a fact.
func atom(t *Term, pol bool) (Fact, bool) {
	for t.Op == OUn && t.Aux == "!" {
		t, pol = t.Args[0], !pol
	}
	if t.Op == OConst {
		return Fact{}, false
	}
	if t.Op == OBin && t.Aux == "==" {
		return Fact{'=', t.Args[0], t.Args[1], !pol}, true
	}
	if t.Op == OBin && t.Aux == "<" {
		return Fact{'<', t.Args[0], t.Args[1], !pol}, true
	}
	return Fact{'T', t, nil, !pol}, true
}

func eqFact(a, b *Term, neg bool) Fact {
	if a.ID > b.ID {
		a, b = b, a
	}
	return Fact{'=', a, b, neg}
}

func (u *Univ) neighbours(s *State, x *Term) []*Term {
	var r []*Term
	rx := (*Term)(nil)
	if x.Op == ORev {
		rx = x.Args[0]
	} else if t, ok := u.tab[fmt.Sprintf("%d||%d", ORev, x.ID)]; ok {
		rx = t
	}
	for f := range s.facts {
		if f.op != '=' || f.neg {
			continue
		}
		if f.a == x {
			r = append(r, f.b)
		} else if f.b == x {
			r = append(r, f.a)
		}
		if rx != nil {
			if f.a == rx {
				r = append(r, u.rev(f.b))
			} else if f.b == rx {
				r = append(r, u.rev(f.a))
			}
		}
	}
	// f(a) with a == b
	if x.Op == OLoad && len(x.Args) == 1 && x.Args[0].Op == OField {
		for _, q := range u.neighbours(s, x.Args[0].Args[0]) {
			if q.Op != ONil && q.Op != OConst {
				if a, ok := u.tab[fmt.Sprintf("%d|%s|%d", OField, x.Args[0].Aux, q.ID)]; ok {
					if l, ok := u.tab[fmt.Sprintf("%d||%d", OLoad, a.ID)]; ok {
						r = append(r, l)
					}
				}
			}
		}
	}
	if x.Op == OBin && x.Aux == "&" && isIntConst(x.Args[1]) {
		for _, q := range u.neighbours(s, x.Args[0]) {
			if isIntConst(q) {
				r = append(r, u.cst(constant.BinaryOp(q.Val, token.AND, x.Args[1].Val)))
			}
		}
		for f := range s.facts {
			if f.op != '=' || f.neg {
				continue
			}
			a, b := f.a, f.b
			if !isIntConst(b) {
				a, b = b, a
			}
			if n, ok := isInt(b); ok && n == 0 && a.Op == OBin && a.Aux == "&" && a.Args[0] == x.Args[0] && isIntConst(a.Args[1]) && a != x {
				// x&m == 0 and c within m
				m := constant.BinaryOp(a.Args[1].Val, token.AND, x.Args[1].Val)
				if constant.Compare(m, token.EQL, x.Args[1].Val) {
					r = append(r, b)
				}
			}
		}
	}
	return r
}

func (u *Univ) class(s *State, a *Term) []*Term {
	seen := map[*Term]bool{a: true}
	q := []*Term{a}
	for i := 0; i < len(q) && i < 24; i++ {
		for _, n := range u.neighbours(s, q[i]) {
			if !seen[n] {
				seen[n] = true
				q = append(q, n)
			}
		}
	}
	return q
}

// eval: 1 true, -1 false, 0 unknown
func (u *Univ) eval(s *State, t *Term) int {
	pol := 1
	for t.Op == OUn && t.Aux == "!" {
		t, pol = t.Args[0], -pol
	}
	if t.isTrue() {
		return pol
	}
	if t.isFalse() {
		return -pol
	}
	if t.Op == OBin && t.Aux == "==" {
		return pol * u.evalEq(s, t.Args[0], t.Args[1])
	}
	if t.Op == OBin && t.Aux == "<" {
		return pol * u.evalLt(s, t.Args[0], t.Args[1])
	}
	if s.has(Fact{'T', t, nil, false}) {
		return pol
	}
	if s.has(Fact{'T', t, nil, true}) {
		return -pol
	}
	for _, n := range u.neighbours(s, t) {
		if n.isTrue() {
			return pol
		}
		if n.isFalse() {
			return -pol
		}
	}
	return 0
}

func (u *Univ) evalEq(s *State, a, b *Term) int {
	if a == b {
		return 1
	}
	if u.distinct(a, b) {
		return -1
	}
	if s.has(eqFact(a, b, false)) {
		return 1
	}
	if s.has(eqFact(a, b, true)) {
		return -1
	}
	ca := u.class(s, a)
	for _, x := range ca {
		if x == b {
			return 1
		}
	}
	cb := u.class(s, b)
	for _, x := range ca {
		for _, y := range cb {
			if x == y {
				return 1
			}
		}
	}
	for _, x := range ca {
		for _, y := range cb {
			if u.distinct(x, y) || s.has(eqFact(x, y, true)) || s.has(Fact{'<', x, y, false}) || s.has(Fact{'<', y, x, false}) {
				return -1
			}
		}
	}
	// (x&c) != 0 implies x != 0
	for i := 0; i < 2; i++ {
		if n, ok := isInt(b); ok && n == 0 {
			for f := range s.facts {
				if f.op == '=' && f.neg {
					p, q := f.a, f.b
					if !isIntConst(q) {
						p, q = q, p
					}
					if z, ok := isInt(q); ok && z == 0 && p.Op == OBin && p.Aux == "&" && p.Args[0] == a {
						return -1
					}
				}
			}
		}
		a, b = b, a
	}
	return 0
}

func (u *Univ) evalLt(s *State, a, b *Term) int {
	if a == b {
		return -1
	}
	if s.has(Fact{'<', a, b, false}) {
		return 1
	}
	if s.has(Fact{'<', a, b, true}) || s.has(Fact{'<', b, a, false}) {
		return -1
	}
	ca, cb := u.class(s, a), u.class(s, b)
	for _, x := range ca {
		for _, y := range cb {
			if x == y {
				return -1
			}
			if isIntConst(x) && isIntConst(y) {
				if constant.Compare(x.Val, token.LSS, y.Val) {
					return 1
				}
				return -1
			}
			if s.has(Fact{'<', x, y, false}) {
				return 1
			}
			if s.has(Fact{'<', x, y, true}) || s.has(Fact{'<', y, x, false}) {
				return -1
			}
		}
	}
	return 0
}

// assume adds a condition; false if it contradicts what is known.
func (u *Univ) assume(s *State, t *Term, pol bool) bool {
	e := u.eval(s, t)
	if e == 1 && !pol || e == -1 && pol {
		return false
	}
	f, ok := atom(t, pol)
	if !ok {
		return true
	}
	s.addFact(f)
	switch {
	case f.op == '<' && !f.neg:
		s.addFact(eqFact(f.a, f.b, true))
		s.addFact(Fact{'<', f.b, f.a, true})
	case f.op == '=' && !f.neg:
		if f.a.Typ == nil || f.b.Typ == nil || isInteger(f.a.Typ) {
			s.addFact(Fact{'<', f.a, f.b, true})
			s.addFact(Fact{'<', f.b, f.a, true})
		}
	}
	return true
}

func (u *Univ) implies(s *State, f Fact) bool {
	if s.has(f) {
		return true
	}
	e := 0
	switch f.op {
	case '=':
		e = u.evalEq(s, f.a, f.b)
	case '<':
		e = u.evalLt(s, f.a, f.b)
	case 'T':
		e = u.eval(s, f.a)
	}
	return e == 1 && !f.neg || e == -1 && f.neg
}

// ---- renaming

func (u *Univ) renameFact(f Fact, m map[*Term]*Term, memo map[*Term]*Term) (Fact, bool) {
	a := u.subst(f.a, m, memo)
	var b *Term
	if f.b != nil {
		b = u.subst(f.b, m, memo)
	}
	if a == f.a && b == f.b {
		return f, true
	}
	switch f.op {
	case '=':
		t := u.bin(token.EQL, a, b, nil)
		return atom(t, !f.neg)
	case '<':
		t := u.bin(token.LSS, a, b, nil)
		return atom(t, !f.neg)
	}
	return atom(a, !f.neg)
}

func anyMention(t *Term, ids []int) bool {
	for _, i := range ids {
		if t.mentions(i) {
			return true
		}
	}
	return false
}

// rename applies a substitution of symbols to the whole state.
func (u *Univ) rename(s *State, m map[*Term]*Term) {
	var ids []int
	for k := range m {
		ids = append(ids, k.ID)
	}
	memo := map[*Term]*Term{}
	sub := func(t *Term) *Term {
		if t == nil || !anyMention(t, ids) {
			return t
		}
		return u.subst(t, m, memo)
	}
	for k, v := range s.env {
		s.env[k] = sub(v)
	}
	for i, fr := range s.frames {
		dirty := false
		for _, v := range fr {
			if sub(v) != v {
				dirty = true
				break
			}
		}
		if dirty {
			fr = cp(fr)
			for k, v := range fr {
				fr[k] = sub(v)
			}
			s.frames[i] = fr
		}
	}
	mem := map[*Term]*Term{}
	for k, v := range s.mem {
		if sub(k) == k {
			mem[k] = sub(v)
		}
	}
	for k, v := range s.mem {
		if nk := sub(k); nk != k {
			if _, ok := mem[nk]; !ok {
				mem[nk] = sub(v)
			}
		}
	}
	s.mem = mem
	facts := map[Fact]struct{}{}
	for f := range s.facts {
		if !anyMention(f.a, ids) && (f.b == nil || !anyMention(f.b, ids)) {
			facts[f] = struct{}{}
			continue
		}
		if nf, ok := u.renameFact(f, m, memo); ok {
			facts[nf] = struct{}{}
		}
	}
	s.facts = facts
	toks := map[Tok]struct{}{}
	for t := range s.toks {
		toks[Tok{t.kind, sub(t.a), sub(t.b)}] = struct{}{}
	}
	s.toks = toks
	ren := func(ds []deferRec) []deferRec {
		r := make([]deferRec, len(ds))
		for i, d := range ds {
			r[i] = d
			r[i].fn = sub(d.fn)
			r[i].args = nil
			for _, a := range d.args {
				r[i].args = append(r[i].args, sub(a))
			}
		}
		return r
	}
	s.defers = ren(s.defers)
	for i := range s.dstack {
		s.dstack[i] = ren(s.dstack[i])
	}
	fr := map[*Term]bool{}
	for k := range s.fresh {
		fr[sub(k)] = true
	}
	s.fresh = fr
}

// birth marks a symbol as created now; an older incarnation becomes old(sym).
func (u *Univ) birth(s *State, t *Term) *Term {
	if t.Op != OSym && t.Op != OAlloc {
		return t
	}
	if s.born[t] {
		old := u.mk(t.Op, "old:"+t.Aux, t.Typ)
		if old.Desc == "" {
			old.Desc = "earlier " + t.Desc
		}
		// facts on older incarnations are dropped
		for f := range s.facts {
			if f.a.mentions(old.ID) || f.b != nil && f.b.mentions(old.ID) {
				delete(s.facts, f)
			}
		}
		u.rename(s, map[*Term]*Term{t: old})
	}
	s.born[t] = true
	return t
}

// ---- memory

func rootOf(t *Term) *Term {
	for t.Op == OField || t.Op == OElem || t.Op == OContainer || t.Op == OPtrAdd {
		t = t.Args[0]
	}
	return t
}

func locKey(addr *Term) string {
	if addr.Op == OField {
		return addr.Aux
	}
	if addr.Typ != nil {
		return "deref:" + typeKey(deref(addr.Typ))
	}
	return "deref:?"
}

func opaqueStruct(t types.Type) bool {
	if isElist(t) || isLoncha(t) {
		return false
	}
	n := namedOf(t)
	return n != nil && n.Obj().Pkg() != nil && !strings.Contains(n.Obj().Pkg().Path(), "kazu/skiplistmap")
}

func (x *Exec) load(s *State, addr *Term, t types.Type, instr ssa.Instruction, ctx *Ctx) *Term {
	u := x.u
	switch tt := t.Underlying().(type) {
	case *types.Struct:
		if opaqueStruct(t) {
			break
		}
		_ = tt
		return u.structOf(t, func(i int, f *types.Var) *Term {
			return x.load(s, u.field(addr, t, i), f.Type(), instr, ctx)
		})
	case *types.Slice:
		return u.mk(OStruct, "slice", t,
			x.loadCell(s, u.sliceField(addr, 0), types.Typ[types.UnsafePointer], instr, ctx),
			x.loadCell(s, u.sliceField(addr, 1), types.Typ[types.Int], instr, ctx),
			x.loadCell(s, u.sliceField(addr, 2), types.Typ[types.Int], instr, ctx))
	}
	return x.loadCell(s, addr, t, instr, ctx)
}

func (u *Univ) sliceField(addr *Term, i int) *Term {
	return u.mk(OField, [...]string{"slice.data", "slice.len", "slice.cap"}[i], nil, addr)
}

func (x *Exec) loadCell(s *State, addr *Term, t types.Type, instr ssa.Instruction, ctx *Ctx) *Term {
	if v, ok := s.mem[addr]; ok {
		return v
	}
	if addr.Op == OField && (addr.Aux == "slice.data" || addr.Aux == "slice.len") {
		// the header of a string seen through a mirror struct
		if b := addr.Args[0]; b.Typ != nil {
			if bt, ok := deref(b.Typ).Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
				v := x.loadCell(s, b, deref(b.Typ), instr, ctx)
				if addr.Aux == "slice.data" {
					return x.u.mk(OPCall, "strdata", types.Typ[types.UnsafePointer], v)
				}
				return x.u.mk(OPCall, "len", types.Typ[types.Int], v)
			}
		}
	}
	r := rootOf(addr)
	if r.Op == OAlloc && s.fresh[r] {
		return x.u.zero(t)
	}
	if x.unsteady(addr) && !(r.Op == OAlloc && s.fresh[r]) {
		if v := x.constGlobal(addr); v != nil {
			return v
		}
		v := x.newSym(s, instr, ctx, "load"+fmt.Sprint(addr.ID), t, "load of "+addr.String())
		x.loaded[v] = addr
		return v
	}
	if ep := s.havoc[locKey(addr)]; ep != nil {
		return x.u.mk(OLoad, "", t, addr, ep)
	}
	return x.u.mk(OLoad, "", t, addr)
}

// unsteady: other goroutines may change the cell at any time.
func (x *Exec) unsteady(addr *Term) bool {
	return x.cl.volatile && !(x.cl.steady != nil && x.cl.steady(addr))
}

func (x *Exec) constGlobal(addr *Term) *Term {
	if x.cl.constCell != nil {
		return x.cl.constCell(x, addr)
	}
	return nil
}

func (x *Exec) store(s *State, addr, v *Term, t types.Type, instr ssa.Instruction, ctx *Ctx) {
	u := x.u
	switch t.Underlying().(type) {
	case *types.Struct:
		if opaqueStruct(t) {
			break
		}
		st := t.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			x.store(s, u.field(addr, t, i), u.fieldVal(v, t, i), st.Field(i).Type(), instr, ctx)
		}
		return
	case *types.Slice:
		for i := 0; i < 3; i++ {
			x.storeCell(s, u.sliceField(addr, i), u.slicePart(v, i), instr, ctx)
		}
		return
	case *types.Array:
		// whole-array stores are rare: forget the elements
		r := addr
		for k := range s.mem {
			if k != r && hasBase(k, r) {
				delete(s.mem, k)
			}
		}
	}
	x.storeCell(s, addr, v, instr, ctx)
}

func hasBase(t, b *Term) bool {
	for t.Op == OField || t.Op == OElem {
		t = t.Args[0]
		if t == b {
			return true
		}
	}
	return false
}

func (x *Exec) storeCell(s *State, addr, v *Term, instr ssa.Instruction, ctx *Ctx) {
	if x.cl.onStore != nil {
		x.cl.onStore(x, s, addr, v, instr, ctx)
	}
	r := rootOf(addr)
	if !(r.Op == OAlloc && s.fresh[r]) {
		x.escape(s, v)
	}
	if x.unsteady(addr) && !(r.Op == OAlloc && (s.fresh[r] || x.u.once[r])) {
		return
	}
	s.mem[addr] = v
}

func (u *Univ) fieldVal(v *Term, t types.Type, i int) *Term {
	if v.Op == OStruct && v.Aux == typeKey(t) && i < len(v.Args) {
		return v.Args[i]
	}
	st := t.Underlying().(*types.Struct)
	return u.mk(OFieldVal, fmt.Sprint(i), st.Field(i).Type(), v)
}

func (u *Univ) slicePart(v *Term, i int) *Term {
	if v.Op == OStruct && v.Aux == "slice" {
		return v.Args[i]
	}
	if v.Op == ONil {
		if i == 0 {
			return u.Nil
		}
		return u.int(0)
	}
	return u.mk(OFieldVal, [...]string{"data", "len", "cap"}[i], nil, v)
}

func (x *Exec) escape(s *State, v *Term) {
	if v == nil || len(s.fresh) == 0 {
		return
	}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		r := rootOf(t)
		if r.Op == OAlloc && s.fresh[r] {
			delete(s.fresh, r)
			for k, val := range s.mem {
				if rootOf(k) == r {
					walk(val)
				}
			}
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(v)
}

func (x *Exec) havocKeys(s *State, keys map[string]bool, instr ssa.Instruction, ctx *Ctx) {
	if len(keys) == 0 {
		return
	}
	for k := range keys {
		s.havoc[k] = x.newSym(s, instr, ctx, "havoc:"+k, nil, "state after "+x.P.instrPos(instr))
	}
	for a := range s.mem {
		r := rootOf(a)
		if keys[locKey(a)] && !(r.Op == OAlloc && (s.fresh[r] || x.u.once[r])) {
			delete(s.mem, a)
		}
	}
}

// ---- partition keys and joins

func (s *State) tokKey() string {
	if len(s.toks) == 0 {
		return ""
	}
	var r []string
	for t := range s.toks {
		k := t.kind
		if t.a != nil {
			k += fmt.Sprintf(":%d", t.a.ID)
		}
		if t.b != nil {
			k += fmt.Sprintf(",%d", t.b.ID)
		}
		r = append(r, k)
	}
	sort.Strings(r)
	return strings.Join(r, ";")
}

func isKeyConst(t *Term) bool {
	switch t.Op {
	case OConst, ONil, OFunc, OClosure:
		return true
	case OTuple:
		for _, a := range t.Args {
			if isKeyConst(a) {
				return true
			}
		}
	}
	return false
}

func keyConst(t *Term) string {
	switch t.Op {
	case OConst:
		return t.Val.ExactString()
	case ONil:
		return "nil"
	case OFunc, OClosure:
		return fmt.Sprintf("f%d", t.Fn.Pos())
	case OTuple:
		r := "("
		for _, a := range t.Args {
			r += keyConst(a) + ","
		}
		return r + ")"
	}
	return "_"
}

func (s *State) defKey() string {
	r := ""
	for _, d := range s.defers {
		r += fmt.Sprintf("d%p", d.instr)
		for _, a := range d.args {
			r += fmt.Sprintf(",%d", a.ID)
		}
		if d.fn != nil {
			r += fmt.Sprintf("f%d", d.fn.ID)
		}
	}
	return r
}

func sortedTerms(m map[*Term]*Term) []*Term {
	var r []*Term
	for k := range m {
		r = append(r, k)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].ID < r[j].ID })
	return r
}

func (s *State) cellKey() string {
	var r []string
	for k, v := range s.mem {
		if k.Op == OAlloc && s.fresh[k] && isKeyConst(v) && !isIntConst(v) {
			r = append(r, fmt.Sprintf("m%d=%s", k.ID, keyConst(v)))
		}
	}
	sort.Strings(r)
	return strings.Join(r, ";")
}

type diff struct{ p, old, new *Term }

// join merges n into o (both at the same point and partition). It reports whether o changed.
func (x *Exec) join(o, n *State, ctx *Ctx, point string) bool {
	u := x.u
	var diffs []diff
	psym := func(loc string, a, b *Term) *Term {
		typ := a.Typ
		if typ == nil {
			typ = b.Typ
		}
		return u.sym(fmt.Sprintf("phi:%d:%s:%s", ctx.id, point, loc), typ, "merged "+loc)
	}
	changed := false
	// env
	for v, a := range o.env {
		b, ok := n.env[v]
		if !ok {
			delete(o.env, v)
			changed = true
			continue
		}
		if a != b {
			p := psym(vname(v), a, b)
			if a != p {
				if p.Typ == nil {
					p.Typ = v.Type()
				}
				changed = true
			}
			diffs = append(diffs, diff{p, a, b})
			o.env[v] = p
		}
	}
	for i := range o.frames {
		if i >= len(n.frames) {
			break
		}
		var nf map[ssa.Value]*Term
		for v, a := range o.frames[i] {
			b, ok := n.frames[i][v]
			if ok && a == b {
				continue
			}
			if nf == nil {
				nf = cp(o.frames[i])
			}
			if !ok {
				delete(nf, v)
				continue
			}
			p := psym(fmt.Sprintf("frame%d.%s", i, vname(v)), a, b)
			if a != p {
				changed = true
			}
			diffs = append(diffs, diff{p, a, b})
			nf[v] = p
		}
		if nf != nil {
			o.frames[i] = nf
		}
	}
	if len(o.rets) == len(n.rets) {
		rets := append([]*Term(nil), o.rets...)
		for i := range rets {
			a, b := o.rets[i], n.rets[i]
			if a != b {
				p := psym(fmt.Sprintf("ret%d", i), a, b)
				if a != p {
					changed = true
				}
				diffs = append(diffs, diff{p, a, b})
				rets[i] = p
			}
		}
		o.rets = rets
	}
	// havoc
	hk := map[string]bool{}
	for k := range o.havoc {
		hk[k] = true
	}
	for k := range n.havoc {
		hk[k] = true
	}
	for k := range hk {
		a, b := o.havoc[k], n.havoc[k]
		if a != b {
			p := u.sym(fmt.Sprintf("phi:%d:%s:havoc:%s", ctx.id, point, k), nil, "merged state")
			if a != p {
				changed = true
				o.havoc[k] = p
			}
		}
	}
	// memory
	mk := map[*Term]*Term{}
	for k := range o.mem {
		mk[k] = nil
	}
	for k := range n.mem {
		mk[k] = nil
	}
	for _, k := range sortedTerms(mk) {
		a, aok := o.mem[k]
		b, bok := n.mem[k]
		if aok && bok && a == b {
			continue
		}
		get := func(s *State) *Term {
			r := rootOf(k)
			if r.Op == OAlloc && s.fresh[r] {
				if k.Typ != nil {
					return u.zero(deref(k.Typ))
				}
				if k.Op == OField && strings.HasPrefix(k.Aux, "slice.") {
					if k.Aux == "slice.data" {
						return u.Nil
					}
					return u.int(0)
				}
				return u.mk(OLoad, "", nil, k)
			}
			if ep := s.havoc[locKey(k)]; ep != nil {
				return u.mk(OLoad, "", nil, k, ep)
			}
			var typ types.Type
			if k.Typ != nil {
				typ = deref(k.Typ)
			}
			return u.mk(OLoad, "", typ, k)
		}
		if !aok {
			a = get(o)
		}
		if !bok {
			b = get(n)
		}
		if a == b {
			o.mem[k] = a
			if !aok {
				changed = true
			}
			continue
		}
		p := psym(fmt.Sprintf("mem%d", k.ID), a, b)
		if a != p {
			changed = true
		}
		o.mem[k] = p
		diffs = append(diffs, diff{p, a, b})
	}
	for k := range o.fresh {
		if !n.fresh[k] {
			delete(o.fresh, k)
			changed = true
		}
	}
	for k := range n.born {
		if !o.born[k] {
			o.born[k] = true
		}
	}
	for _, d := range diffs {
		o.born[d.p] = true
	}
	// facts, translated to the merged symbols
	of, nf := o, n
	if len(diffs) > 0 {
		nf = &State{facts: cp(n.facts)}
		of = &State{facts: o.facts}
		for _, d := range diffs {
			if d.old != d.p {
				x.translate(of, d.old, d.p)
			}
			if d.new != d.p {
				x.translate(nf, d.new, d.p)
			}
		}
		o.facts = of.facts
	}
	// a bit test on one side, implied by what is known of the whole value on the other
	var bits []Fact
	for f := range nf.facts {
		if f.op == '=' && !o.has(f) && (f.a.Op == OBin && f.a.Aux == "&" || f.b.Op == OBin && f.b.Aux == "&") && u.implies(o, f) {
			bits = append(bits, f)
		}
	}
	for f := range o.facts {
		if !nf.has(f) && !u.implies(nf, f) {
			delete(o.facts, f)
			changed = true
		}
	}
	for _, f := range bits {
		o.addFact(f)
	}
	return changed
}

// translate copies facts on v to p, which stands for v on this edge.
func (x *Exec) translate(s *State, v, p *Term) {
	u := x.u
	for f := range s.facts {
		if f.a == p || f.b == p {
			delete(s.facts, f)
		}
	}
	if isKeyConst(v) && v.Op != OTuple {
		s.addFact(eqFact(p, v, false))
		if v.Op == ONil {
			return
		}
		if v.Op != OConst {
			s.addFact(eqFact(p, u.Nil, true))
		}
		return
	}
	if u.distinct(v, u.Nil) {
		s.addFact(eqFact(p, u.Nil, true))
	}
	var add []Fact
	m := map[*Term]*Term{v: p}
	memo := map[*Term]*Term{}
	for f := range s.facts {
		if nf, ok := u.renameFact(f, m, memo); ok && nf != f {
			add = append(add, nf)
		}
	}
	for _, f := range add {
		s.addFact(f)
	}
	// what is true of a boolean or loaded value by evaluation
	if v.Op == OLoad || v.Op == OBin {
		for _, c := range u.class(&State{facts: s.facts}, v) {
			if c.Op == OConst {
				s.addFact(eqFact(p, c, false))
			}
		}
	}
}

func vname(v ssa.Value) string {
	fn := ""
	if v.Parent() != nil {
		fn = fname(v.Parent()) + "."
	}
	if p, ok := v.(*ssa.Phi); ok && p.Comment != "" {
		return fn + v.Name() + "/" + p.Comment
	}
	return fn + v.Name()
}
