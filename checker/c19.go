package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	ruleAbsent = "what a lookup gives for an absent key is not dereferenced"
	ruleFound  = "a lookup that gives no entry reports absence"
	ruleInit   = "tables that operations use unconditionally are set up by the constructor"
	ruleNilMap = "no store into a nil table"
	tokAbsent  = "absent"
)

// absence follows nil results of lookups.
type absence struct {
	P        *Prog
	eff      *Effects
	shapes   map[*ssa.Function]map[string][]types.Type // result shapes
	nilOf    map[string]bool                           // pointer types of which a typed nil is stored
	inited   map[string]bool                           // cells every constructor stores
	root     *ssa.Function
	bad      []Violation
	quiet    bool
	reads    map[*ssa.Function]bool     // functions of lookups that read slots
	need     map[string]ssa.Instruction // fields used without a test for nil
	nilAt    map[string]bool            // cells that are zero when no bucket is found
	sites    map[ssa.Instruction]bool
	cellKeys map[string]bool
}

// judged: pointers to entries, to their heads and to the structures of the read tables.
func (q *absence) judged(t types.Type) bool {
	if t == nil {
		return false
	}
	if isEntryType(q.P, t) {
		return true
	}
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		_, m := t.Underlying().(*types.Map)
		return m
	}
	if typeIs(p, "skiplistmap", "MapHead") || typeIs(p, "sync/atomic", "Value") {
		return true
	}
	n := namedOf(p.Elem())
	rp := q.P.rmapPkg()
	return n != nil && rp != nil && n.Obj().Pkg() == rp.Pkg
}

// gives: results of f that are entries.
func (q *absence) gives(f *ssa.Function) bool {
	if f == nil || !q.P.inMod[f] || len(f.Blocks) == 0 {
		return false
	}
	rs := f.Signature.Results()
	for k := 0; k < rs.Len(); k++ {
		if t := rs.At(k).Type(); isEntryType(q.P, t) || typeIs(t, "skiplistmap", "MapHead") && isPtrLike(t) {
			return true
		}
	}
	return false
}

// byKey: f looks up a key.
func (q *absence) byKey(f *ssa.Function) bool {
	if rp := q.P.rmapPkg(); rp != nil && f.Pkg == rp {
		return true // all of its entries belong to keys
	}
	sig := f.Signature
	for k := 0; k < sig.Params().Len(); k++ {
		switch u := sig.Params().At(k).Type().Underlying().(type) {
		case *types.Basic:
			if u.Kind() == types.Uint64 || u.Kind() == types.String {
				return true
			}
		case *types.Interface:
			if u.NumMethods() == 0 {
				return true
			}
		}
	}
	return false
}

// indexed: f takes an index.
func indexed(f *ssa.Function) bool {
	for k := 0; k < f.Signature.Params().Len(); k++ {
		if b, ok := f.Signature.Params().At(k).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Int {
			return true
		}
	}
	return false
}

// isStep: f leads from an element to another one.
func isStep(f *ssa.Function) bool {
	sig := f.Signature
	return sig.Recv() != nil && sig.Params().Len() == 0 && sig.Results().Len() == 1 && types.Identical(sig.Recv().Type(), sig.Results().At(0).Type())
}

func (q *absence) takesEntry(f *ssa.Function) bool {
	for _, p := range f.Params {
		if q.judged(p.Type()) {
			return true
		}
	}
	return len(f.FreeVars) > 0
}

func (q *absence) client() *Client {
	cl := &Client{}
	cl.interesting = func(x *Exec, i ssa.Instruction) bool { return true }
	cl.keepRet = func(t *Term) bool { return t.Op == ONil }
	cl.onDeref = func(x *Exec, s *State, p *Term, i ssa.Instruction, ctx *Ctx) {
		q.deref(x, s, p, i)
	}
	cl.onMapUpdate = func(x *Exec, s *State, m, k, v *Term, i *ssa.MapUpdate, ctx *Ctx) {
		q.sites[i] = true
		if x.u.evalEq(s, m, x.u.Nil) == 1 {
			q.violate(s, i, ruleNilMap, fname(i.Parent())+" stores into a nil map")
		}
	}
	cl.onInstr = func(x *Exec, s *State, i ssa.Instruction, ctx *Ctx) {
		t, ok := i.(*ssa.TypeAssert)
		if !ok || !q.inited[q.cellOfLoad(t.X)] {
			return
		}
		a := x.val(s, ctx, t.X)
		x.u.assume(s, x.u.bin(token.EQL, a, x.u.Nil, nil), false)
		x.u.assume(s, x.u.mk(OPCall, "istype:"+typeKey(t.AssertedType), types.Typ[types.Bool], a), true)
	}
	cl.onLock = func(x *Exec, s *State, kind string, mu *Term, c *Call) ([]*Outcome, bool) {
		if strings.HasSuffix(kind, "Lock") && kind != "Unlock" {
			// another operation may have changed the tables before
			x.havocKeys(s, q.cellKeys, c.instr, c.ctx)
		}
		return nil, false
	}
	cl.onCall = func(x *Exec, s *State, c *Call) ([]*Outcome, bool) {
		if c.fn == nil || !q.P.inMod[c.fn] || len(c.fn.Blocks) == 0 {
			return nil, false
		}
		for k, a := range c.args {
			if k < len(c.fn.Params) && q.judged(c.fn.Params[k].Type()) && (a.Op == ONil || a.Op == OIface && a.Args[0].Op == ONil || x.u.evalEq(s, a, x.u.Nil) == 1) {
				if onStack(c.ctx, c.fn) {
					return x.opaqueModule(s, c), true
				}
				return x.inline(s, c), true
			}
		}
		if len(c.fn.FreeVars) > 0 && !onStack(c.ctx, c.fn) {
			return nil, false
		}
		if q.gives(c.fn) && x.itemMethod(c) == "" {
			if q.takesEntry(c.fn) && q.byKey(c.fn) && !onStack(c.ctx, c.fn) {
				return nil, false
			}
			return q.lookup(x, s, c), true
		}
		if x.itemMethod(c) != "" || x.tiny(c.fn, 0) {
			return nil, false
		}
		return x.opaqueModule(s, c), true
	}
	return cl
}

// lookup: one outcome for every combination of results of a function that gives entries.
func (q *absence) lookup(x *Exec, s *State, c *Call) []*Outcome {
	sh := q.shapes[c.fn]
	if !q.byKey(c.fn) && !(q.reads[c.ctx.fn] && (indexed(c.fn) || isStep(c.fn))) {
		sh = nil
	}
	outs := x.opaqueModule(s, c)
	if len(sh) == 0 || len(outs) != 1 {
		return outs
	}
	o := outs[0]
	var keys []string
	for k := range sh {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	site := x.u.sym(fmt.Sprintf("site:%d:%d", c.ctx.id, x.u.pid(c.instr.(ssa.Value))), nil, "lookup")
	var res []*Outcome
	for n, key := range keys {
		st := o.st
		if n < len(keys)-1 {
			st = st.clone()
		}
		rets := append([]*Term(nil), o.rets...)
		for k, t := range sh[key] {
			switch key[k] {
			case 'y':
				rets[k] = x.u.mk(OIface, typeKey(t), t, x.u.Nil)
			case 'n':
				rets[k] = x.u.Nil
			case 't':
				rets[k] = x.u.True
			case 'f':
				rets[k] = x.u.Fals
			case 'x':
				st.addFact(eqFact(rets[k], x.u.Nil, true))
			}
		}
		st.toks[Tok{tokAbsent, site, x.u.int(int64(n))}] = struct{}{}
		if strings.ContainsAny(key, "ny") {
			st.note(x.P.instrPos(c.instr) + " " + fname(c.fn) + " gives nil")
		}
		res = append(res, &Outcome{st, rets})
	}
	return res
}

func (q *absence) violate(s *State, i ssa.Instruction, rule, what string) {
	if !q.quiet {
		q.bad = append(q.bad, Violation{q.P.instrPos(i), fname(i.Parent()), rule, what, s.path(20)})
	}
}

// derefType: type of the pointer an instruction dereferences.
func derefType(i ssa.Instruction) types.Type {
	switch t := i.(type) {
	case *ssa.UnOp:
		return t.X.Type()
	case *ssa.FieldAddr:
		return t.X.Type()
	case *ssa.IndexAddr:
		return t.X.Type()
	case *ssa.Store:
		return t.Addr.Type()
	case *ssa.TypeAssert:
		return t.X.Type()
	case ssa.CallInstruction:
		c := t.Common()
		if c.IsInvoke() || len(c.Args) == 0 {
			return c.Value.Type()
		}
		return c.Args[0].Type()
	}
	return nil
}

func (q *absence) deref(x *Exec, s *State, p *Term, i ssa.Instruction) {
	q.sites[i] = true
	t := derefType(i)
	if p.Op == OLoad && p.Args[0].Op == OField && x.u.evalEq(s, p, x.u.Nil) == 0 && q.need[p.Args[0].Aux] == nil {
		q.need[p.Args[0].Aux] = i
	}
	if _, ok := i.(*ssa.TypeAssert); !ok && !q.judged(t) {
		return
	}
	if p.Op == ONil || p.Op == OIface && p.Args[0].Op == ONil || x.u.evalEq(s, p, x.u.Nil) == 1 {
		q.violate(s, i, ruleAbsent, fmt.Sprintf("%s uses a nil %s", fname(i.Parent()), types.TypeString(t, (*types.Package).Name)))
		return
	}
	if p.Op == OPCall && p.Aux == "ptr" && p.Typ != nil && q.nilOf[typeKey(p.Typ)] && x.u.evalEq(s, p, x.u.Nil) == 0 {
		q.violate(s, i, ruleAbsent, fmt.Sprintf("%s uses a %s that may be the nil stored for a deleted key", fname(i.Parent()), types.TypeString(t, (*types.Package).Name)))
	}
}

// shape finds the combinations of results of f.
func (q *absence) shape(f *ssa.Function) (map[string][]types.Type, string) {
	x := newExec(q.P, q.eff, q.client())
	res := map[string][]types.Type{}
	rs := f.Signature.Results()
	for _, o := range x.runRoot(f) {
		var b strings.Builder
		typed := false
		for k, t := range o.rets {
			rt := rs.At(k).Type()
			switch {
			case t == x.u.True:
				b.WriteByte('t')
			case t == x.u.Fals:
				b.WriteByte('f')
			case !isPtrLike(rt):
				b.WriteByte('?')
			case isEntryType(q.P, rt) || typeIs(rt, "skiplistmap", "MapHead"):
				if t.Op == OIface && t.Args[0].Op == ONil {
					b.WriteByte('y')
					typed = true
				} else if t.Op == ONil || x.u.evalEq(o.st, t, x.u.Nil) == 1 {
					b.WriteByte('n')
				} else {
					b.WriteByte('x')
				}
			default:
				b.WriteByte('?')
			}
		}
		if res[b.String()] == nil {
			res[b.String()] = make([]types.Type, len(o.rets))
		}
		if typed {
			for k, t := range o.rets {
				if t.Op == OIface {
					res[b.String()][k] = t.Typ
				}
			}
		}
	}
	return res, strings.Join(x.incomplete, "; ")
}

// cellKey: the field (or variable) that holds the addressed cell.
func cellKeyOf(addr *Term) string {
	for t := addr; t != nil; {
		switch t.Op {
		case OField:
			return t.Aux
		case OGlobal:
			return t.Aux
		case OElem:
			t = t.Args[0]
		default:
			return ""
		}
	}
	return ""
}

// holdsField: the structure of the field is part of t.
func holdsField(t types.Type, key string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for k := 0; k < st.NumFields(); k++ {
		f := st.Field(k)
		if n.Obj().Name()+"."+f.Name() == key {
			return true
		}
		if _, ok := f.Type().Underlying().(*types.Struct); ok && holdsField(f.Type(), key) {
			return true
		}
	}
	return false
}

const tokSet = "set"

// constructed: every function that allocates the structure of field key stores it before it returns.
func (q *absence) constructed(key string, accept func(x *Exec, s *State, addr, v *Term) int) (n int, missing []Violation, fail string) {
	touches := func(i ssa.Instruction) bool {
		if s, ok := i.(*ssa.Store); ok {
			return rootKey(s.Addr) == key
		}
		op, ok := cellOpOf(i)
		return ok && op.kind == "mutate" && rootKey(op.addr) == key
	}
	for _, f := range q.P.fns {
		found := false
		glob := strings.HasPrefix(f.Name(), "init") && f.Signature.Recv() == nil && f.Signature.Params().Len() == 0
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if glob && touches(i) {
					if g, ok := rootGlobal(i); ok && g == key {
						found = true
					}
				}
				if a, ok := i.(*ssa.Alloc); ok && a.Heap && holdsField(deref(a.Type()), key) && q.public(a) {
					found = true
				}
			}
		}
		if !found {
			continue
		}
		cl := &Client{interesting: func(x *Exec, i ssa.Instruction) bool { return touches(i) }}
		cl.onStore = func(x *Exec, s *State, addr, v *Term, i ssa.Instruction, ctx *Ctx) {
			if cellKeyOf(addr) != key {
				return
			}
			a := rootOf(addr)
			switch accept(x, s, addr, v) {
			case 1:
				s.toks[Tok{tokSet, a, nil}] = struct{}{}
			case -1:
				delete(s.toks, Tok{tokSet, a, nil})
			}
		}
		x := newExec(q.P, q.eff, cl)
		for _, o := range x.runRoot(f) {
			for t := range o.st.toks {
				if t.a.Op == OGlobal {
					n++
				}
			}
			for a := range o.st.born {
				if a.Op != OAlloc || a.Typ == nil || !holdsField(deref(a.Typ), key) {
					continue
				}
				n++
				if _, ok := o.st.toks[Tok{tokSet, a, nil}]; !ok {
					missing = append(missing, Violation{q.P.pos(f.Pos()), fname(f), ruleInit, fname(f) + " does not set " + key + " on every path", o.st.path(20)})
				}
			}
		}
		if len(x.incomplete) > 0 {
			fail = strings.Join(x.incomplete, "; ")
		}
	}
	return
}

// public: the object is more than a temporary of its function.
func (q *absence) public(a *ssa.Alloc) bool {
	return a.Comment != "" && a.Heap
}

// rootGlobal: the variable a store or an atomic operation changes.
func rootGlobal(i ssa.Instruction) (string, bool) {
	var v ssa.Value
	if s, ok := i.(*ssa.Store); ok {
		v = s.Addr
	} else if op, ok := cellOpOf(i); ok {
		v = op.addr
	}
	g, ok := v.(*ssa.Global)
	if !ok {
		return "", false
	}
	return rootKey(g), true
}

func rootKey(v ssa.Value) string {
	for {
		switch t := v.(type) {
		case *ssa.FieldAddr:
			return addrKey(t)
		case *ssa.IndexAddr:
			v = t.X
		case *ssa.Global:
			return t.Pkg.Pkg.Path() + "." + t.Name()
		default:
			return ""
		}
	}
}

// cells finds the atomic cells whose loaded value is taken to have a pointer type.
func (q *absence) cells() map[string]*ssa.TypeAssert {
	res := map[string]*ssa.TypeAssert{}
	for _, f := range q.P.fns {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				t, ok := i.(*ssa.TypeAssert)
				if !ok {
					continue
				}
				if k := q.cellOfLoad(t.X); k != "" && (res[k] == nil || !t.CommaOk) {
					res[k] = t
				}
			}
		}
	}
	return res
}

func (q *absence) cellOfLoad(v ssa.Value) string {
	c, ok := v.(*ssa.Call)
	if !ok {
		return ""
	}
	if op, ok := cellOpOf(c); ok && op.name == "Value.Load" {
		return rootKey(op.addr)
	}
	return ""
}

func init() {
	register("C19", "Functions that look up a key are summarised by the combinations of nil and success they give; on no path of any function is such a nil entry used, nor the nil stored for a deleted key, nor a nil table written; every constructor sets, on every path, the cells and pointers that operations use without a test, and fills the table of buckets.",
		func(P *Prog, eff *Effects, r *Report) {
			q := &absence{P: P, eff: eff, shapes: map[*ssa.Function]map[string][]types.Type{}, nilOf: map[string]bool{}, inited: map[string]bool{},
				reads: map[*ssa.Function]bool{}, need: map[string]ssa.Instruction{}, nilAt: map[string]bool{}, sites: map[ssa.Instruction]bool{}}
			q.run(r)
			r.searchIndices(P)
		})
}

func (q *absence) run(r *Report) {
	P, eff := q.P, q.eff
	for _, f := range P.fns {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if m, ok := i.(*ssa.MakeInterface); ok {
					if c, ok := m.X.(*ssa.Const); ok && c.IsNil() {
						q.nilOf[typeKey(m.X.Type())] = true
					}
				}
			}
		}
	}
	for _, k := range P.keyRoots(r) {
		if k.kind == "lookup" {
			for g := range eff.reachable(k.f) {
				q.reads[g] = true
			}
		}
	}
	// cells that constructors store
	nc := 0
	cells := q.cells()
	q.cellKeys = map[string]bool{}
	for _, key := range sortedInstrKeys(cells) {
		q.cellKeys[key] = true
		n, missing, fail := q.constructed(key, func(x *Exec, s *State, addr, v *Term) int {
			if x.u.evalEq(s, v, x.u.Nil) == 1 || v.Op == OIface && v.Args[0].Op == ONil {
				return -1
			}
			return 1
		})
		if fail != "" {
			r.violate(P.instrPos(cells[key]), fname(cells[key].Parent()), "incomplete", "analysis incomplete: "+fail, "")
		}
		if n > 0 && len(missing) == 0 {
			q.inited[key] = true
		}
		if cells[key].CommaOk {
			continue // a value that is not there is seen
		}
		if n == 0 {
			r.violate(P.instrPos(cells[key]), fname(cells[key].Parent()), ruleInit, "nothing sets "+key+", whose value is asserted to have a type", "")
		}
		for _, v := range missing {
			r.violate(v.Where, v.Func, v.Rule, v.What, v.Path)
		}
		r.obligation(fmt.Sprintf("%s is stored on every path of its constructors (%d objects)", key, n), len(missing) == 0 && n > 0)
		nc += n
	}
	r.need("constructed cells", nc)
	// result shapes
	q.quiet = true
	for n := 0; n < 8; n++ {
		changed := false
		for _, f := range P.fns {
			if !q.gives(f) {
				continue
			}
			sh, fail := q.shape(f)
			if fail != "" {
				r.violate(P.pos(f.Pos()), fname(f), "incomplete", "analysis incomplete: "+fail, "")
			}
			changed = changed || len(sh) != len(q.shapes[f])
			q.shapes[f] = sh
		}
		if !changed {
			break
		}
	}
	q.quiet = false
	lookups := 0
	for _, f := range P.fns {
		if sh := q.shapes[f]; sh != nil && q.byKey(f) {
			for k := range sh {
				if strings.Contains(k, "n") {
					lookups++
					break
				}
			}
		}
	}
	r.need("lookups that can give nil", lookups)
	for _, f := range P.fns {
		for k := range q.shapes[f] {
			if q.reads[f] && q.byKey(f) && strings.Contains(k, "n") && strings.Contains(k, "t") {
				r.violate(P.pos(f.Pos()), fname(f), ruleFound, fname(f)+" can give nil and success", "")
			}
		}
	}
	for _, f := range P.fns {
		if len(f.Blocks) == 0 {
			continue
		}
		before := len(q.bad)
		x := newExec(P, eff, q.client())
		x.runRoot(f)
		if len(x.incomplete) > 0 {
			r.violate(P.pos(f.Pos()), fname(f), "incomplete", "analysis incomplete: "+strings.Join(x.incomplete, "; "), "")
		}
		r.count("functions", 1)
		if len(q.bad) > before {
			r.obligation(fname(f)+": no nil is used", false)
		}
	}
	for _, v := range q.bad {
		r.violate(v.Where, v.Func, v.Rule, v.What, v.Path)
	}
	r.obligation(fmt.Sprintf("no nil of %d lookups is used at %d places", lookups, len(q.sites)), len(q.bad) == 0)
	// pointers that are used without a test
	np := 0
	for _, key := range sortedInstrKeys(q.need) {
		typ := strings.SplitN(key, ".", 2)[0]
		if typ != "Map" && typ != "RMap" {
			continue
		}
		n, missing, fail := q.constructed(key, func(x *Exec, s *State, addr, v *Term) int {
			if x.u.evalEq(s, v, x.u.Nil) == 1 {
				return -1
			}
			return 1
		})
		at := fmt.Sprintf(", used without a test at %s", P.instrPos(q.need[key]))
		if fail != "" {
			r.violate(P.instrPos(q.need[key]), fname(q.need[key].Parent()), "incomplete", "analysis incomplete: "+fail, "")
		}
		if n == 0 {
			r.violate(P.instrPos(q.need[key]), fname(q.need[key].Parent()), ruleInit, "nothing sets "+key+at, "")
		}
		for _, v := range missing {
			r.violate(v.Where, v.Func, v.Rule, v.What+at, v.Path)
		}
		nils := 0
		for _, f := range P.fns {
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					if s, ok := i.(*ssa.Store); ok && rootKey(s.Addr) == key && isNilConst(s.Val) {
						nils++
						r.violate(P.instrPos(i), fname(f), ruleInit, fname(f)+" sets "+key+" to nil"+at, "")
					}
				}
			}
		}
		r.obligation(fmt.Sprintf("%s is set on every path of its constructors (%d objects) and never set to nil", key, n), len(missing) == 0 && n > 0 && nils == 0)
		np += n
	}
	r.need("pointers used without a test", np)
	q.table(r)
	if dbg {
		for _, k := range sortedInstrKeys(q.need) {
			fmt.Fprintln(os.Stderr, "need", k, P.instrPos(q.need[k]))
		}
		fmt.Fprintln(os.Stderr, "cells", cells, "inited", q.inited)
	}
}

func sortedInstrKeys[T any](m map[string]T) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// table: the fields that are zero where no bucket is found are set in the table by the constructor.
func (q *absence) table(r *Report) {
	for _, f := range q.P.fns {
		rs := f.Signature.Results()
		if rs.Len() == 0 || !isPtrLike(rs.At(0).Type()) || !typeIs(rs.At(0).Type(), "skiplistmap", "bucket") || !q.byKey(f) {
			continue
		}
		writes := false
		for k := range q.eff.trans[f] {
			writes = writes || strings.HasPrefix(k, "bucket.")
		}
		if writes {
			continue
		}
		q.quiet = true
		x := newExec(q.P, q.eff, q.client())
		for _, o := range x.runRoot(f) {
			if o.rets[0].Op != ONil && x.u.evalEq(o.st, o.rets[0], x.u.Nil) != 1 {
				continue
			}
			for fa := range o.st.facts {
				if fa.op != '=' || fa.neg || fa.b == nil {
					continue
				}
				a, b := fa.a, fa.b
				if a.Op != OLoad {
					a, b = b, a
				}
				if a.Op == OLoad && a.Args[0].Op == OField && strings.HasPrefix(a.Args[0].Aux, "bucket.") && isIntConst(b) && b == x.u.int(0) {
					q.nilAt[a.Args[0].Aux] = true
				}
			}
		}
		q.quiet = false
	}
	mt := q.P.root.Type("Map")
	if mt == nil {
		r.violate("-", "Map", "anchor", "type not found", "")
		return
	}
	array := ""
	st := mt.Type().Underlying().(*types.Struct)
	for k := 0; k < st.NumFields(); k++ {
		if a, ok := st.Field(k).Type().Underlying().(*types.Array); ok && typeIs(types.NewPointer(a.Elem()), "skiplistmap", "bucket") {
			array = "Map." + st.Field(k).Name()
		}
	}
	for _, key := range sortedKeys(q.nilAt) {
		sets := map[*ssa.Function]bool{}
		for _, f := range q.P.fns {
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					var addr ssa.Value
					if s, ok := i.(*ssa.Store); ok {
						addr = s.Addr
					} else if op, ok := cellOpOf(i); ok && op.kind == "mutate" {
						addr = op.addr
					} else if c, ok := i.(*ssa.Call); ok && len(c.Call.Args) > 0 && c.Call.StaticCallee() != nil && q.eff.trans[c.Call.StaticCallee()][key] {
						if tableElem(c.Call.Args[0], array, map[ssa.Value]bool{}) {
							sets[f] = true
						}
						continue
					}
					if fa, ok := addr.(*ssa.FieldAddr); ok && addrKey(fa) == key && tableElem(fa.X, array, map[ssa.Value]bool{}) {
						sets[f] = true
					}
				}
			}
		}
		n, ok := 0, true
		for _, f := range q.P.fns {
			alloc := false
			through := []*ssa.BasicBlock{}
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					switch t := i.(type) {
					case *ssa.Alloc:
						alloc = alloc || t.Heap && types.Identical(deref(t.Type()), mt.Type())
					case *ssa.Call:
						g := t.Call.StaticCallee()
						if g == nil {
							continue
						}
						if sets[g] {
							through = append(through, b)
							continue
						}
						for h := range q.eff.reachable(g) {
							if sets[h] {
								through = append(through, b)
								break
							}
						}
					}
				}
			}
			if !alloc {
				continue
			}
			n++
			for _, b := range f.Blocks {
				if _, ret := b.Instrs[len(b.Instrs)-1].(*ssa.Return); !ret || sets[f] {
					continue
				}
				passed := false
				for _, t := range through {
					passed = passed || t.Dominates(b)
				}
				if !passed {
					ok = false
					r.violate(q.P.pos(f.Pos()), fname(f), ruleInit, fmt.Sprintf("%s can return a map whose table %s is not set up: no bucket is found while %s is 0", fname(f), array, key), "")
				}
			}
		}
		r.obligation(fmt.Sprintf("%d constructors set %s in %s before they return", n, key, array), ok && n > 0)
		r.need("constructors of the table of buckets", n)
	}
}

// tableElem: v is the address of an element of the array field.
func tableElem(v ssa.Value, field string, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch t := v.(type) {
	case *ssa.IndexAddr:
		fa, ok := t.X.(*ssa.FieldAddr)
		return ok && addrKey(fa) == field
	case *ssa.Phi:
		for _, e := range t.Edges {
			if tableElem(e, field, seen) {
				return true
			}
		}
	case *ssa.UnOp:
		if a, ok := t.X.(*ssa.Alloc); ok {
			for _, ref := range *a.Referrers() {
				if s, ok := ref.(*ssa.Store); ok && s.Addr == a && tableElem(s.Val, field, seen) {
					return true
				}
			}
		}
	}
	return false
}
