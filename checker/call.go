package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// lockOp recognises lock operations and the lock they act on.
func lockOp(c *ssa.CallCommon) (string, ssa.Value) {
	if c.IsInvoke() {
		n := c.Method.Name()
		sig := c.Method.Type().(*types.Signature)
		if sig.Params().Len() != 0 {
			return "", nil
		}
		switch n {
		case "Lock", "Unlock", "RLock", "RUnlock":
			if sig.Results().Len() == 0 {
				return n, c.Value
			}
		case "TryLock", "TryRLock":
			return n, c.Value
		}
		return "", nil
	}
	f := c.StaticCallee()
	if f == nil || len(c.Args) == 0 || f.Signature.Recv() == nil {
		return "", nil
	}
	pkg, recv, name := calleeName(f)
	if recv != "Mutex" && recv != "RWMutex" {
		return "", nil
	}
	if pkg != "sync" && !strings.HasSuffix(pkg, "/trylock") {
		return "", nil
	}
	switch name {
	case "Lock", "Unlock", "RLock", "RUnlock", "TryLock", "TryRLock":
		return name, c.Args[0]
	}
	return "", nil
}

func (x *Exec) mkCall(s *State, ctx *Ctx, i ssa.Instruction, cc *ssa.CallCommon) *Call {
	var args []*Term
	var ft *Term
	if cc.IsInvoke() {
		args = append(args, x.val(s, ctx, cc.Value))
	} else {
		ft = x.val(s, ctx, cc.Value)
	}
	for _, a := range cc.Args {
		args = append(args, x.val(s, ctx, a))
	}
	return x.callOf(ctx, i, cc, ft, args)
}

func (x *Exec) callOf(ctx *Ctx, i ssa.Instruction, cc *ssa.CallCommon, ft *Term, args []*Term) *Call {
	c := &Call{instr: i, common: cc, fterm: ft, args: args, ctx: ctx, sig: cc.Signature()}
	if cc.IsInvoke() {
		c.method = cc.Method
	} else if ft != nil && (ft.Op == OFunc || ft.Op == OClosure) {
		c.fn = ft.Fn
	}
	return c
}

func (x *Exec) freshRets(s *State, c *Call, tag string) []*Term {
	var r []*Term
	rs := c.sig.Results()
	for k := 0; k < rs.Len(); k++ {
		r = append(r, x.newSym(s, c.instr, c.ctx, fmt.Sprintf("%s%d", tag, k), rs.At(k).Type(), "result of "+c.name()+" at "+x.P.instrPos(c.instr)))
	}
	return r
}

func (c *Call) name() string {
	switch {
	case c.method != nil:
		return c.method.Name()
	case c.fn != nil:
		return fname(c.fn)
	case c.common.Value != nil:
		return c.common.Value.Name()
	}
	return "?"
}

func (x *Exec) opaqueCall(s *State, c *Call, tag string) []*Outcome {
	return []*Outcome{{s, x.freshRets(s, c, tag)}}
}

// itemMethod: name of the entry interface method a call resolves to, or "".
func (x *Exec) itemMethod(c *Call) string {
	if c.method != nil {
		if typeIs(c.method.Type().(*types.Signature).Recv().Type(), "skiplistmap", "MapItem") ||
			typeIs(c.method.Type().(*types.Signature).Recv().Type(), "skiplistmap", "HMapEntry") {
			return c.method.Name()
		}
		return ""
	}
	if c.fn == nil || c.fn.Signature.Recv() == nil {
		return ""
	}
	return x.eff.itemImpl(c.fn)
}

// itemImpl: the entry interface method implemented by f, or "".
func (e *Effects) itemImpl(f *ssa.Function) string {
	if e.itemImpls == nil {
		e.itemImpls = map[*ssa.Function]string{}
		t := e.P.root.Type("MapItem")
		if t != nil {
			if it, ok := t.Type().Underlying().(*types.Interface); ok {
				for i := 0; i < it.NumMethods(); i++ {
					m := it.Method(i)
					for _, g := range e.implementersOf(it, m) {
						e.itemImpls[g] = m.Name()
					}
				}
			}
		}
	}
	return e.itemImpls[f]
}

func (e *Effects) implementersOf(it *types.Interface, m *types.Func) []*ssa.Function {
	var res []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, p := range e.P.ssapkgs {
		for _, mem := range p.Members {
			t, ok := mem.(*ssa.Type)
			if !ok || types.IsInterface(t.Type()) {
				continue
			}
			tt := types.NewPointer(t.Type())
			if !types.Implements(tt, it) {
				continue
			}
			sel := e.P.prog.MethodSets.MethodSet(tt).Lookup(m.Pkg(), m.Name())
			if sel == nil {
				continue
			}
			// the declared method, also when it is promoted
			f := e.P.prog.FuncValue(sel.Obj().(*types.Func))
			for _, g := range []*ssa.Function{f, e.P.prog.MethodValue(sel)} {
				if g != nil && !seen[g] {
					seen[g] = true
					res = append(res, g)
				}
			}
		}
	}
	sort.Slice(res, func(i, j int) bool { return res[i].Pos() < res[j].Pos() })
	return res
}

func (x *Exec) call(s *State, c *Call) []*Outcome {
	x.calls++
	if x.cl.onCall != nil {
		if o, done := x.cl.onCall(x, s, c); done {
			return o
		}
	}
	if b, ok := c.common.Value.(*ssa.Builtin); ok && c.method == nil {
		return x.builtin(s, c, b.Name())
	}
	if k, _ := lockOp(c.common); k != "" && len(c.args) > 0 {
		return x.lock(s, c, k)
	}
	if c.method != nil {
		return x.invoke(s, c)
	}
	if c.fn == nil {
		// unknown function value
		if c.fterm != nil {
			x.deref(s, c.fterm, c.instr, c.ctx)
		}
		for _, a := range c.args {
			x.escapeVal(s, a, c.instr, c.ctx)
		}
		x.opaque["function value "+c.fterm.String()]++
		return x.opaqueCall(s, c, "dyn")
	}
	if x.P.inMod[c.fn] {
		return x.moduleCall(s, c)
	}
	if len(c.fn.Blocks) > 0 && c.fn.Synthetic != "" && c.ctx.depth < x.cl.maxDepth {
		// bound methods and wrappers
		return x.inline(s, c)
	}
	return x.external(s, c)
}

func (x *Exec) inline(s *State, c *Call) []*Outcome {
	var free []*Term
	if c.fterm != nil && c.fterm.Op == OClosure {
		free = c.fterm.Args
	}
	return x.run(c.fn, c.args, free, s, x.ctx(c.ctx, c.instr, c.fn))
}

func (x *Exec) lock(s *State, c *Call, kind string) []*Outcome {
	mu := c.args[0]
	x.deref(s, mu, c.instr, c.ctx)
	if x.cl.onLock != nil {
		if o, ok := x.cl.onLock(x, s, kind, mu, c); ok {
			return o
		}
	}
	if strings.HasPrefix(kind, "Try") {
		t := s.clone()
		return []*Outcome{{t, []*Term{x.u.True}}, {s, []*Term{x.u.Fals}}}
	}
	return []*Outcome{{s, nil}}
}

func onStack(ctx *Ctx, f *ssa.Function) bool {
	for k := ctx; k != nil; k = k.parent {
		if k.fn == f {
			return true
		}
	}
	return false
}

func (x *Exec) readsHeap(f *ssa.Function) bool {
	if r, ok := x.heapMemo[f]; ok {
		return r
	}
	r := false
	seen := map[*ssa.Function]bool{}
	var walk func(g *ssa.Function)
	walk = func(g *ssa.Function) {
		if seen[g] || r {
			return
		}
		seen[g] = true
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				switch t := i.(type) {
				case *ssa.UnOp:
					if t.Op == token.MUL && !isLocalRoot(t.X) {
						r = true
						return
					}
				case *ssa.Lookup, *ssa.Call:
					if ci, ok := i.(*ssa.Call); ok {
						if _, b := ci.Call.Value.(*ssa.Builtin); b {
							continue
						}
						sc := ci.Call.StaticCallee()
						if sc != nil && x.P.inMod[sc] {
							continue
						}
						if sc != nil {
							p, _, _ := calleeName(sc)
							if p == "math/bits" {
								continue
							}
						}
					}
					r = true
					return
				}
			}
		}
		for _, c := range x.eff.callees[g] {
			walk(c)
		}
	}
	walk(f)
	x.heapMemo[f] = r
	return r
}

// opaqueModule: the effects of a module function that is not entered.
func (x *Exec) opaqueModule(s *State, c *Call) []*Outcome {
	x.opaque[fname(c.fn)]++
	if x.pure(c.fn) {
		if !x.readsHeap(c.fn) && c.sig.Results().Len() > 0 && c.fterm.Op == OFunc {
			var r []*Term
			for k := 0; k < c.sig.Results().Len(); k++ {
				r = append(r, x.u.mk(OPCall, fmt.Sprintf("%s#%d", fname(c.fn), k), c.sig.Results().At(k).Type(), c.args...))
				if x.neverNil(c.fn, k, map[*ssa.Function]bool{}) {
					s.addFact(eqFact(r[k], x.u.Nil, true))
				}
			}
			return []*Outcome{{s, r}}
		}
		o := &Outcome{s, x.freshRets(s, c, "ret")}
		x.passThrough(c, o)
		if x.cl.onPrune != nil {
			x.cl.onPrune(x, s, c, o)
		}
		return []*Outcome{o}
	}
	for _, a := range c.args {
		x.escapeVal(s, a, c.instr, c.ctx)
	}
	if c.fterm.Op == OClosure {
		x.escapeVal(s, c.fterm, c.instr, c.ctx)
	}
	x.havocKeys(s, x.eff.trans[c.fn], c.instr, c.ctx)
	o := &Outcome{s, x.freshRets(s, c, "ret")}
	x.passThrough(c, o)
	for k, rt := range o.rets {
		if x.neverNil(c.fn, k, map[*ssa.Function]bool{}) {
			s.addFact(eqFact(rt, x.u.Nil, true))
		}
	}
	if x.cl.onPrune != nil {
		x.cl.onPrune(x, s, c, o)
	}
	return []*Outcome{o}
}

func (x *Exec) moduleCall(s *State, c *Call) []*Outcome {
	if x.cl.noInline != nil && x.cl.noInline(c.fn) && !x.tiny(c.fn, 0) && !(smallPanicker(c.fn) && x.pure(c.fn)) {
		return x.opaqueModule(s, c)
	}
	rel := x.isRelevant(c.fn)
	if onStack(c.ctx, c.fn) || x.cl.summaries && x.scc[c.fn] && rel {
		if rel && x.cl.summaries {
			return x.useSummary(s, c)
		}
		if x.cl.onRecursion != nil {
			if o, ok := x.cl.onRecursion(x, s, c); ok {
				return o
			}
		}
		return x.opaqueModule(s, c)
	}
	if !rel && !smallPanicker(c.fn) && !x.tiny(c.fn, 0) {
		return x.opaqueModule(s, c)
	}
	if c.ctx.depth >= x.cl.maxDepth {
		x.fail("call depth exceeded in " + c.ctx.chain())
		return x.opaqueModule(s, c)
	}
	return x.inline(s, c)
}

// tiny: straight-line functions without effects, whose results are better expressed by their arguments.
func (x *Exec) tiny(f *ssa.Function, depth int) bool {
	if len(f.Blocks) != 1 || len(f.Blocks[0].Instrs) > 12 || depth > 4 || x.cl.volatile && x.readsHeap(f) || !x.pure(f) {
		return false
	}
	for _, i := range f.Blocks[0].Instrs {
		if ci, ok := i.(ssa.CallInstruction); ok {
			if op, ok := cellOpOf(i); ok && (op.kind == "load") {
				continue
			}
			if isElemStep(i) {
				continue
			}
			g := ci.Common().StaticCallee()
			if g == nil || !x.P.inMod[g] || !(smallPanicker(g) && x.pure(g)) && !x.tiny(g, depth+1) {
				return false
			}
		}
	}
	return true
}

func (x *Exec) invoke(s *State, c *Call) []*Outcome {
	recv := c.args[0]
	x.deref(s, recv, c.instr, c.ctx)
	if m := x.itemMethod(c); m != "" {
		return x.itemCall(s, c, m)
	}
	// dispatch on a known receiver
	if recv.Op == OAlloc || recv.Op == OIface {
		t := recv.Typ
		if t != nil {
			if sel := x.P.prog.MethodSets.MethodSet(t).Lookup(c.method.Pkg(), c.method.Name()); sel != nil {
				if f := x.P.prog.MethodValue(sel); f != nil && x.P.inMod[f] {
					args := append([]*Term(nil), c.args...)
					if recv.Op == OIface {
						args[0] = recv.Args[0]
					}
					d := *c
					d.fn, d.method, d.args = f, nil, args
					d.fterm = x.u.fn(f)
					return x.moduleCall(s, &d)
				}
			}
		}
	}
	for _, f := range x.eff.implementers(c.method) {
		x.havocKeys(s, x.eff.trans[f], c.instr, c.ctx)
	}
	for _, a := range c.args[1:] {
		x.escapeVal(s, a, c.instr, c.ctx)
	}
	return x.opaqueCall(s, c, "inv")
}

// itemCall models the methods of the entry interface. The address of an entry
// and the address of its embedded heads are the same term.
func (x *Exec) itemCall(s *State, c *Call, m string) []*Outcome {
	u := x.u
	recv := c.args[0]
	switch m {
	case "PtrMapHead", "PtrListHead":
		return []*Outcome{{s, []*Term{recv}}}
	case "HmapEntryFromListHead":
		s.addFact(eqFact(c.args[1], u.Nil, true)) // an interface with a type
		return []*Outcome{{s, []*Term{c.args[1]}}}
	case "Offset":
		return x.opaqueCall(s, c, "off")
	case "Next", "Prev":
		if x.cl.volatile {
			return x.opaqueCall(s, c, "nav")
		}
		return []*Outcome{{s, []*Term{x.pcall(s, m, c, recv)}}}
	case "Key", "Value":
		if x.cl.volatile {
			return x.opaqueCall(s, c, "kv")
		}
		if m == "Key" {
			return []*Outcome{{s, []*Term{u.mk(OPCall, m, nil, recv)}}} // set once
		}
		return []*Outcome{{s, []*Term{x.pcall(s, m, c, recv)}}}
	case "KeyHash":
		k := u.mk(OPCall, "Key", nil, recv)
		return []*Outcome{{s, []*Term{u.mk(OPCall, "KeyToHash#0", types.Typ[types.Uint64], k), u.mk(OPCall, "KeyToHash#1", types.Typ[types.Uint64], k)}}}
	case "SetValue", "Delete":
		for _, f := range x.eff.implementersByName(m) {
			x.havocKeys(s, x.eff.trans[f], c.instr, c.ctx)
		}
		return x.opaqueCall(s, c, "mut")
	}
	return x.opaqueCall(s, c, "item")
}

func (e *Effects) implementersByName(m string) []*ssa.Function {
	e.itemImpl(nil)
	var r []*ssa.Function
	for f, n := range e.itemImpls {
		if n == m && e.P.inMod[f] {
			r = append(r, f)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Pos() < r[j].Pos() })
	return r
}

func (x *Exec) pcall(s *State, name string, c *Call, args ...*Term) *Term {
	var t types.Type
	if c.sig.Results().Len() > 0 {
		t = c.sig.Results().At(0).Type()
	}
	if ep := s.havoc["link"]; ep != nil {
		args = append(append([]*Term(nil), args...), ep)
	}
	return x.u.mk(OPCall, name, t, args...)
}

func (x *Exec) builtin(s *State, c *Call, name string) []*Outcome {
	u := x.u
	ret := func(t *Term) []*Outcome { return []*Outcome{{s, []*Term{t}}} }
	it := types.Typ[types.Int]
	switch name {
	case "len", "cap":
		a := c.args[0]
		switch c.common.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			if name == "len" {
				return ret(u.slicePart(a, 1))
			}
			return ret(u.slicePart(a, 2))
		case *types.Array:
			return ret(u.int(c.common.Args[0].Type().Underlying().(*types.Array).Len()))
		case *types.Pointer:
			if at, ok := deref(c.common.Args[0].Type()).Underlying().(*types.Array); ok {
				return ret(u.int(at.Len()))
			}
		}
		if x.cl.volatile {
			return ret(x.newSym(s, c.instr, c.ctx, "len", it, "len"))
		}
		return ret(u.mk(OPCall, name, it, a))
	case "append":
		a := c.args[0]
		for _, b := range c.args[1:] {
			x.escape(s, b)
		}
		d := x.newSym(s, c.instr, c.ctx, "append", nil, "appended slice")
		l := x.newSym(s, c.instr, c.ctx, "appendlen", it, "length after append")
		_ = a
		s.addFact(eqFact(d, u.Nil, true))
		return ret(u.mk(OStruct, "slice", c.sig.Results().At(0).Type(), d, l, x.newSym(s, c.instr, c.ctx, "appendcap", it, "cap")))
	case "copy":
		if st, ok := c.common.Args[0].Type().Underlying().(*types.Slice); ok {
			keys := map[string]bool{"elem:" + typeKey(st.Elem()): true, "deref:" + typeKey(st.Elem()): true}
			x.fieldKeys(st.Elem(), keys)
			x.havocKeys(s, keys, c.instr, c.ctx)
			r := rootOf(u.slicePart(c.args[0], 0))
			for k := range s.mem {
				if rootOf(k) == r {
					delete(s.mem, k)
				}
			}
			delete(s.fresh, r)
		}
		return ret(x.newSym(s, c.instr, c.ctx, "copied", it, "copied"))
	case "delete":
		for k := range s.mem {
			if k.Op == OPCall && k.Aux == "mapcell" && k.Args[0] == c.args[0] {
				delete(s.mem, k)
			}
		}
		return []*Outcome{{s, nil}}
	case "Add":
		return ret(x.ptrAdd(c.args[0], c.args[1], c.common.Args[0]))
	case "String", "StringData", "Slice", "SliceData":
		return x.opaqueCall(s, c, "b"+name)
	case "min", "max":
		return x.opaqueCall(s, c, "b"+name)
	case "ssa:wrapnilchk":
		return ret(c.args[0])
	case "recover":
		return ret(u.Nil)
	}
	return x.opaqueCall(s, c, "b"+name)
}

func (x *Exec) fieldKeys(t types.Type, keys map[string]bool) {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		k, id, f := fieldKey(t, i)
		if isElist(f.Type()) || isLoncha(f.Type()) {
			keys["link"] = true
			continue
		}
		if id {
			x.fieldKeys(f.Type(), keys)
			continue
		}
		keys[k] = true
	}
}

// ptrAdd models unsafe.Add and equivalent uintptr arithmetic.
func (x *Exec) ptrAdd(p, n *Term, pv ssa.Value) *Term {
	u := x.u
	var st types.Type
	if pv != nil {
		if t, ok := stripConv(pv).Type().Underlying().(*types.Pointer); ok {
			st = t.Elem()
		}
	}
	if st == nil && p.Typ != nil {
		if t, ok := p.Typ.Underlying().(*types.Pointer); ok {
			st = t.Elem()
		}
	}
	if off, ok := isInt(n); ok {
		if off == 0 {
			return p
		}
		if st != nil && off > 0 {
			if f := u.fieldAt(p, st, off); f != nil {
				return f
			}
		}
		return u.mk(OPtrAdd, "", nil, p, n)
	}
	i, size, off := splitIndex(n)
	if size > 0 {
		et := x.typeOfSize(size, st)
		var pt types.Type
		if et != nil {
			pt = types.NewPointer(et)
		}
		e := u.elem(p, i, pt)
		if off == 0 {
			return e
		}
		if et != nil {
			if f := u.fieldAt(e, et, off); f != nil {
				return f
			}
		}
		return u.mk(OPtrAdd, "", nil, e, u.int(off))
	}
	return u.mk(OPtrAdd, "", nil, p, n)
}

func splitIndex(n *Term) (i *Term, size, off int64) {
	if n.Op == OBin && n.Aux == "+" {
		if k, ok := isInt(n.Args[1]); ok {
			i, size, _ := splitIndex(n.Args[0])
			return i, size, k
		}
	}
	if n.Op == OConv {
		return splitIndex(n.Args[0])
	}
	if n.Op == OBin && n.Aux == "*" {
		if k, ok := isInt(n.Args[1]); ok {
			return n.Args[0], k, 0
		}
	}
	return nil, 0, 0
}

func (x *Exec) typeOfSize(size int64, pref types.Type) types.Type {
	if pref != nil && x.P.sizes.Sizeof(pref) == size {
		return pref
	}
	var r types.Type
	for _, p := range x.P.ssapkgs {
		var ns []string
		for n := range p.Members {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			if t, ok := p.Members[n].(*ssa.Type); ok {
				if s, ok := t.Type().Underlying().(*types.Struct); ok && s.NumFields() > 1 && x.P.sizes.Sizeof(s) == size {
					if isSampleT(t.Type()) {
						return t.Type()
					}
					if r == nil {
						r = t.Type()
					}
				}
			}
		}
	}
	return r
}

// fieldAt returns the field of *p (of struct type st) at byte offset off.
func (u *Univ) fieldAt(p *Term, st types.Type, off int64) *Term {
	s, ok := st.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		o := u.offset(s, i)
		ft := s.Field(i).Type()
		sz := u.P.sizes.Sizeof(ft)
		if off == o {
			if fs, ok := ft.Underlying().(*types.Struct); !ok || opaqueStruct(ft) || isElist(ft) || isLoncha(ft) || fs.NumFields() == 0 {
				return u.field(p, st, i)
			}
			// the first field of an embedded struct, or the struct itself: the struct
			return u.field(p, st, i)
		}
		if off > o && off < o+sz {
			if _, ok := ft.Underlying().(*types.Struct); ok {
				return u.fieldAt(u.field(p, st, i), ft, off-o)
			}
		}
	}
	return nil
}

func (x *Exec) external(s *State, c *Call) []*Outcome {
	u := x.u
	pkg, recv, name := calleeName(c.fn)
	ret := func(t *Term) []*Outcome { return []*Outcome{{s, []*Term{t}}} }
	switch {
	case pkg == "math/bits" && name == "Reverse64":
		return ret(u.rev(c.args[0]))
	case pkg == "math/bits":
		return ret(u.mk(OPCall, "bits."+name, c.sig.Results().At(0).Type(), c.args...))
	case pkg == "sync/atomic":
		return x.atomicOp(s, c, recv, name)
	case c.fn.Object() != nil && isListPkg(c.fn.Object().Pkg()):
		return x.listOp(s, c, recv, name)
	}
	for _, a := range c.args {
		x.escapeVal(s, a, c.instr, c.ctx)
	}
	return x.opaqueCall(s, c, "ext")
}

func (x *Exec) atomicOp(s *State, c *Call, recv, name string) []*Outcome {
	u := x.u
	addr := c.args[0]
	x.deref(s, addr, c.instr, c.ctx)
	vt := types.Type(types.NewInterfaceType(nil, nil))
	if recv == "" {
		vt = deref(c.common.Args[0].Type())
	} else if recv == "Value" {
	} else if c.sig.Results().Len() > 0 {
		vt = c.sig.Results().At(0).Type()
	}
	sharedCell := !(rootOf(addr).Op == OAlloc && s.fresh[rootOf(addr)])
	switch {
	case strings.HasPrefix(name, "Load"):
		return []*Outcome{{s, []*Term{x.loadCell(s, addr, vt, c.instr, c.ctx)}}}
	case strings.HasPrefix(name, "Store"):
		x.storeCell(s, addr, c.args[1], c.instr, c.ctx)
		return []*Outcome{{s, nil}}
	case strings.HasPrefix(name, "Add"):
		old := x.loadCell(s, addr, vt, c.instr, c.ctx)
		n := u.bin(token.ADD, old, c.args[1], vt)
		x.storeCell(s, addr, n, c.instr, c.ctx)
		return []*Outcome{{s, []*Term{n}}}
	case strings.HasPrefix(name, "CompareAndSwap"):
		old := x.loadCell(s, addr, vt, c.instr, c.ctx)
		f := s.clone()
		var r []*Outcome
		eq := u.bin(token.EQL, old, c.args[1], vt)
		if u.assume(s, eq, true) {
			x.storeCell(s, addr, c.args[2], c.instr, c.ctx)
			s.note(x.P.instrPos(c.instr) + " swapped")
			r = append(r, &Outcome{s, []*Term{u.True}})
		}
		if sharedCell || u.assume(f, eq, false) {
			f.note(x.P.instrPos(c.instr) + " not swapped")
			r = append(r, &Outcome{f, []*Term{u.Fals}})
		}
		return r
	case strings.HasPrefix(name, "Swap"):
		old := x.loadCell(s, addr, vt, c.instr, c.ctx)
		x.storeCell(s, addr, c.args[1], c.instr, c.ctx)
		return []*Outcome{{s, []*Term{old}}}
	case name == "And" || name == "Or" || strings.HasPrefix(name, "And") || strings.HasPrefix(name, "Or"):
		old := x.loadCell(s, addr, vt, c.instr, c.ctx)
		op := token.OR
		if strings.HasPrefix(name, "And") {
			op = token.AND
		}
		x.storeCell(s, addr, u.bin(op, old, c.args[1], vt), c.instr, c.ctx)
		return x.opaqueCall(s, c, "at")
	}
	return x.opaqueCall(s, c, "at")
}

func (x *Exec) listOp(s *State, c *Call, recv, name string) []*Outcome {
	if recv == "ListHead" && len(c.args) > 0 {
		x.deref(s, c.args[0], c.instr, c.ctx)
	}
	if listMutators[name] {
		x.havocKeys(s, map[string]bool{"link": true}, c.instr, c.ctx)
		return x.opaqueCall(s, c, "mut")
	}
	if c.sig.Results().Len() == 1 && recv == "ListHead" && !x.cl.volatile {
		return []*Outcome{{s, []*Term{x.pcall(s, name, c, c.args[0])}}}
	}
	return x.opaqueCall(s, c, "list")
}

// ---- summaries of recursive functions

type sumOut struct {
	toks  map[Tok]struct{}
	rets  []*Term
	facts map[Fact]struct{}
}

type summary struct {
	fn      *ssa.Function
	outs    []*sumOut
	keys    map[string]bool
	running bool
	stale   bool // to be solved again
	dep     bool // used a summary that was not finished
}

func (x *Exec) useSummary(s *State, c *Call) []*Outcome {
	u := x.u
	// abstract the arguments
	params := make([]*Term, len(c.args))
	m := map[*Term]*Term{}    // actual -> parameter
	back := map[*Term]*Term{} // parameter -> actual
	var keyp []string
	key := fmt.Sprintf("%d", u.pid(c.fn))
	free := []*Term(nil)
	if c.fterm.Op == OClosure {
		free = c.fterm.Args
		for _, f := range free {
			key += fmt.Sprintf("|fv%d", f.ID)
		}
	}
	var nonnil []*Term
	for i, a := range c.args {
		if isKeyConst(a) {
			params[i] = a
			keyp = append(keyp, keyConst(a))
			continue
		}
		if p, ok := m[a]; ok {
			params[i] = p
			keyp = append(keyp, fmt.Sprintf("same%d", p.ID))
			continue
		}
		nn := u.evalEq(s, a, u.Nil)
		tag := [...]string{"nonnil", "any", "nil"}[nn+1]
		var typ types.Type
		if i < len(c.fn.Params) {
			typ = c.fn.Params[i].Type()
		}
		p := u.sym(fmt.Sprintf("sum:%d:%d:%s", u.pid(c.fn), i, tag), typ, "argument "+c.fn.Params[i].Name())
		params[i] = p
		m[a] = p
		back[p] = a
		if nn == -1 {
			nonnil = append(nonnil, p)
		}
		keyp = append(keyp, tag)
	}
	// client facts on arguments go in
	in := map[Tok]struct{}{}
	frame := map[Tok]struct{}{}
	memo := map[*Term]*Term{}
	isParam := func(t *Term) bool {
		if t == nil {
			return false
		}
		for p := range back {
			if t.mentions(p.ID) {
				return true
			}
		}
		return false
	}
	for t := range s.toks {
		n := t
		if t.a != nil {
			n.a = u.subst(t.a, m, memo)
		}
		if t.b != nil {
			n.b = u.subst(t.b, m, memo)
		}
		if isParam(n.a) || isParam(n.b) {
			in[n] = struct{}{}
		} else {
			frame[t] = struct{}{}
		}
	}
	st0 := newState()
	st0.toks = cp(in)
	key += "|" + strings.Join(keyp, ",") + "|" + st0.tokKey()
	sm := x.sums[key]
	if sm == nil {
		sm = &summary{fn: c.fn, keys: map[string]bool{}}
		x.sums[key] = sm
		x.solve(sm, params, free, in, nonnil)
	} else if !sm.running && sm.stale {
		x.solve(sm, params, free, in, nonnil)
	} else if sm.running {
		x.sumUsed = true
	}
	var res []*Outcome
	for oi, o := range sm.outs {
		t := s
		if oi < len(sm.outs)-1 {
			t = s.clone()
		}
		// fresh names for everything local to the callee
		rn := map[*Term]*Term{}
		for p, a := range back {
			rn[p] = a
		}
		var collect func(q *Term)
		collect = func(q *Term) {
			if q == nil {
				return
			}
			if q.Op == OSym || q.Op == OAlloc {
				if _, ok := rn[q]; !ok {
					rn[q] = x.newSym(t, c.instr, c.ctx, fmt.Sprintf("sum%d:%d", oi, q.ID), q.Typ, q.Desc)
				}
				return
			}
			for _, a := range q.Args {
				collect(a)
			}
		}
		for _, r := range o.rets {
			collect(r)
		}
		for k := range o.toks {
			collect(k.a)
			collect(k.b)
		}
		mm := map[*Term]*Term{}
		t.toks = cp(frame)
		for k := range o.toks {
			n := k
			if k.a != nil {
				n.a = u.subst(k.a, rn, mm)
			}
			if k.b != nil {
				n.b = u.subst(k.b, rn, mm)
			}
			t.toks[n] = struct{}{}
		}
		var rets []*Term
		for _, r := range o.rets {
			rets = append(rets, u.subst(r, rn, mm))
		}
		for f := range o.facts {
			if nf, ok := u.renameFact(f, rn, mm); ok {
				t.addFact(nf)
			}
		}
		for _, a := range c.args {
			x.escapeVal(t, a, c.instr, c.ctx)
		}
		x.havocKeys(t, x.eff.trans[c.fn], c.instr, c.ctx)
		t.note(x.P.instrPos(c.instr) + " " + fname(c.fn))
		res = append(res, &Outcome{t, rets})
	}
	return res
}

func (x *Exec) solve(sm *summary, params, free []*Term, in map[Tok]struct{}, nonnil []*Term) {
	sm.running = true
	sm.stale = false
	outer := x.sumUsed
	any := false
	for iter := 0; ; iter++ {
		if iter > 12 {
			x.fail("summary of " + fname(sm.fn) + " does not converge")
			break
		}
		x.sumUsed = false
		grow := x.sumGrow
		st := newState()
		st.toks = cp(in)
		for _, p := range nonnil {
			st.addFact(eqFact(p, x.u.Nil, true))
		}
		ctx := x.ctx(nil, nil, sm.fn)
		for _, o := range x.run(sm.fn, params, free, st, ctx) {
			so := &sumOut{toks: o.st.toks, rets: o.rets, facts: map[Fact]struct{}{}}
			for _, r := range o.rets {
				if e := x.u.evalEq(o.st, r, x.u.Nil); e != 0 && r.Op == OSym {
					so.facts[eqFact(r, x.u.Nil, e == -1)] = struct{}{}
				}
			}
			k := x.outKey(o, params)
			if !sm.keys[k] {
				sm.keys[k] = true
				sm.outs = append(sm.outs, so)
				x.sumGrow++
			}
		}
		any = any || x.sumUsed
		if x.sumGrow == grow || !x.sumUsed {
			break
		}
		for _, o := range x.sums {
			if o.dep && !o.running {
				o.stale = true
			}
		}
	}
	sm.running = false
	sm.dep = any
	x.sumUsed = outer || any
}

// outKey identifies an outcome up to the names of local symbols.
func (x *Exec) outKey(o *Outcome, params []*Term) string {
	num := map[*Term]int{}
	ispar := map[*Term]bool{}
	for _, p := range params {
		ispar[p] = true
	}
	var show func(t *Term) string
	show = func(t *Term) string {
		if t == nil {
			return "-"
		}
		if ispar[t] || t.Op == OConst || t.Op == ONil || t.Op == OFunc || t.Op == OGlobal {
			return fmt.Sprintf("=%d", t.ID)
		}
		if t.Op == OSym || t.Op == OAlloc {
			if num[t] == 0 {
				num[t] = len(num) + 1
			}
			return fmt.Sprintf("s%d", num[t])
		}
		r := fmt.Sprintf("%d%s(", t.Op, t.Aux)
		for _, a := range t.Args {
			r += show(a) + ","
		}
		return r + ")"
	}
	r := ""
	for _, t := range o.rets {
		r += show(t) + fmt.Sprint(x.u.evalEq(o.st, t, x.u.Nil)) + ";"
	}
	var ts []string
	for t := range o.st.toks {
		ts = append(ts, t.kind+":"+show(t.a)+":"+show(t.b))
	}
	sort.Strings(ts)
	return r + "|" + strings.Join(ts, ";")
}

// neverNil: result k of f is an interface made from a value, or an allocated object, on every return.
func (x *Exec) neverNil(f *ssa.Function, k int, seen map[*ssa.Function]bool) bool {
	if f == nil || len(f.Blocks) == 0 || seen[f] || k >= f.Signature.Results().Len() {
		return false
	}
	seen[f] = true
	defer delete(seen, f)
	if !isPtrLike(f.Signature.Results().At(k).Type()) {
		return false
	}
	n := 0
	var ok func(v ssa.Value, d int) bool
	ok = func(v ssa.Value, d int) bool {
		if d > 6 {
			return false
		}
		switch y := v.(type) {
		case *ssa.MakeInterface:
			return true
		case *ssa.Alloc:
			return y.Heap
		case *ssa.ChangeInterface:
			return ok(y.X, d+1)
		case *ssa.Phi:
			for _, e := range y.Edges {
				if !ok(e, d+1) {
					return false
				}
			}
			return true
		case *ssa.Call:
			return y.Call.Signature().Results().Len() == 1 && x.neverNil(y.Call.StaticCallee(), 0, seen)
		}
		return false
	}
	for _, b := range f.Blocks {
		if rt, isRet := b.Instrs[len(b.Instrs)-1].(*ssa.Return); isRet {
			if k >= len(rt.Results) || !ok(rt.Results[k], 0) {
				return false
			}
			n++
		}
	}
	return n > 0 && f.Recover == nil
}

// passThrough: results that are always the same parameter, or the same field
// of what it points to.
func (x *Exec) passThrough(c *Call, o *Outcome) {
	for k := range o.rets {
		var res *Term
		same := true
		for _, b := range c.fn.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && k < len(ret.Results) {
				t := x.partOfParam(c, ret.Results[k])
				if t == nil || res != nil && res != t {
					same = false
					break
				}
				res = t
			}
		}
		if same && res != nil {
			o.rets[k] = res
		}
	}
}

func (x *Exec) partOfParam(c *Call, v ssa.Value) *Term {
	switch y := v.(type) {
	case *ssa.ChangeType:
		return x.partOfParam(c, y.X)
	case *ssa.FieldAddr:
		if b := x.partOfParam(c, y.X); b != nil && b.Op != ONil {
			return x.u.field(b, deref(y.X.Type()), y.Field)
		}
	case *ssa.Parameter:
		for i, q := range c.fn.Params {
			if q == y && i < len(c.args) {
				return c.args[i]
			}
		}
	}
	return nil
}
