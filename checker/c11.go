package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// lin is an address or integer: base + c + sum(coeff_i * unknown_i).
type lin struct {
	base   ssa.Value  // root of the address, nil for plain integers
	typ    types.Type // type of the object base points to, nil if unknown
	c      int64
	coeffs []int64
}

type ptrEval struct {
	P     *Prog
	eff   *Effects
	sites map[*ssa.Function][]callSite
	elem  map[string]types.Type // slice mirror type -> element type
}

type linEnv struct {
	args map[ssa.Value]ssa.Value
	up   *linEnv
}

func abs64(i int64) int64 {
	if i < 0 {
		return -i
	}
	return i
}

func isUnsafePtr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.UnsafePointer
}

func ptrElem(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

// eval gives the possible forms of an address or offset.
func (e *ptrEval) eval(v ssa.Value, env *linEnv, d int) []lin {
	root := []lin{{base: v, typ: ptrElem(v.Type())}}
	if d > 14 {
		return root
	}
	switch t := v.(type) {
	case *ssa.Const:
		if t.Value == nil {
			return []lin{{c: 0}}
		}
		if t.Value.Kind() == constant.Int {
			if n, ok := constant.Int64Val(t.Value); ok {
				return []lin{{c: n}}
			}
		}
		return []lin{{coeffs: []int64{1}}}
	case *ssa.Convert:
		return e.eval(t.X, env, d+1)
	case *ssa.ChangeType:
		return e.eval(t.X, env, d+1)
	case *ssa.FieldAddr:
		st := deref(t.X.Type())
		off := (&Univ{P: e.P}).offset(st.Underlying().(*types.Struct), t.Field)
		var r []lin
		for _, b := range e.eval(t.X, env, d+1) {
			if b.base == nil || b.typ == nil {
				return []lin{{base: v, typ: ptrElem(v.Type())}}
			}
			b.c += off
			r = append(r, b)
		}
		return r
	case *ssa.BinOp:
		as, bs := e.eval(t.X, env, d+1), e.eval(t.Y, env, d+1)
		var r []lin
		for _, a := range as {
			for _, b := range bs {
				switch {
				case t.Op == token.ADD:
					n := lin{a.base, a.typ, a.c + b.c, append(append([]int64(nil), a.coeffs...), b.coeffs...)}
					if n.base == nil {
						n.base, n.typ = b.base, b.typ
					}
					r = append(r, n)
				case t.Op == token.SUB:
					n := lin{a.base, a.typ, a.c - b.c, append([]int64(nil), a.coeffs...)}
					for _, k := range b.coeffs {
						n.coeffs = append(n.coeffs, -k)
					}
					r = append(r, n)
				case t.Op == token.MUL && b.base == nil && len(b.coeffs) == 0 && a.base == nil:
					n := lin{c: a.c * b.c}
					for _, k := range a.coeffs {
						n.coeffs = append(n.coeffs, k*b.c)
					}
					r = append(r, n)
				case t.Op == token.MUL && a.base == nil && len(a.coeffs) == 0 && b.base == nil:
					n := lin{c: a.c * b.c}
					for _, k := range b.coeffs {
						n.coeffs = append(n.coeffs, k*a.c)
					}
					r = append(r, n)
				default:
					r = append(r, lin{coeffs: []int64{1}})
				}
			}
		}
		return r
	case *ssa.UnOp:
		if t.Op == token.SUB {
			var r []lin
			for _, a := range e.eval(t.X, env, d+1) {
				n := lin{c: -a.c}
				for _, k := range a.coeffs {
					n.coeffs = append(n.coeffs, -k)
				}
				r = append(r, n)
			}
			return r
		}
		if t.Op == token.MUL {
			if el := e.mirrorData(t.X); el != nil {
				return []lin{{base: v, typ: el}}
			}
			if a, ok := t.X.(*ssa.Alloc); ok {
				if s := onlyStore(a); s != nil {
					return e.eval(s, env, d+1)
				}
			}
		}
	case *ssa.Phi:
		// a pointer that moves in a loop: the start and the steps
		var start []lin
		var steps []int64
		for _, x := range t.Edges {
			if step, ok := e.stepOf(x, t); ok {
				steps = append(steps, step...)
			} else {
				start = append(start, e.eval(x, env, d+4)...)
			}
		}
		if len(start) > 0 && len(start) < 8 {
			for i := range start {
				start[i].coeffs = append(append([]int64(nil), start[i].coeffs...), steps...)
			}
			return start
		}
	case *ssa.Call:
		if b, ok := t.Call.Value.(*ssa.Builtin); ok {
			if b.Name() == "Add" {
				var r []lin
				for _, a := range e.eval(t.Call.Args[0], env, d+1) {
					for _, n := range e.eval(t.Call.Args[1], env, d+1) {
						r = append(r, lin{a.base, a.typ, a.c + n.c, append(append([]int64(nil), a.coeffs...), n.coeffs...)})
					}
				}
				return r
			}
			if isInteger(t.Type()) {
				return []lin{{coeffs: []int64{1}}}
			}
			return root
		}
		f := t.Call.StaticCallee()
		if f == nil {
			break
		}
		pkg, recv, name := calleeName(f)
		if pkg == "sync/atomic" && recv == "" && name == "LoadPointer" {
			if el := e.mirrorData(t.Call.Args[0]); el != nil {
				return []lin{{base: v, typ: el}}
			}
		}
		if e.P.inMod[f] && f.Signature.Results().Len() == 1 && len(f.Blocks) == 1 && (isUnsafePtr(t.Type()) || isInteger(t.Type()) && isUintptr(t.Type()) || ptrElem(t.Type()) != nil) {
			ret, ok := f.Blocks[0].Instrs[len(f.Blocks[0].Instrs)-1].(*ssa.Return)
			if ok {
				n := &linEnv{args: map[ssa.Value]ssa.Value{}, up: env}
				for i, p := range f.Params {
					n.args[p] = t.Call.Args[i]
				}
				return e.eval(ret.Results[0], n, d+1)
			}
		}
	case *ssa.Parameter:
		if env != nil {
			if a, ok := env.args[v]; ok {
				return e.eval(a, env.up, d+1)
			}
		}
		if isUnsafePtr(t.Type()) || isUintptr(t.Type()) {
			var r []lin
			idx := -1
			for i, p := range t.Parent().Params {
				if p == t {
					idx = i
				}
			}
			for _, cs := range e.sites[t.Parent()] {
				if idx < len(cs.args) && len(r) < 40 {
					r = append(r, e.eval(cs.args[idx], nil, d+2)...)
				}
			}
			if len(r) > 0 {
				return r
			}
		}
	}
	if isInteger(v.Type()) {
		return []lin{{coeffs: []int64{1}}}
	}
	return root
}

func isUintptr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uintptr
}

// stepOf: x is p plus constant steps.
func (e *ptrEval) stepOf(x ssa.Value, p *ssa.Phi) ([]int64, bool) {
	switch t := x.(type) {
	case *ssa.Phi:
		if t == p {
			return nil, true
		}
	case *ssa.Convert:
		return e.stepOf(t.X, p)
	case *ssa.Call:
		if b, ok := t.Call.Value.(*ssa.Builtin); ok && b.Name() == "Add" {
			if s, ok := e.stepOf(t.Call.Args[0], p); ok {
				for _, n := range e.eval(t.Call.Args[1], nil, 0) {
					if n.c != 0 {
						s = append(s, n.c)
					}
					s = append(s, n.coeffs...)
				}
				return s, true
			}
		}
	case *ssa.BinOp:
		if s, ok := e.stepOf(t.X, p); ok {
			for _, n := range e.eval(t.Y, nil, 0) {
				if n.c != 0 {
					s = append(s, n.c)
				}
				s = append(s, n.coeffs...)
			}
			return s, true
		}
	}
	return nil, false
}

// mirrorData: addr is the data field of a slice mirror; its element type.
func (e *ptrEval) mirrorData(addr ssa.Value) types.Type {
	fa, ok := stripConv(addr).(*ssa.FieldAddr)
	if !ok || fa.Field != 0 {
		return nil
	}
	x := fa.X
	st := deref(x.Type())
	s, ok := st.Underlying().(*types.Struct)
	if !ok || !isSliceMirror(s) {
		return nil
	}
	if t, ok := e.elem[typeKey(st)]; ok && t != nil {
		return t
	}
	// embedded in the mirror of a known slice
	if o, ok := x.(*ssa.FieldAddr); ok {
		return e.elem[typeKey(deref(o.X.Type()))]
	}
	return nil
}

// typeAt: the types found at offset c of an object of type t, outermost first.
func (P *Prog) typesAt(t types.Type, c int64) []types.Type {
	var r []types.Type
	if c == 0 {
		r = append(r, t)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			o := (&Univ{P: P}).offset(u, i)
			sz := P.sizes.Sizeof(u.Field(i).Type())
			if c >= o && (c < o+sz || c == o && sz == 0) {
				r = append(r, P.typesAt(u.Field(i).Type(), c-o)...)
			}
		}
	case *types.Array:
		sz := P.sizes.Sizeof(u.Elem())
		if sz > 0 && c < sz*u.Len() {
			r = append(r, P.typesAt(u.Elem(), c%sz)...)
		}
	}
	return r
}

func flatKinds(t types.Type) []string {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		var r []string
		for i := 0; i < u.NumFields(); i++ {
			r = append(r, flatKinds(u.Field(i).Type())...)
		}
		return r
	case *types.Slice:
		return []string{"ptr", "int", "int"}
	case *types.Basic:
		switch {
		case u.Kind() == types.String:
			return []string{"ptr", "int"}
		case u.Kind() == types.UnsafePointer:
			return []string{"ptr"}
		case u.Kind() == types.Int || u.Kind() == types.Int64 || u.Kind() == types.Uint64 || u.Kind() == types.Uint || u.Kind() == types.Uintptr:
			return []string{"int"}
		case u.Kind() == types.Int32 || u.Kind() == types.Uint32:
			return []string{"int32"}
		}
		return []string{u.Name()}
	case *types.Pointer:
		return []string{"ptr"}
	case *types.Array:
		var r []string
		for i := int64(0); i < u.Len() && i < 64; i++ {
			r = append(r, flatKinds(u.Elem())...)
		}
		return r
	}
	return []string{typeKey(t)}
}

// layoutOK: an object of type a may be viewed as type b.
func layoutOK(a, b types.Type) bool {
	if types.Identical(a, b) || types.Identical(a.Underlying(), b.Underlying()) {
		return true
	}
	if _, ok := a.Underlying().(*types.Pointer); ok {
		if _, ok := b.Underlying().(*types.Pointer); ok {
			return false
		}
	}
	// a struct that merely starts like another named struct is another kind of object
	_, aok := a.Underlying().(*types.Struct)
	sb, bok := b.Underlying().(*types.Struct)
	if aok && bok {
		return isSliceMirror(sb) && strings.Join(flatKinds(a), ",") == "ptr,int,int"
	}
	fa, fb := strings.Join(flatKinds(a), ","), strings.Join(flatKinds(b), ",")
	if _, ok := a.Underlying().(*types.Slice); ok && bok && fb == "ptr,int" {
		return true // data and length of a slice, without its capacity
	}
	return fa == fb
}

// reachableBlocks ignores branches on constants.
func reachableBlocks(f *ssa.Function) map[*ssa.BasicBlock]bool {
	r := map[*ssa.BasicBlock]bool{}
	st := []*ssa.BasicBlock{f.Blocks[0]}
	for len(st) > 0 {
		b := st[len(st)-1]
		st = st[:len(st)-1]
		if r[b] {
			continue
		}
		r[b] = true
		if i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			if c, ok := i.Cond.(*ssa.Const); ok && c.Value != nil {
				if constant.BoolVal(c.Value) {
					st = append(st, b.Succs[0])
				} else {
					st = append(st, b.Succs[1])
				}
				continue
			}
		}
		st = append(st, b.Succs...)
	}
	return r
}

func isLink(t types.Type) bool { return isElist(t) || isLoncha(t) }

// linkAt: the link field at offset off of t, as owner.field.
func (P *Prog) linkAt(t types.Type, off int64) (kind string, link types.Type) {
	s, ok := t.Underlying().(*types.Struct)
	if !ok || isLink(t) {
		return "", nil
	}
	for i := 0; i < s.NumFields(); i++ {
		o := (&Univ{P: P}).offset(s, i)
		ft := s.Field(i).Type()
		if o == off && isLink(ft) {
			if _, p := ft.(*types.Pointer); p {
				continue
			}
			return typeKey(t) + "." + s.Field(i).Name(), ft
		}
		if off >= o && off < o+P.sizes.Sizeof(ft) {
			if _, ok := ft.Underlying().(*types.Struct); ok {
				return P.linkAt(ft, off-o)
			}
		}
	}
	return "", nil
}

type conversion struct {
	f    *ssa.Function
	at   ssa.Instruction
	base ssa.Value
	kind string
}

// flatNames: the names of the words of a struct, also of those it embeds.
func flatNames(st *types.Struct) (ns []string) {
	for k := 0; k < st.NumFields(); k++ {
		f := st.Field(k)
		if in, ok := f.Type().Underlying().(*types.Struct); ok {
			ns = append(ns, flatNames(in)...)
		} else {
			ns = append(ns, f.Name())
		}
	}
	return
}

// newPtrEval finds the structs that are used as views of slices.
func newPtrEval(P *Prog, eff *Effects, r *Report) *ptrEval {
	e := &ptrEval{P, eff, map[*ssa.Function][]callSite{}, map[string]types.Type{}}
	for _, f := range P.fns {
		for _, cs := range eff.calls[f] {
			e.sites[cs.callee] = append(e.sites[cs.callee], cs)
		}
	}
	// slice mirrors and their element types
	for _, f := range P.fns {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				c, ok := i.(*ssa.Convert)
				if !ok || !isUnsafePtr(c.X.Type()) {
					continue
				}
				el := ptrElem(c.Type())
				if el == nil {
					continue
				}
				st, ok := el.Underlying().(*types.Struct)
				if !ok || strings.Join(flatKinds(st), ",") != "ptr,int,int" {
					continue
				}
				for _, l := range e.eval(c.X, nil, 0) {
					if l.typ == nil || len(l.coeffs) > 0 || l.c < 0 {
						continue
					}
					for _, at := range P.typesAt(l.typ, l.c) {
						if sl, ok := at.Underlying().(*types.Slice); ok {
							if _, gen := sl.Elem().Underlying().(*types.Basic); gen {
								continue
							}
							k := typeKey(el)
							if ws := flatNames(st); len(ws) == 3 && (strings.EqualFold(ws[1], "cap") || strings.EqualFold(ws[2], "len")) {
								r.violate(P.instrPos(i), fname(f), "slice view", fmt.Sprintf("%s has its length and capacity in another order than a slice", k), "")
							}
							if old, ok := e.elem[k]; ok && old != nil && !types.Identical(old, sl.Elem()) {
								r.violate(P.instrPos(i), fname(f), "slice view", fmt.Sprintf("%s is used as the view of slices of %s and of %s", k, old, sl.Elem()), "")
							}
							e.elem[k] = sl.Elem()
						}
					}
				}
			}
		}
	}
	return e
}

func init() {
	register("C11", "Every conversion of unsafe.Pointer to *T is evaluated to base + constant + steps: a negative constant must be the offset in T of a link field of the base's type, a non-negative one must find a T (or a value of the same layout) at that offset of the base's type, every step must be the size of the element type; Offset methods and size/offset arguments agree; pointers to links are tracked by unification and a link of one container is never converted to, or linked with, another kind of link.",
		func(P *Prog, eff *Effects, r *Report) {
			e := newPtrEval(P, eff, r)
			var convs []conversion
			n, unknown := 0, 0
			for _, f := range P.fns {
				reach := reachableBlocks(f)
				for _, b := range f.Blocks {
					if !reach[b] {
						continue
					}
					for _, i := range b.Instrs {
						c, ok := i.(*ssa.Convert)
						if !ok || !isUnsafePtr(c.X.Type()) {
							continue
						}
						T := ptrElem(c.Type())
						if T == nil {
							continue
						}
						for _, l := range e.eval(c.X, nil, 0) {
							if l.base == nil && l.c == 0 {
								continue // nil
							}
							if l.typ == nil {
								unknown++
								if l.c != 0 || len(l.coeffs) > 0 {
									// element access through an untyped pointer
									ok := len(l.coeffs) > 0
									for _, k := range l.coeffs {
										ok = ok && abs64(k) == P.sizes.Sizeof(T)
									}
									if l.c != 0 || !ok {
										r.violate(P.instrPos(i), fname(f), "conversion of addresses", fmt.Sprintf("pointer to %s computed from memory of unknown type with offset %d and steps %v", typeKey(T), l.c, l.coeffs), "")
									}
								}
								continue
							}
							n++
							key := fmt.Sprintf("%s *%s from *%s%+d steps %v", P.instrPos(i), typeKey(T), typeKey(l.typ), l.c, l.coeffs)
							bad := ""
							if sz := P.sizes.Sizeof(T); types.Identical(T, l.typ) && sz > 0 && l.c%sz == 0 {
								l.c = 0 // a step over elements
							}
							for _, k := range l.coeffs {
								if abs64(k) != P.sizes.Sizeof(l.typ) {
									bad = fmt.Sprintf("steps of %d bytes over elements of type %s, which has %d bytes", k, typeKey(l.typ), P.sizes.Sizeof(l.typ))
								}
							}
							if bad == "" && l.c < 0 {
								kind, lt := P.linkAt(T, -l.c)
								if !isLink(l.typ) {
									bad = fmt.Sprintf("%s is taken as part of %s", typeKey(l.typ), typeKey(T))
								} else if lt == nil || !types.Identical(lt, l.typ) {
									bad = fmt.Sprintf("%s has no %s at offset %d", typeKey(T), typeKey(l.typ), -l.c)
								} else {
									convs = append(convs, conversion{f, i, l.base, kind})
								}
							} else if bad == "" {
								ok := false
								var found []string
								for _, at := range P.typesAt(l.typ, l.c) {
									found = append(found, typeKey(at))
									ok = ok || layoutOK(at, T)
								}
								if !ok {
									bad = fmt.Sprintf("offset %d of %s is a %s, not a %s", l.c, typeKey(l.typ), strings.Join(found, "/"), typeKey(T))
								}
							}
							if bad != "" {
								r.violate(P.instrPos(i), fname(f), "conversion of addresses", bad, "")
							}
							r.obligation(key, bad == "")
						}
					}
				}
			}
			r.need("address conversions", n)
			r.count("conversions of untyped memory", unknown)
			r.need("conversions of links to containers", len(convs))
			e.offsets(r)
			e.sizeArgs(r)
			e.links(r, convs)
		})
}

// offsets: Offset methods agree with the link that PtrListHead gives.
func (e *ptrEval) offsets(r *Report) {
	P := e.P
	n := 0
	for _, p := range P.ssapkgs {
		var names []string
		for nm := range p.Members {
			names = append(names, nm)
		}
		sort.Strings(names)
		for _, nm := range names {
			t, ok := p.Members[nm].(*ssa.Type)
			if !ok || types.IsInterface(t.Type()) {
				continue
			}
			off, ptr := P.method(p, nm, "Offset"), P.method(p, nm, "PtrListHead")
			if off == nil || ptr == nil || len(off.Blocks) != 1 || len(ptr.Blocks) != 1 || !P.inMod[off] && off.Synthetic == "" {
				continue
			}
			if n0 := namedOf(off.Signature.Recv().Type()); n0 == nil || n0.Obj().Name() != nm {
				continue
			}
			get := func(f *ssa.Function) *lin {
				if ret, ok := f.Blocks[0].Instrs[len(f.Blocks[0].Instrs)-1].(*ssa.Return); ok {
					if ls := e.eval(ret.Results[0], nil, 0); len(ls) == 1 {
						return &ls[0]
					}
				}
				return nil
			}
			o, l := get(off), get(ptr)
			if o == nil || l == nil || o.base != nil || len(o.coeffs) > 0 || l.typ == nil {
				continue
			}
			n++
			want := l.c
			if rt := namedOf(l.typ); rt != nil && rt.Obj().Name() != nm {
				// promoted method: offset of the embedded type
				if s, ok := t.Type().Underlying().(*types.Struct); ok {
					for i := 0; i < s.NumFields(); i++ {
						if s.Field(i).Embedded() && types.Identical(s.Field(i).Type(), l.typ) {
							want += (&Univ{P: P}).offset(s, i)
						}
					}
				}
			}
			if o.c != want {
				r.violate(P.pos(off.Pos()), fname(off), "offset method", fmt.Sprintf("Offset gives %d, the link given by PtrListHead is at %d", o.c, want), "")
			}
			r.obligation("offset of "+nm, o.c == want)
		}
	}
	r.count("offset methods", n)
}

// sizeArgs: (size, offset) arguments of the list library and byte views.
func (e *ptrEval) sizeArgs(r *Report) {
	P := e.P
	for _, f := range P.fns {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				ci, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := ci.Common().StaticCallee()
				if g == nil {
					continue
				}
				args := ci.Common().Args
				if g.Object() != nil && isListPkg(g.Object().Pkg()) {
					var el types.Type
					var ints []int64
					for _, a := range args {
						if isUnsafePtr(a.Type()) {
							for _, l := range e.eval(a, nil, 0) {
								if l.typ != nil && l.c == 0 {
									if el != nil && !types.Identical(el, l.typ) {
										r.violate(P.instrPos(i), fname(f), "element type", fmt.Sprintf("memory of %s and of %s in one call", typeKey(el), typeKey(l.typ)), "")
									}
									el = l.typ
								} else {
									r.violate(P.instrPos(i), fname(f), "element type", "the address handed over is not the start of an element", "")
								}
							}
						} else if isInteger(a.Type()) {
							if ls := e.eval(a, nil, 0); len(ls) == 1 && ls[0].base == nil && len(ls[0].coeffs) == 0 {
								ints = append(ints, ls[0].c)
							}
						}
					}
					if el != nil && len(ints) == 2 {
						k, _ := P.linkAt(el, ints[1])
						ok := ints[0] == P.sizes.Sizeof(el) && k != ""
						if !ok {
							r.violate(P.instrPos(i), fname(f), "element size and link offset", fmt.Sprintf("size %d and offset %d for elements of %s (%d bytes)", ints[0], ints[1], typeKey(el), P.sizes.Sizeof(el)), "")
						}
						r.obligation(P.instrPos(i)+" size and offset", ok)
					}
					continue
				}
				// byte views: f(ptr, len*size, cap*size) []byte
				if !P.inMod[g] || g.Signature.Results().Len() != 1 {
					continue
				}
				rs, ok := g.Signature.Results().At(0).Type().Underlying().(*types.Slice)
				if !ok {
					continue
				}
				if bt, ok := rs.Elem().Underlying().(*types.Basic); !ok || bt.Kind() != types.Byte {
					continue
				}
				var el types.Type
				for _, a := range args {
					if isUnsafePtr(a.Type()) {
						for _, l := range e.eval(a, nil, 0) {
							if l.typ != nil {
								el = l.typ
							}
						}
					}
				}
				if el == nil {
					continue
				}
				for _, a := range args {
					if !isInteger(a.Type()) {
						continue
					}
					for _, l := range e.eval(a, nil, 0) {
						ok := l.c%P.sizes.Sizeof(el) == 0
						for _, k := range l.coeffs {
							ok = ok && abs64(k) == P.sizes.Sizeof(el)
						}
						if !ok {
							r.violate(P.instrPos(i), fname(f), "byte view", fmt.Sprintf("length in steps of %v bytes over elements of %s (%d bytes)", l.coeffs, typeKey(el), P.sizes.Sizeof(el)), "")
						}
						r.obligation(P.instrPos(i)+" byte view of "+typeKey(el), ok)
					}
				}
			}
		}
	}
}

// ---- unification of link pointers

type linkUF struct {
	p    map[any]any
	kind map[any]string
}

func (u *linkUF) find(x any) any {
	for {
		q, ok := u.p[x]
		if !ok || q == x {
			return x
		}
		x = q
	}
}

// union merges two classes; the two kinds if they differ.
func (u *linkUF) union(a, b any) (string, string, bool) {
	a, b = u.find(a), u.find(b)
	if a == b {
		return "", "", true
	}
	ka, kb := u.kind[a], u.kind[b]
	if ka != "" && kb != "" && ka != kb {
		return ka, kb, false
	}
	u.p[a] = b
	if kb == "" {
		u.kind[b] = ka
	}
	return "", "", true
}

type resNode struct {
	call ssa.Value
	i    int
}
type cellNode struct{ k any }

func isLinkPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && isLink(p.Elem())
}

type linkSum struct {
	classes [][]int // positions (params >= 0, results < 0) in one class
	kinds   map[int]string
}

func (e *ptrEval) links(r *Report, convs []conversion) {
	P := e.P
	target := map[string]bool{}
	byFn := map[*ssa.Function][]conversion{}
	for _, c := range convs {
		target[c.kind] = true
		byFn[c.f] = append(byFn[c.f], c)
	}
	sums := map[*ssa.Function]*linkSum{}
	cells := map[string]string{} // field cells and captured locals with a known kind
	edges := 0
	solve := func(f *ssa.Function, report bool) (ch bool) {
		u := &linkUF{map[any]any{}, map[any]string{}}
		setKind := func(n any, k string, at ssa.Instruction, what string) {
			if k == "" || !target[k] {
				return
			}
			n = u.find(n)
			if old := u.kind[n]; old != "" && old != k {
				if report {
					r.violate(P.instrPos(at), fname(f), "kinds of links", fmt.Sprintf("a link %s is %s %s", old, what, k), "")
				}
				return
			}
			u.kind[n] = k
		}
		join := func(a, b any, at ssa.Instruction) {
			edges++
			if ka, kb, ok := u.union(a, b); !ok && report {
				r.violate(P.instrPos(at), fname(f), "kinds of links", fmt.Sprintf("a link %s is mixed with a link %s", ka, kb), "")
			}
		}
		cell := func(addr ssa.Value) any {
			a := stripConv(addr)
			switch t := a.(type) {
			case *ssa.FreeVar:
				for _, b := range e.eff.bindings(t) {
					return cellNode{b}
				}
			case *ssa.FieldAddr:
				return cellNode{addrKey(t)}
			case *ssa.Global:
				return cellNode{"global:" + t.Name()}
			}
			return cellNode{a}
		}
		node := func(v ssa.Value, at ssa.Instruction) any {
			v = stripConv(v)
			switch t := v.(type) {
			case *ssa.FieldAddr:
				st := deref(t.X.Type())
				s := st.Underlying().(*types.Struct)
				setKind(v, typeKey(st)+"."+s.Field(t.Field).Name(), at, "also")
			case *ssa.Extract:
				return resNode{t.Tuple, t.Index}
			case *ssa.Call:
				return resNode{t, 0}
			}
			return v
		}
		if f.Object() == nil && f.Parent() == nil {
			return false
		}
		for pass := 0; pass < 2; pass++ {
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					switch t := i.(type) {
					case *ssa.FieldAddr:
						if isLinkPtr(t.Type()) {
							node(t, i)
						}
					case *ssa.Phi:
						if isLinkPtr(t.Type()) {
							for _, x := range t.Edges {
								if c, ok := x.(*ssa.Const); ok && c.Value == nil {
									continue
								}
								join(node(t, i), node(x, i), i)
							}
						}
					case *ssa.Store:
						if isLinkPtr(t.Val.Type()) {
							join(cell(t.Addr), node(t.Val, i), i)
						}
					case *ssa.UnOp:
						if t.Op == token.MUL && isLinkPtr(t.Type()) {
							c := cell(t.X)
							if k, ok := c.(cellNode).k.(string); ok {
								setKind(c, cells[k], i, "also")
							} else if k := cells[fmt.Sprintf("%p", c.(cellNode).k)]; k != "" {
								setKind(c, k, i, "also")
							}
							join(node(t, i), c, i)
						}
					case ssa.CallInstruction:
						c := t.Common()
						var res ssa.Value
						if v, ok := i.(ssa.Value); ok {
							res = v
						}
						if c.IsInvoke() {
							m := c.Method.Name()
							if m == "PtrListHead" && res != nil {
								setKind(resNode{res, 0}, itemLinkKind(P), i, "also")
							}
							if m == "HmapEntryFromListHead" && len(c.Args) > 0 {
								setKind(node(c.Args[0], i), itemLinkKind(P), i, "converted to an entry, which embeds")
							}
							continue
						}
						g := c.StaticCallee()
						if g == nil {
							continue
						}
						if g.Object() != nil && isListPkg(g.Object().Pkg()) {
							var first any
							add := func(n any) {
								if first == nil {
									first = n
								} else {
									join(first, n, i)
								}
							}
							for _, a := range c.Args {
								if isLinkPtr(a.Type()) {
									add(node(a, i))
								}
							}
							rs := c.Signature().Results()
							for k := 0; k < rs.Len() && res != nil; k++ {
								if isLinkPtr(rs.At(k).Type()) {
									add(resNode{res, k})
								}
							}
							continue
						}
						sm := sums[g]
						if sm == nil {
							continue
						}
						pos := func(k int) any {
							if k >= 0 {
								if k < len(c.Args) {
									return node(c.Args[k], i)
								}
								return nil
							}
							if res == nil {
								return nil
							}
							return resNode{res, -k - 1}
						}
						for _, cl := range sm.classes {
							for _, k := range cl[1:] {
								a, b := pos(cl[0]), pos(k)
								if a != nil && b != nil {
									join(a, b, i)
								}
							}
						}
						for k, kd := range sm.kinds {
							if n := pos(k); n != nil {
								setKind(n, kd, i, "passed to "+fname(g)+", which takes")
							}
						}
					}
				}
			}
			for _, c := range byFn[f] {
				if c.base.Parent() == f {
					setKind(node(c.base, c.at), c.kind, c.at, "converted to the container of")
				}
			}
		}
		// conversions evaluated through helpers in other functions
		for _, cs := range convs {
			if cs.f != f && cs.base.Parent() == f {
				setKind(node(cs.base, cs.at), cs.kind, cs.at, "converted to the container of")
			}
		}
		// cells
		for n := range u.p {
			if c, ok := n.(cellNode); ok {
				k := u.kind[u.find(n)]
				if k == "" {
					continue
				}
				key := ""
				if s, ok := c.k.(string); ok {
					key = s
				} else {
					key = fmt.Sprintf("%p", c.k)
				}
				if cells[key] == "" {
					cells[key] = k
					ch = true
				}
			}
		}
		// summary
		sm := &linkSum{kinds: map[int]string{}}
		cls := map[any][]int{}
		for k, p := range f.Params {
			if isLinkPtr(p.Type()) {
				cls[u.find(p)] = append(cls[u.find(p)], k)
			}
		}
		rs := f.Signature.Results()
		for k := 0; k < rs.Len(); k++ {
			if !isLinkPtr(rs.At(k).Type()) {
				continue
			}
			var first any
			for _, b := range f.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && k < len(ret.Results) {
					if c, ok := ret.Results[k].(*ssa.Const); ok && c.Value == nil {
						continue
					}
					n := node(ret.Results[k], ret)
					if first == nil {
						first = n
					} else {
						join(first, n, ret)
					}
				}
			}
			if first != nil {
				cls[u.find(first)] = append(cls[u.find(first)], -k-1)
			}
		}
		merged := map[any][]int{}
		for n, ps := range cls {
			merged[u.find(n)] = append(merged[u.find(n)], ps...)
		}
		for n, ps := range merged {
			sort.Ints(ps)
			if len(ps) > 1 {
				sm.classes = append(sm.classes, ps)
			}
			if k := u.kind[n]; k != "" {
				for _, p := range ps {
					sm.kinds[p] = k
				}
			}
		}
		sort.Slice(sm.classes, func(i, j int) bool { return fmt.Sprint(sm.classes[i]) < fmt.Sprint(sm.classes[j]) })
		if fmt.Sprint(sums[f]) != fmt.Sprint(sm) && (sums[f] == nil || fmt.Sprint(*sums[f]) != fmt.Sprint(*sm)) {
			sums[f] = sm
			ch = true
		}
		return ch
	}
	for k := 0; k < 12; k++ {
		ch := false
		for _, f := range P.fns {
			if solve(f, false) {
				ch = true
			}
		}
		if !ch {
			break
		}
	}
	for _, f := range P.fns {
		n := len(r.viols)
		solve(f, true)
		if len(r.viols) == n {
			if len(byFn[f]) > 0 {
				r.obligation("links in "+fname(f), true)
			}
		} else {
			r.obligation("links in "+fname(f), false)
		}
	}
	r.count("link flow edges", edges)
	r.count("link kinds", len(target))
}

func itemLinkKind(P *Prog) string {
	if t := P.root.Type("MapHead"); t != nil {
		if s, ok := t.Type().Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if isLink(s.Field(i).Type()) {
					return typeKey(t.Type()) + "." + s.Field(i).Name()
				}
			}
		}
	}
	return ""
}
