package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Kinds of hash values. Plain and reversed hashes are the two parities of one
// kind; bits.Reverse64 changes the parity.
type hashKind int

const (
	kindNone hashKind = iota
	kindPlain
	kindReversed
	kindConflict
)

func (k hashKind) String() string {
	return [...]string{"unknown", "plain hash", "bit-reversed hash", "conflict hash"}[k]
}

type kindEdge struct {
	a, b int
	flip bool
	pos  string
	fn   string
	why  string
}

type kindAnchor struct {
	node int
	kind hashKind
	pos  string
	fn   string
	why  string
}

// hashKinds relates all values that may carry hashes: two values that are
// compared, stored or passed are of the same kind.
type hashKinds struct {
	P     *Prog
	eff   *Effects
	ptr   *ptrEval
	ids   map[string]int
	vals  map[ssa.Value]int
	names []string
	up    []int
	par   []bool
	glob  map[int]bool // nodes of fields and globals
	edges []kindEdge
	anch  []kindAnchor
	hash  []kindAnchor // nodes that are reversed, so that they are no conflict hashes
	taken map[*ssa.Function]bool
	poly  map[*ssa.Function]bool // done, may be instantiated
	rec   map[*ssa.Function]bool // recursive
	kinds map[int]bool           // roots with an anchor
	count map[string]int
	sizes map[int64]bool
}

// carries: values of type t are 64-bit hashes or refer to them.
func carries(t types.Type) bool { return carriesD(t, 0) }

func carriesD(t types.Type, d int) bool {
	if d > 4 {
		return false
	}
	if n := namedOf(t); n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync/atomic" && n.Obj().Name() == "Uint64" {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.Uint64
	case *types.Pointer:
		return carriesD(u.Elem(), d+1)
	case *types.Slice:
		return carriesD(u.Elem(), d+1)
	case *types.Array:
		return carriesD(u.Elem(), d+1)
	case *types.Chan:
		return carriesD(u.Elem(), d+1)
	case *types.Map:
		return carriesD(u.Elem(), d+1)
	}
	return false
}

func (h *hashKinds) node(name string) int {
	if n, ok := h.ids[name]; ok {
		return n
	}
	n := len(h.up)
	h.up = append(h.up, n)
	h.par = append(h.par, false)
	h.names = append(h.names, name)
	h.ids[name] = n
	return n
}

func (h *hashKinds) val(v ssa.Value) int {
	if n, ok := h.vals[v]; ok {
		return n
	}
	name := v.Name()
	if i, ok := v.(ssa.Instruction); ok {
		if c := h.comment(v); c != "" {
			name = c
		}
		name += " at " + h.P.instrPos(i)
	} else if p, ok := v.(*ssa.Parameter); ok {
		name = "parameter " + name + " of " + fname(p.Parent())
	} else if p, ok := v.(*ssa.FreeVar); ok {
		name = "variable " + name + " in " + fname(p.Parent())
	}
	n := len(h.up)
	h.up = append(h.up, n)
	h.par = append(h.par, false)
	h.names = append(h.names, name)
	h.vals[v] = n
	if g, ok := v.(*ssa.Global); ok {
		h.names[n] = "variable " + g.Name()
		h.glob[n] = true
	}
	return n
}

func (h *hashKinds) comment(v ssa.Value) string {
	switch t := v.(type) {
	case *ssa.Phi:
		return t.Comment
	case *ssa.Alloc:
		return t.Comment
	}
	return ""
}

func (h *hashKinds) field(st types.Type, k int) int {
	s := st.Underlying().(*types.Struct)
	n := h.node("field " + strings.TrimPrefix(typeKey(st), "skiplistmap.") + "." + s.Field(k).Name())
	h.glob[n] = true
	return n
}

func (h *hashKinds) result(f *ssa.Function, k int) int {
	return h.node(fmt.Sprintf("result %d of %s", k, fname(f)))
}

func (h *hashKinds) find(n int) (int, bool) {
	p := false
	for h.up[n] != n {
		p = p != h.par[n]
		n = h.up[n]
	}
	return n, p
}

func (h *hashKinds) union(a, b int, flip bool, i ssa.Instruction, why string) {
	if a == b && !flip {
		return
	}
	h.edges = append(h.edges, kindEdge{a, b, flip, h.P.instrPos(i), fname(i.Parent()), why})
	ra, pa := h.find(a)
	rb, pb := h.find(b)
	if ra == rb {
		return
	}
	h.up[ra] = rb
	h.par[ra] = (pa != pb) != flip
	h.glob[rb] = h.glob[rb] || h.glob[ra]
	h.kinds[rb] = h.kinds[rb] || h.kinds[ra]
}

// same: the two values are of the same kind.
func (h *hashKinds) same(a, b ssa.Value, i ssa.Instruction, why string) {
	if !carries(a.Type()) || !carries(b.Type()) || isConst(a) || isConst(b) {
		return
	}
	h.count[why]++
	h.union(h.val(a), h.val(b), false, i, why)
}

func constInt(c *ssa.Const) (int64, bool) {
	if c.Value == nil || c.Value.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(c.Value)
}

func isConst(v ssa.Value) bool { _, ok := v.(*ssa.Const); return ok }

func (h *hashKinds) anchor(n int, k hashKind, pos, fn, why string) {
	h.anch = append(h.anch, kindAnchor{n, k, pos, fn, why})
	r, _ := h.find(n)
	h.kinds[r] = true
}

// scan relates the values of f, with its closures.
func (h *hashKinds) scan(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			h.instr(f, i)
		}
	}
}

func (h *hashKinds) instr(f *ssa.Function, i ssa.Instruction) {
	switch t := i.(type) {
	case *ssa.Phi:
		for _, e := range t.Edges {
			h.same(t, e, i, "joined")
		}
	case *ssa.Store:
		h.same(t.Addr, t.Val, i, "stored")
	case *ssa.Send:
		h.same(t.Chan, t.X, i, "sent")
	case *ssa.UnOp:
		if t.Op == token.MUL || t.Op == token.ARROW {
			h.same(t, t.X, i, "loaded")
		}
	case *ssa.FieldAddr:
		if carries(t.Type()) {
			h.union(h.val(t), h.field(deref(t.X.Type()), t.Field), false, i, "field")
		}
	case *ssa.Field:
		if carries(t.Type()) {
			h.union(h.val(t), h.field(t.X.Type(), t.Field), false, i, "field")
		}
	case *ssa.IndexAddr:
		h.same(t, t.X, i, "element")
		h.index(f, deref(t.Type()), t.Index, i)
	case *ssa.Index:
		h.same(t, t.X, i, "element")
		h.index(f, t.Type(), t.Index, i)
	case *ssa.Slice:
		h.same(t, t.X, i, "slice")
	case *ssa.Lookup:
		if m, ok := t.X.Type().Underlying().(*types.Map); ok {
			if carries(m.Key()) && !isConst(t.Index) {
				h.union(h.key(t.X), h.val(t.Index), false, i, "table key")
			}
			if !t.CommaOk {
				h.same(t, t.X, i, "element")
			}
		}
	case *ssa.MapUpdate:
		if m := t.Map.Type().Underlying().(*types.Map); carries(m.Key()) && !isConst(t.Key) {
			h.union(h.key(t.Map), h.val(t.Key), false, i, "table key")
		}
		h.same(t.Map, t.Value, i, "element")
	case *ssa.Extract:
		if !carries(t.Type()) {
			return
		}
		switch c := t.Tuple.(type) {
		case *ssa.Call:
			h.union(h.val(t), h.node(fmt.Sprintf("result %d of the call at %s.%s", t.Index, h.P.instrPos(c), c.Name())), false, i, "result")
		case *ssa.Lookup:
			h.same(t, c.X, i, "element")
		case *ssa.Next:
			rg, ok := c.Iter.(*ssa.Range)
			if !ok {
				return
			}
			if t.Index == 1 {
				h.union(h.val(t), h.key(rg.X), false, i, "table key")
			} else {
				h.same(t, rg.X, i, "element")
			}
		case *ssa.UnOp:
			h.same(t, c.X, i, "received")
		}
	case *ssa.ChangeType:
		h.same(t, t.X, i, "converted")
	case *ssa.Convert:
		h.same(t, t.X, i, "converted")
		if isUnsafePtr(t.X.Type()) && carries(t.Type()) {
			h.view(t)
		}
	case *ssa.BinOp:
		switch t.Op {
		case token.SHL, token.SHR:
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			h.same(t.X, t.Y, i, "compared")
			h.counted(t)
		case token.MUL:
			// the offset of an element of a table
			if c, ok := t.Y.(*ssa.Const); ok && h.size(c) {
				h.digits(t.X, i, map[ssa.Value]bool{}, 0)
			} else if c, ok := t.X.(*ssa.Const); ok && h.size(c) {
				h.digits(t.Y, i, map[ssa.Value]bool{}, 0)
			}
		case token.REM:
		default:
			h.same(t, t.X, i, "computed")
			h.same(t, t.Y, i, "computed")
		}
	case *ssa.MakeClosure:
		fn := t.Fn.(*ssa.Function)
		for k, b := range t.Bindings {
			h.same(fn.FreeVars[k], b, i, "captured")
		}
	case *ssa.Return:
		for k, v := range t.Results {
			if carries(v.Type()) && !isConst(v) {
				h.count["returned"]++
				h.union(h.result(f, k), h.val(v), false, i, "returned")
			}
		}
	}
	if ci, ok := i.(ssa.CallInstruction); ok {
		h.call(f, ci)
	}
}

func (h *hashKinds) key(m ssa.Value) int {
	return h.node(fmt.Sprintf("keys of %s", h.names[h.mapOf(m)]))
}

// mapOf: tables of the same type share their keys.
func (h *hashKinds) mapOf(m ssa.Value) int {
	n := h.node("tables " + typeKey(m.Type()))
	h.glob[n] = true
	return n
}

// view: a hash read at an address that is computed.
func (h *hashKinds) view(c *ssa.Convert) {
	for _, l := range h.ptr.eval(c.X, nil, 0) {
		if l.typ == nil || l.c < 0 {
			continue
		}
		t, off := l.typ, l.c
		for {
			s, ok := t.Underlying().(*types.Struct)
			if !ok {
				break
			}
			found := false
			for k := 0; k < s.NumFields(); k++ {
				o := (&Univ{P: h.P}).offset(s, k)
				if off >= o && off < o+h.P.sizes.Sizeof(s.Field(k).Type()) {
					if off == o && carries(s.Field(k).Type()) {
						h.union(h.val(c), h.field(t, k), false, c, "view")
					}
					t, off, found = s.Field(k).Type(), off-o, true
					break
				}
			}
			if !found {
				break
			}
		}
	}
}

// size: c is the size of a structure of the module.
func (h *hashKinds) size(c *ssa.Const) bool {
	n, ok := constInt(c)
	if !ok || n < 16 {
		return false
	}
	if h.sizes == nil {
		h.sizes = map[int64]bool{}
		for _, p := range h.P.ssapkgs {
			for _, m := range p.Members {
				if t, ok := m.(*ssa.Type); ok {
					if s, ok := t.Type().Underlying().(*types.Struct); ok && !isSliceMirror(s) {
						if n, ok := t.Type().(*types.Named); ok && n.TypeParams().Len() > 0 {
							continue
						}
						h.sizes[h.P.sizes.Sizeof(t.Type())] = true
					}
				}
			}
		}
	}
	return h.sizes[n]
}

// counted: a hash of which digits are dropped from the low end until none is
// left is a plain one, whose low digits are the first ones of a position.
func (h *hashKinds) counted(cmp *ssa.BinOp) {
	phi, ok := cmp.X.(*ssa.Phi)
	c, isC := cmp.Y.(*ssa.Const)
	if !ok || !isC {
		phi, ok = cmp.Y.(*ssa.Phi)
		c, isC = cmp.X.(*ssa.Const)
	}
	if !ok || !isC || !carries(phi.Type()) {
		return
	}
	if n, ok := constInt(c); !ok || n != 0 {
		return
	}
	for _, e := range phi.Edges {
		if b, ok := e.(*ssa.BinOp); ok && b.Op == token.SHR && b.X == ssa.Value(phi) {
			h.count["counted"]++
			h.anchor(h.val(phi), kindPlain, h.P.instrPos(cmp), fname(cmp.Parent()), "digits of it are counted from the low end")
		}
	}
}

// index: a hash that chooses an element of a table of structures is a
// bit-reversed one.
func (h *hashKinds) index(f *ssa.Function, elem types.Type, ix ssa.Value, i ssa.Instruction) {
	switch deref(elem).Underlying().(type) {
	case *types.Struct:
	default:
		return
	}
	h.digits(ix, i, map[ssa.Value]bool{}, 0)
}

func (h *hashKinds) digits(v ssa.Value, i ssa.Instruction, seen map[ssa.Value]bool, d int) {
	if seen[v] || d > 12 {
		return
	}
	seen[v] = true
	hashed := func(v ssa.Value) {
		if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Uint64 && !isConst(v) {
			h.count["index"]++
			h.anchor(h.val(v), kindReversed, h.P.instrPos(i), fname(i.Parent()), "digits of it choose an element")
		}
	}
	switch t := v.(type) {
	case *ssa.Convert:
		h.digits(t.X, i, seen, d+1)
	case *ssa.ChangeType:
		h.digits(t.X, i, seen, d+1)
	case *ssa.Phi:
		for _, e := range t.Edges {
			h.digits(e, i, seen, d+1)
		}
	case *ssa.BinOp:
		switch t.Op {
		case token.SHR:
			hashed(t.X)
		case token.AND, token.REM, token.ADD, token.SUB:
			if in, ok := t.X.(*ssa.BinOp); ok && (in.Op == token.SHR || in.Op == token.AND || in.Op == token.REM) {
				h.digits(t.X, i, seen, d+1)
			} else if t.Op == token.AND || t.Op == token.REM {
				hashed(t.X)
				h.digits(t.X, i, seen, d+1)
			} else {
				h.digits(t.X, i, seen, d+1)
			}
		}
	case *ssa.Parameter:
		for k, p := range t.Parent().Params {
			if p != t || k == 0 && t.Parent().Signature.Recv() != nil {
				continue
			}
			for _, cs := range h.ptr.sites[t.Parent()] {
				if k < len(cs.args) {
					h.digits(cs.args[k], i, seen, d+1)
				}
			}
		}
	case *ssa.Call:
		if c := t.Call.StaticCallee(); c != nil && h.P.inMod[c] {
			for _, b := range c.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 {
					h.digits(r.Results[0], i, seen, d+1)
				}
			}
		}
	}
}

func (h *hashKinds) call(f *ssa.Function, ci ssa.CallInstruction) {
	c := ci.Common()
	i := ci.(ssa.Instruction)
	var outs []int
	rs := c.Signature().Results()
	if v, ok := ci.(*ssa.Call); ok {
		if rs.Len() == 1 {
			if carries(v.Type()) {
				outs = []int{h.val(v)}
			} else {
				outs = []int{-1}
			}
		} else {
			for k := 0; k < rs.Len(); k++ {
				if carries(rs.At(k).Type()) {
					outs = append(outs, h.node(fmt.Sprintf("result %d of the call at %s.%s", k, h.P.instrPos(v), v.Name())))
				} else {
					outs = append(outs, -1)
				}
			}
		}
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append", "min", "max":
			for _, a := range c.Args {
				h.same(ci.(*ssa.Call), a, i, "joined")
			}
		case "copy":
			h.same(c.Args[0], c.Args[1], i, "copied")
		}
		return
	}
	if c.IsInvoke() {
		if c.Method.Name() == "KeyHash" {
			h.anchorHashes(outs, h.P.instrPos(i), fname(f))
		}
		for _, m := range h.eff.implementers(c.Method) {
			h.link(m, append([]ssa.Value{c.Value}, c.Args...), outs, i, true)
		}
		return
	}
	sc := c.StaticCallee()
	if sc == nil {
		for g := range h.taken {
			if types.Identical(g.Signature, c.Signature()) && g.Signature.Recv() == nil {
				h.link(g, c.Args, outs, i, true)
			}
		}
		return
	}
	if h.P.inMod[sc] {
		h.link(sc, c.Args, outs, i, false)
		return
	}
	pkg, recv, name := calleeName(sc)
	switch {
	case pkg == "math/bits" && name == "Reverse64":
		if isConst(c.Args[0]) || len(outs) == 0 {
			return
		}
		h.count["reversed"]++
		h.union(h.val(c.Args[0]), outs[0], true, i, "bit-reversed")
		h.hash = append(h.hash, kindAnchor{h.val(c.Args[0]), kindNone, h.P.instrPos(i), fname(f), "bit-reversed"})
	case pkg == "sync/atomic":
		_ = recv
		for _, a := range c.Args[1:] {
			h.same(c.Args[0], a, i, "atomic access")
		}
		if len(outs) == 1 && outs[0] >= 0 && carries(c.Args[0].Type()) {
			h.union(h.val(c.Args[0]), outs[0], false, i, "atomic access")
		}
	}
}

// anchorHashes: the results are the hash and the conflict hash of a key.
func (h *hashKinds) anchorHashes(outs []int, pos, fn string) {
	ks := []hashKind{kindPlain, kindConflict}
	for k, o := range outs {
		if k < 2 && o >= 0 {
			h.anchor(o, ks[k], pos, fn, "hashes of a key")
		}
	}
}

// link relates the arguments and results of a call to those of the callee.
func (h *hashKinds) link(g *ssa.Function, args []ssa.Value, outs []int, i ssa.Instruction, mono bool) {
	var in, here []int
	for k, p := range g.Params {
		if k < len(args) && carries(p.Type()) && !isConst(args[k]) && carries(args[k].Type()) {
			in = append(in, h.val(p))
			here = append(here, h.val(args[k]))
		}
	}
	for k, o := range outs {
		if o >= 0 && k < g.Signature.Results().Len() {
			in = append(in, h.result(g, k))
			here = append(here, o)
		}
	}
	if len(in) > 0 {
		h.count["passed"]++
	}
	for a := range in {
		ra, pa := h.find(in[a])
		if mono || !h.poly[g] || h.glob[ra] || h.kinds[ra] {
			h.union(in[a], here[a], false, i, "passed to or returned by "+fname(g))
			continue
		}
		// a function for hashes of any kind
		for b := 0; b < a; b++ {
			rb, pb := h.find(in[b])
			if ra == rb {
				h.union(here[a], here[b], pa != pb, i, "used together by "+fname(g))
			}
		}
	}
}

type kindConflictAt struct {
	a, b kindAnchor
	path []kindEdge
}

// conflict looks for two anchors that contradict one another; skip is an edge
// that is left out.
func (h *hashKinds) conflicts(skip int, only map[int]bool) (res []kindConflictAt) {
	adj := map[int][]int{}
	for k, e := range h.edges {
		if k != skip && (only == nil || only[e.a] || only[e.b]) {
			adj[e.a] = append(adj[e.a], k)
			adj[e.b] = append(adj[e.b], k)
		}
	}
	type st struct {
		n    int
		flip bool
	}
	at := map[int][]kindAnchor{}
	for _, a := range h.anch {
		at[a.node] = append(at[a.node], a)
	}
	rev := map[int][]kindAnchor{}
	for _, a := range h.hash {
		rev[a.node] = append(rev[a.node], a)
	}
	done := map[string]bool{}
	for _, a := range h.anch {
		if only != nil && !only[a.node] {
			continue
		}
		k := fmt.Sprint(a.node, a.kind)
		if done[k] {
			continue
		}
		done[k] = true
		from := map[st]int{}
		prev := map[st]st{}
		q := []st{{a.node, false}}
		from[q[0]] = -1
		for len(q) > 0 {
			s := q[0]
			q = q[1:]
			kind := a.kind
			if s.flip {
				switch kind {
				case kindPlain:
					kind = kindReversed
				case kindReversed:
					kind = kindPlain
				}
			}
			var other *kindAnchor
			for _, b := range at[s.n] {
				if b.kind != kind {
					b := b
					other = &b
				}
			}
			if kind == kindConflict {
				for _, b := range rev[s.n] {
					b := b
					other = &b
				}
			}
			if other != nil {
				var path []kindEdge
				for x := s; from[x] >= 0; x = prev[x] {
					path = append([]kindEdge{h.edges[from[x]]}, path...)
				}
				res = append(res, kindConflictAt{a, *other, path})
				break
			}
			for _, k := range adj[s.n] {
				e := h.edges[k]
				o := e.a
				if o == s.n {
					o = e.b
				}
				t := st{o, s.flip != e.flip}
				if _, ok := from[t]; !ok {
					from[t], prev[t] = k, s
					q = append(q, t)
				}
			}
		}
	}
	return
}

func init() {
	register("C06", "Values that are compared, stored, passed or returned together are of one kind (unification over SSA, functions without an own kind are generic); bits.Reverse64 turns plain into reversed hashes and back. No value may then be of two kinds, given what KeyToHash, KeyHash, the accessors of MapHead and the hash parameters of the exported lookups are.",
		func(P *Prog, eff *Effects, r *Report) {
			h := &hashKinds{P: P, eff: eff, ids: map[string]int{}, vals: map[ssa.Value]int{}, glob: map[int]bool{}, kinds: map[int]bool{},
				taken: map[*ssa.Function]bool{}, poly: map[*ssa.Function]bool{}, count: map[string]int{}}
			h.ptr = newPtrEval(P, eff, &Report{seen: map[string]bool{}})
			// anchors
			named := 0
			anchorRes := func(f *ssa.Function, k int, kind hashKind) {
				if f != nil && P.inMod[f] {
					named++
					h.anchor(h.result(f, k), kind, P.pos(f.Pos()), fname(f), "what "+fname(f)+" returns")
				}
			}
			anchorPar := func(f *ssa.Function, k int, kind hashKind) {
				if f != nil && P.inMod[f] && k < len(f.Params) && carries(f.Params[k].Type()) {
					named++
					h.anchor(h.val(f.Params[k]), kind, P.pos(f.Pos()), fname(f), "what "+fname(f)+" is given")
				}
			}
			kth := P.root.Func("KeyToHash")
			anchorRes(kth, 0, kindPlain)
			anchorRes(kth, 1, kindConflict)
			for _, t := range P.itemTypes() {
				f := P.methodOf(t, "KeyHash")
				anchorRes(f, 0, kindPlain)
				anchorRes(f, 1, kindConflict)
			}
			conflict, reverse, _ := P.headRoles(eff, r)
			if t := P.root.Type("MapHead"); t != nil {
				s := t.Type().Underlying().(*types.Struct)
				for k := 0; k < s.NumFields(); k++ {
					switch s.Field(k).Name() {
					case conflict:
						named++
						h.anchor(h.field(t.Type(), k), kindConflict, P.pos(s.Field(k).Pos()), "MapHead", "what ConflictInHamp returns")
					case reverse:
						named++
						h.anchor(h.field(t.Type(), k), kindReversed, P.pos(s.Field(k).Pos()), "MapHead", "the reversed hash of entries")
					}
				}
			}
			anchorRes(P.method(P.root, "MapHead", "KeyInHmap"), 0, kindPlain)
			anchorRes(P.method(P.root, "MapHead", "ConflictInHamp"), 0, kindConflict)
			for _, n := range []string{"GetByHash", "LoadItemByHash", "TestSet"} {
				f := P.method(P.root, "Map", n)
				anchorPar(f, 1, kindPlain)
				anchorPar(f, 2, kindConflict)
			}
			anchorPar(P.method(P.root, "Map", "SearchKey"), 1, kindPlain)
			if rp := P.rmapPkg(); rp != nil {
				for _, n := range []string{"Get2", "Set2"} {
					f := P.method(rp, "RMap", n)
					anchorPar(f, 1, kindPlain)
					anchorPar(f, 2, kindConflict)
				}
			}
			r.need("named hashes", named)
			// functions used as values
			for _, f := range P.fns {
				for _, b := range f.Blocks {
					for _, i := range b.Instrs {
						for n, op := range i.Operands(nil) {
							var fn *ssa.Function
							switch t := (*op).(type) {
							case *ssa.Function:
								fn = t
							case *ssa.MakeClosure:
								fn = t.Fn.(*ssa.Function)
							}
							if fn == nil {
								continue
							}
							if ci, ok := i.(ssa.CallInstruction); ok && n == 0 && ci.Common().Value == *op && !ci.Common().IsInvoke() {
								continue
							}
							if _, ok := i.(*ssa.MakeClosure); ok {
								continue
							}
							h.taken[fn] = true
						}
					}
				}
			}
			// callees first
			state := map[*ssa.Function]int{}
			var visit func(f *ssa.Function)
			visit = func(f *ssa.Function) {
				if state[f] != 0 || !P.inMod[f] || len(f.Blocks) == 0 {
					return
				}
				state[f] = 1
				for _, g := range eff.callees[f] {
					visit(g)
				}
				for _, g := range f.AnonFuncs {
					visit(g)
				}
				h.scan(f)
				state[f] = 2
				// a closure is generic only with its function
				if f.Parent() == nil && !h.taken[f] {
					h.poly[f] = true
				}
			}
			for _, f := range P.fns {
				visit(f)
			}
			n := 0
			for _, k := range h.count {
				n += k
			}
			r.need("relations between hashes", n)
			bad := h.conflicts(-1, nil)
			for _, b := range h.blame(bad) {
				r.violate(b.Where, b.Func, b.Rule, b.What, b.Path)
			}
			byFn := map[string]int{}
			for _, e := range h.edges {
				byFn[e.fn]++
			}
			blamed := map[string]bool{}
			for _, v := range r.viols {
				blamed[v.Func] = true
			}
			var fns []string
			for f := range byFn {
				fns = append(fns, f)
			}
			sort.Strings(fns)
			for _, f := range fns {
				r.obligation(fmt.Sprintf("%s: %d relations between hashes of one kind", f, byFn[f]), !blamed[f])
			}
			for k, v := range h.count {
				r.count("values "+k, v)
			}
		})
}

// blame finds the relations without which there is no contradiction.
func (h *hashKinds) blame(bad []kindConflictAt) (vs []Violation) {
	seen := map[string]bool{}
	idx := map[kindEdge]int{}
	for k, e := range h.edges {
		if _, ok := idx[e]; !ok {
			idx[e] = k
		}
	}
	for _, c := range bad {
		var path []string
		for _, e := range c.path {
			path = append(path, fmt.Sprintf("%s %s (%s ~ %s)", e.pos, e.why, h.names[e.a], h.names[e.b]))
		}
		other := c.b.kind.String()
		if c.b.kind == kindNone {
			other = "hash that is bit-reversed"
		}
		what := fmt.Sprintf("%s (a %s) meets %s (a %s)", c.a.why, c.a.kind, c.b.why, other)
		where, fn := c.a.pos, c.a.fn
		if len(c.path) > 0 {
			best := -1
			for k, e := range c.path {
				if len(h.conflicts(idx[e], nil)) == 0 {
					best = k
					break
				}
			}
			if best < 0 {
				best = len(c.path) / 2
			}
			where, fn = c.path[best].pos, c.path[best].fn
		}
		if seen[where] {
			continue
		}
		seen[where] = true
		vs = append(vs, Violation{where, fn, "hashes of different kinds are not mixed", what, strings.Join(path, " -> ")})
		if len(vs) >= 8 {
			break
		}
	}
	return
}
