package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// hashNorm rewrites hash computations of a key to a form that depends on its
// content only: strdata/len of strings and the parts of slices become D and L.
type hashNorm struct {
	u    *Univ
	d, l *Term
	key  *Term // the symbol of the key, or nil
}

func (n *hashNorm) content(t *Term) (d, l *Term) {
	u := n.u
	switch {
	case t == n.key:
		return n.d, n.l
	case t.Op == OStruct && t.Aux == "slice":
		return n.norm(t.Args[0]), n.norm(t.Args[1])
	case t.Op == OConv && len(t.Args) == 1:
		return n.content(t.Args[0])
	}
	q := n.norm(t)
	return u.mk(OPCall, "strdata", nil, q), u.mk(OPCall, "len", nil, q)
}

func (n *hashNorm) norm(t *Term) *Term {
	u := n.u
	switch {
	case t == nil || t.Op == OSym && t != n.key || t.Op == OConst || t.Op == ONil || t.Op == OAlloc || t.Op == OGlobal || t.Op == OFunc:
		return t
	case t.Op == OPCall && strings.HasPrefix(t.Aux, "content:"):
		// the last argument is the content, the others are seeds
		k := len(t.Args) - 1
		d, l := n.content(t.Args[k])
		var as []*Term
		for _, a := range t.Args[:k] {
			as = append(as, n.norm(a))
		}
		return u.mk(OPCall, t.Aux, nil, append(as, d, l)...)
	case t.Op == OPCall && (t.Aux == "strdata" || t.Aux == "len") && len(t.Args) == 1:
		d, l := n.content(t.Args[0])
		if t.Aux == "len" {
			return l
		}
		return d
	case t.Op == OFieldVal && t.Args[0] == n.key && (t.Aux == "data" || t.Aux == "len"):
		if t.Aux == "len" {
			return n.l
		}
		return n.d
	}
	var as []*Term
	same := true
	for _, a := range t.Args {
		b := n.norm(a)
		same = same && a == b
		as = append(as, b)
	}
	if same {
		return t
	}
	q := u.mk(t.Op, t.Aux, t.Typ, as...)
	q.Fn, q.Glob, q.Val = t.Fn, t.Glob, t.Val
	return q
}

// contentHash: external functions that hash a whole string or byte slice.
func contentHash(f *ssa.Function) string {
	if f == nil {
		return ""
	}
	pkg, recv, name := calleeName(f)
	if recv != "" {
		return ""
	}
	switch {
	case strings.HasSuffix(pkg, "/xxhash") || strings.Contains(pkg, "/xxhash/"):
		if name == "Sum64" || name == "Sum64String" {
			return "content:xxhash"
		}
	case pkg == "hash/maphash":
		if name == "String" || name == "Bytes" {
			return "content:maphash"
		}
	case strings.HasPrefix(pkg, "hash/crc"):
		return "content:" + pkg + name
	}
	return ""
}

func c05Client(P *Prog, follow bool) *Client {
	cl := &Client{maxDepth: 20}
	cl.onCall = func(x *Exec, s *State, c *Call) ([]*Outcome, bool) {
		if c.fn == nil {
			return nil, false
		}
		if t := contentHash(c.fn); t != "" && len(c.args) > 0 && c.sig.Results().Len() == 1 {
			return []*Outcome{{s, []*Term{x.u.mk(OPCall, t, c.sig.Results().At(0).Type(), c.args...)}}}, true
		}
		if len(c.fn.Blocks) == 0 && c.fn.Pkg != nil && P.isModPkg(c.fn.Pkg.Pkg) && (c.fn.Name() == "memhash") && len(c.args) == 3 {
			// runtime.memhash(data, seed, length): deterministic within a process
			return []*Outcome{{s, []*Term{x.u.mk(OPCall, "memhash", c.sig.Results().At(0).Type(), c.args[1], c.args[0], c.args[2])}}}, true
		}
		if m := x.itemMethod(c); m != "" && c.method == nil && len(c.fn.Blocks) > 0 && follow {
			return x.inline(s, c), true
		}
		return nil, false
	}
	return cl
}

// deterministic: t is built from the key and constants only.
func (P *Prog) deterministic(u *Univ, t *Term, ok func(*Term) bool) (bool, string) {
	if ok(t) {
		return true, ""
	}
	switch t.Op {
	case OConst, ONil:
		return true, ""
	case OLoad:
		if g := rootOf(t.Args[0]); g.Op == OGlobal && g.Glob != nil && !P.writtenLater(g.Glob) {
			return true, ""
		}
		return false, t.String()
	case OBin, OUn, OConv, OPCall, OStruct, OElem, OField, OFieldVal, ORev:
		for _, a := range t.Args {
			if k, w := P.deterministic(u, a, ok); !k {
				return false, w
			}
		}
		return true, ""
	}
	return false, t.String()
}

// writtenLater: a package variable is stored to outside package initialisation,
// or its address is used for anything but loads.
func (P *Prog) writtenLater(g *ssa.Global) bool {
	for _, f := range P.fns {
		if f.Name() == "init" && f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if ld, ok := i.(*ssa.UnOp); ok && ld.X == ssa.Value(g) {
					continue
				}
				for _, op := range i.Operands(nil) {
					if *op == ssa.Value(g) {
						return true
					}
				}
			}
		}
	}
	return false
}

func init() {
	register("C05", "The key hash function is interpreted once per key type with an unknown key: for every supported integer type the hash must be a value-preserving conversion of the key, for strings and byte slices hash and conflict hash must be whole-content hashes with equal seeds, and both must be built from the key and constants only; every KeyHash and Setup method of an item type must give the pair that the hash function gives for the item's own key.",
		func(P *Prog, eff *Effects, r *Report) {
			kth := P.root.Func("KeyToHash")
			if kth == nil || kth.Signature.Params().Len() != 1 || kth.Signature.Results().Len() != 2 {
				r.violate("-", "-", "anchor", "function KeyToHash(key) (hash, conflict) not found", "")
				return
			}
			x := newExec(P, eff, c05Client(P, true))
			u := x.u
			// candidate key types: what the code asserts, and the basic types
			cand := map[string]types.Type{}
			for _, k := range []types.BasicKind{types.Int, types.Int8, types.Int16, types.Int32, types.Int64, types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64, types.Uintptr, types.String} {
				cand[typeKey(types.Typ[k])] = types.Typ[k]
			}
			bs := types.NewSlice(types.Typ[types.Uint8])
			for f := range eff.reachable(kth) {
				for _, b := range f.Blocks {
					for _, i := range b.Instrs {
						if ta, ok := i.(*ssa.TypeAssert); ok && !types.IsInterface(ta.AssertedType) {
							cand[typeKey(ta.AssertedType)] = ta.AssertedType
						}
					}
				}
			}
			var names []string
			for k := range cand {
				names = append(names, k)
			}
			sort.Strings(names)
			type pair struct{ h, c *Term }
			content := map[string]pair{}
			D, L := u.sym("content.data", nil, "data of the key"), u.sym("content.len", nil, "length of the key")
			ints, strs := 0, 0
			at := P.pos(kth.Pos())
			for _, nm := range names {
				T := cand[nm]
				v := u.sym("key:"+nm, T, "key of type "+nm)
				st := newState()
				st.born[v] = true
				var arg *Term
				_, isSlice := T.Underlying().(*types.Slice)
				if isSlice {
					arg = u.mk(OIface, typeKey(T), T, u.mk(OStruct, "slice", T, D, L, u.sym("content.cap", nil, "capacity")))
				} else {
					arg = u.mk(OIface, typeKey(T), T, v)
				}
				outs := x.run(kth, []*Term{arg}, nil, st, x.ctx(nil, nil, kth))
				bt, isBasic := T.Underlying().(*types.Basic)
				isStr := isBasic && bt.Info()&types.IsString != 0
				for _, o := range outs {
					r.count("key types times paths", 1)
					nrm := &hashNorm{u, D, L, nil}
					if isStr {
						nrm.key = v
					}
					h, c := nrm.norm(o.rets[0]), nrm.norm(o.rets[1])
					okSym := func(t *Term) bool { return t == v || t == D || t == L }
					bad := false
					for i, t := range []*Term{h, c} {
						if ok, w := P.deterministic(u, t, okSym); !ok {
							bad = true
							r.violate(at, fname(kth), "hash pair is a function of the key", fmt.Sprintf("for %s keys the %s depends on %s", nm, [...]string{"hash", "conflict hash"}[i], w), o.st.path(12))
						}
					}
					switch {
					case isBasic && bt.Info()&types.IsInteger != 0:
						ints++
						if !lossless(P, h, v, T) {
							bad = true
							r.violate(at, fname(kth), "integer keys are hashed without loss", fmt.Sprintf("for %s keys the hash is %s, not the value itself", nm, h.String()), o.st.path(12))
						}
					case isStr || isSlice && types.Identical(T.Underlying(), bs):
						strs++
						for i, t := range []*Term{h, c} {
							if !wholeContent(t, D, L) {
								bad = true
								r.violate(at, fname(kth), "whole content is hashed", fmt.Sprintf("for %s keys the %s is %s, which does not hash the whole key", nm, [...]string{"hash", "conflict hash"}[i], t.String()), o.st.path(12))
							}
						}
						content[nm] = pair{h, c}
						for other, p := range content {
							if p.h != h || p.c != c {
								bad = true
								r.violate(at, fname(kth), "strings and byte slices agree", fmt.Sprintf("%s keys hash to (%s, %s), %s keys to (%s, %s)", nm, h, c, other, p.h, p.c), o.st.path(12))
							}
						}
					}
					r.obligation("hash pair of "+nm+" keys is ("+h.String()+", "+c.String()+")", !bad)
				}
			}
			r.need("integer key types", ints)
			r.need("string and byte slice key types", strs)
			x.finish(r)
			r.keyHashMethods(P, eff, kth)
		})
}

// lossless: h is v converted by steps that keep its value: no step to a type with fewer bits than
// T, values of T are extended as values of T.
func lossless(P *Prog, h, v *Term, T types.Type) bool {
	from, ok := T.Underlying().(*types.Basic)
	if !ok {
		return false
	}
	sz, unsigned := P.sizes.Sizeof(T), from.Info()&types.IsUnsigned != 0
	for h != v {
		if h.Op != OConv || len(h.Args) != 1 || h.Typ == nil {
			return false
		}
		b, ok := h.Typ.Underlying().(*types.Basic)
		if !ok || b.Info()&types.IsInteger == 0 || P.sizes.Sizeof(h.Typ) < sz {
			return false
		}
		a := h.Args[0]
		w := sz
		if a != v {
			w = P.sizes.Sizeof(a.Typ)
		}
		if w < P.sizes.Sizeof(h.Typ) && (!unsigned || w == sz) && strings.HasSuffix(h.Aux, " of unsigned") != unsigned {
			return false
		}
		h = a
	}
	return true
}

func wholeContent(t, d, l *Term) bool {
	if t.Op == OConv && len(t.Args) == 1 {
		return wholeContent(t.Args[0], d, l)
	}
	n := len(t.Args)
	return t.Op == OPCall && (strings.HasPrefix(t.Aux, "content:") || t.Aux == "memhash") && n >= 2 && t.Args[n-2] == d && t.Args[n-1] == l
}

// reachable functions of the module.
func (e *Effects) reachable(f *ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{f: true}
	q := []*ssa.Function{f}
	for len(q) > 0 {
		g := q[0]
		q = q[1:]
		for _, c := range e.callees[g] {
			if !seen[c] {
				seen[c] = true
				q = append(q, c)
			}
		}
	}
	return seen
}

func (r *Report) keyHashMethods(P *Prog, eff *Effects, kth *ssa.Function) {
	n := 0
	for _, T := range P.itemTypes() {
		key := P.methodOf(T, "Key")
		if key == nil {
			continue
		}
		for _, m := range []string{"KeyHash", "Setup"} {
			f := P.methodOf(T, m)
			if f == nil || len(f.Blocks) == 0 || !P.inMod[f] {
				continue
			}
			n++
			good, what, path := false, "", ""
			for _, inl := range []bool{false, true} {
				good, what, path = r.keyHashAgrees(P, eff, kth, key, f, inl)
				if good {
					break
				}
			}
			if !good {
				r.violate(P.pos(f.Pos()), fname(f), "the item's hash pair is that of its key", what, path)
			}
			r.obligation(fname(f)+" agrees with KeyToHash of its own key", good)
		}
	}
	r.need("KeyHash and Setup methods", n)
}

func (r *Report) keyHashAgrees(P *Prog, eff *Effects, kth, key, f *ssa.Function, inl bool) (bool, string, string) {
	cl := c05Client(P, true)
	if !inl {
		old := cl.onCall
		cl.onCall = func(x *Exec, s *State, c *Call) ([]*Outcome, bool) {
			if c.fn == kth {
				return []*Outcome{{s, []*Term{x.u.mk(OPCall, "KeyToHash#0", types.Typ[types.Uint64], c.args[0]), x.u.mk(OPCall, "KeyToHash#1", types.Typ[types.Uint64], c.args[0])}}}, true
			}
			return old(x, s, c)
		}
	}
	x := newExec(P, eff, cl)
	u := x.u
	recv := u.sym("item", f.Params[0].Type(), "the item")
	state := func() *State {
		st := newState()
		st.born[recv] = true
		st.addFact(eqFact(recv, u.Nil, true))
		return st
	}
	ko := x.run(key, []*Term{recv}, nil, state(), x.ctx(nil, nil, key))
	if len(ko) != 1 {
		return false, "the key of the item is not a single expression", ""
	}
	K := ko[0].rets[0]
	var wh, wc *Term
	if inl {
		if K.Op != OIface {
			return false, "the hash pair is not computed from the item's key by KeyToHash", ""
		}
		ro := x.run(kth, []*Term{K}, nil, state(), x.ctx(nil, nil, kth))
		if len(ro) != 1 {
			return false, "the hash pair of the item's key is not a single expression", ""
		}
		wh, wc = ro[0].rets[0], ro[0].rets[1]
	} else {
		wh, wc = u.mk(OPCall, "KeyToHash#0", types.Typ[types.Uint64], K), u.mk(OPCall, "KeyToHash#1", types.Typ[types.Uint64], K)
	}
	D, L := u.sym("content.data", nil, "data of the key"), u.sym("content.len", nil, "length of the key")
	nrm := &hashNorm{u, D, L, nil}
	if K.Op == OIface {
		nrm.key = K.Args[0]
	}
	wh, wc = nrm.norm(wh), nrm.norm(wc)
	outs := x.run(f, []*Term{recv}, nil, state(), x.ctx(nil, nil, f))
	if len(outs) == 0 {
		return false, "no exit", ""
	}
	for _, o := range outs {
		var h, c *Term
		if len(o.rets) == 2 {
			h, c = o.rets[0], o.rets[1]
		} else {
			for a, v := range o.st.mem {
				if a.Op == OField && a.Args[0] == recv {
					switch a.Aux {
					case "MapHead.reverse":
						h = u.rev(v)
					case "MapHead.conflict":
						c = v
					}
				}
			}
		}
		if h == nil || c == nil {
			return false, "the hash pair is not stored", o.st.path(12)
		}
		h, c = nrm.norm(h), nrm.norm(c)
		if h != wh || c != wc {
			return false, fmt.Sprintf("gives (%s, %s), but the key's hash pair is (%s, %s)", h, c, wh, wc), o.st.path(12)
		}
	}
	for _, m := range x.incomplete {
		return false, m, ""
	}
	return true, "", ""
}
