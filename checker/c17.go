package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/bits"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A bits value describes an integer bit by bit: 0, 1, bit n of a hash, or
// unknown. max bounds the value from above (as an unsigned number).
type bitVal struct {
	b       [64]int8 // -1: zero, -2: one, -3: unknown, n >= 0: bit n of the source
	max     uint64
	neg     bool // may be negative
	derived bool // computed from a hash by shift, mask or modulus
	expr    string
}

const (
	bZero = -1
	bOne  = -2
	bTop  = -3
)

func bvLeaf() bitVal {
	v := bitVal{max: ^uint64(0), expr: "R"}
	for i := range v.b {
		v.b[i] = int8(i)
	}
	return v
}

func bvTop(neg bool, e string) bitVal {
	v := bitVal{max: ^uint64(0), neg: neg, expr: e}
	for i := range v.b {
		v.b[i] = bTop
	}
	return v
}

func bvConst(c uint64) bitVal {
	v := bitVal{max: c, expr: fmt.Sprint(c)}
	for i := range v.b {
		v.b[i] = bZero
		if c>>uint(i)&1 == 1 {
			v.b[i] = bOne
		}
	}
	return v
}

func (v *bitVal) isConst() (uint64, bool) {
	var c uint64
	for i, b := range v.b {
		switch b {
		case bZero:
		case bOne:
			c |= 1 << uint(i)
		default:
			return 0, false
		}
	}
	return c, !v.neg
}

// norm recomputes the bound from the bits.
func (v *bitVal) norm() {
	var m uint64
	for i, b := range v.b {
		if b != bZero {
			m |= 1 << uint(i)
		}
	}
	if m < v.max {
		v.max = m
	}
	for i := bits.Len64(v.max); i < 64; i++ {
		v.b[i] = bZero
	}
}

// canon: what the value is as a function of the hash.
func (v *bitVal) canon() string {
	var r []string
	top := false
	for i, b := range v.b {
		switch {
		case b == bOne:
			r = append(r, fmt.Sprintf("1@%d", i))
		case b == bTop:
			top = true
		case b >= 0:
			r = append(r, fmt.Sprintf("%d@%d", b, i))
		}
	}
	if top {
		return v.expr
	}
	return strings.Join(r, " ")
}

type bitEval struct {
	P     *Prog
	eff   *Effects
	sites map[*ssa.Function][]callSite

	reverse string // the field that keeps the bit-reversed hash
}

type bitEnv struct {
	vals map[ssa.Value]bitVal
	up   *bitEnv
	d    int
	seen map[ssa.Value]bool
}

func (e *bitEval) eval(v ssa.Value, env *bitEnv) []bitVal {
	if env.d > 12 {
		return []bitVal{bvTop(true, "deep")}
	}
	if r, ok := env.vals[v]; ok {
		return []bitVal{r}
	}
	neg := !isUnsigned(v.Type())
	switch t := v.(type) {
	case *ssa.Const:
		if t.Value != nil && t.Value.Kind() == constant.Int {
			if u, ok := constant.Uint64Val(constant.ToInt(t.Value)); ok {
				return []bitVal{bvConst(u)}
			}
		}
		return []bitVal{bvTop(true, "const")}
	case *ssa.Convert:
		w := int(e.P.sizes.Sizeof(t.Type())) * 8
		var r []bitVal
		sw := int(e.P.sizes.Sizeof(t.X.Type())) * 8
		for _, a := range e.eval(t.X, env) {
			if a.neg && sw < 64 { // sign extension
				for i := sw; i < 64; i++ {
					a.b[i] = a.b[sw-1]
				}
				a.max = ^uint64(0)
			}
			for i := w; i < 64; i++ {
				a.b[i] = bZero
			}
			if w < 64 && a.max >= 1<<uint(w) {
				a.max = 1<<uint(w) - 1
			}
			a.neg = !isUnsigned(t.Type()) && a.b[w-1] != bZero
			a.norm()
			r = append(r, a)
		}
		return r
	case *ssa.ChangeType:
		return e.eval(t.X, env)
	case *ssa.BinOp:
		var r []bitVal
		for _, a := range e.eval(t.X, env) {
			for _, b := range e.eval(t.Y, env) {
				r = append(r, bvBin(t.Op, a, b, neg, isUnsigned(t.X.Type()), int(e.P.sizes.Sizeof(t.Type()))*8))
			}
		}
		return r
	case *ssa.Phi:
		if env.seen[t] {
			return []bitVal{bvTop(true, "loop")}
		}
		n := &bitEnv{vals: env.vals, up: env.up, d: env.d + 1, seen: cp(env.seen)}
		n.seen[t] = true
		var r []bitVal
		for _, x := range t.Edges {
			r = append(r, e.eval(x, n)...)
		}
		return r
	case *ssa.Call:
		f := t.Call.StaticCallee()
		if f == nil {
			break
		}
		pkg, _, name := calleeName(f)
		if pkg == "math/bits" && name == "Reverse64" {
			if len(t.Call.Args) == 1 && e.reversed(t.Call.Args[0], 0) {
				// turned back: the digits are at the other end
				v := bvLeaf()
				for i := range v.b {
					v.b[i] = int8(63 - i)
				}
				v.expr = "rev(R)"
				return []bitVal{v}
			}
			return []bitVal{bvLeaf()}
		}
		if e.P.inMod[f] && f.Signature.Results().Len() == 1 && isInteger(f.Signature.Results().At(0).Type()) {
			var r []bitVal
			vals := map[ssa.Value]bitVal{}
			for i, p := range f.Params {
				if isInteger(p.Type()) && i < len(t.Call.Args) {
					as := e.eval(t.Call.Args[i], env)
					if len(as) == 1 {
						vals[p] = as[0]
					} else {
						vals[p] = bvTop(true, "joined")
					}
				}
			}
			for _, b := range f.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					r = append(r, e.eval(ret.Results[0], &bitEnv{vals: vals, up: env, d: env.d + 1, seen: map[ssa.Value]bool{}})...)
				}
			}
			return r
		}
	case *ssa.UnOp:
		if t.Op == token.MUL {
			x := t.X
			if fv, ok := x.(*ssa.FreeVar); ok {
				if bs := e.eff.bindings(fv); len(bs) == 1 {
					x = bs[0]
				}
			}
			if a, ok := x.(*ssa.Alloc); ok {
				if s := onlyStore(a); s != nil {
					return e.eval(s, &bitEnv{vals: env.vals, up: env.up, d: env.d + 1, seen: env.seen})
				}
			}
		}
	case *ssa.FreeVar:
		if bs := e.eff.bindings(t); len(bs) == 1 {
			return e.eval(bs[0], &bitEnv{vals: map[ssa.Value]bitVal{}, d: env.d + 1, seen: map[ssa.Value]bool{}})
		}
	case *ssa.Parameter:
		if env.up == nil && !is64(t.Type()) {
			// a helper that takes an index: look at every caller
			var r []bitVal
			idx := -1
			for i, p := range t.Parent().Params {
				if p == t {
					idx = i
				}
			}
			for _, cs := range e.sites[t.Parent()] {
				if idx < len(cs.args) && len(r) < 16 {
					r = append(r, e.eval(cs.args[idx], &bitEnv{vals: map[ssa.Value]bitVal{}, d: env.d + 3, seen: map[ssa.Value]bool{}})...)
				}
			}
			if len(r) > 0 {
				return r
			}
		}
	}
	if is64(v.Type()) {
		return []bitVal{bvLeaf()}
	}
	return []bitVal{bvTop(neg, "?")}
}

// reversed: the value is the bit-reversed hash an entry keeps.
func (e *bitEval) reversed(v ssa.Value, d int) bool {
	if d > 4 {
		return false
	}
	switch t := stripConv(v).(type) {
	case *ssa.UnOp:
		return t.Op == token.MUL && e.reverse != "" && addrKey(t.X) == "MapHead."+e.reverse
	case *ssa.Call:
		if op, ok := cellOpOf(t); ok {
			return op.kind == "load" && e.reverse != "" && addrKey(op.addr) == "MapHead."+e.reverse
		}
		f := t.Call.StaticCallee()
		if f == nil || !e.P.inMod[f] || f.Signature.Results().Len() != 1 {
			return false
		}
		n := 0
		for _, b := range f.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				n++
				if !e.reversed(ret.Results[0], d+1) {
					return false
				}
			}
		}
		return n > 0
	case *ssa.Phi:
		for _, x := range t.Edges {
			if !e.reversed(x, d+1) {
				return false
			}
		}
		return len(t.Edges) > 0
	}
	return false
}

func is64(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint64
}

// onlyStore: the single value ever stored to a local that may be captured.
func onlyStore(a *ssa.Alloc) ssa.Value {
	var val ssa.Value
	n := 0
	for _, r := range *a.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr == ssa.Value(a) {
				n++
				val = r.Val
			} else {
				return nil
			}
		case *ssa.MakeClosure:
			f := r.Fn.(*ssa.Function)
			for i, b := range r.Bindings {
				if b == ssa.Value(a) && closureWrites(f, i) {
					return nil
				}
			}
		}
	}
	if n == 1 {
		return val
	}
	return nil
}

func bvBin(op token.Token, a, b bitVal, neg, uns bool, w int) bitVal {
	der := a.derived || b.derived
	e := fmt.Sprintf("(%s%s%s)", a.expr, op, b.expr)
	bc, isC := b.isConst()
	ac, aC := a.isConst()
	if aC && isC {
		x, y := constant.MakeUint64(ac), constant.MakeUint64(bc)
		var c constant.Value
		switch op {
		case token.SHL, token.SHR:
			c = constant.Shift(x, op, uint(bc))
		case token.QUO:
			if bc != 0 {
				c = constant.BinaryOp(x, token.QUO_ASSIGN, y)
			}
		case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR, token.REM, token.AND_NOT:
			if !(op == token.REM && bc == 0) {
				c = constant.BinaryOp(x, op, y)
			}
		}
		if c != nil {
			if u, ok := constant.Uint64Val(c); ok {
				return bvConst(u)
			}
		}
		return bvTop(neg, e)
	}
	r := bitVal{expr: e, max: ^uint64(0), derived: der}
	for i := range r.b {
		r.b[i] = bZero
	}
	full := func() bitVal {
		t := bvTop(neg, e)
		t.derived = der
		for i := w; i < 64; i++ {
			t.b[i] = bZero
		}
		return t
	}
	switch op {
	case token.SHR:
		r.derived = true
		if !isC {
			t := full()
			t.derived = true
			t.neg = a.neg && !uns
			if !t.neg {
				t.max = a.max
			}
			t.norm()
			return t
		}
		if a.neg && !uns { // the sign is shifted in
			for i := 0; i < w; i++ {
				if k := i + int(bc); bc < 64 && k < w {
					r.b[i] = a.b[k]
				} else {
					r.b[i] = a.b[w-1]
				}
			}
			r.neg = true
			break
		}
		for i := 0; i < 64; i++ {
			if i+int(bc) < 64 && bc < 64 {
				r.b[i] = a.b[i+int(bc)]
			}
		}
		r.max = a.max >> bc
	case token.SHL:
		r.derived = true
		if !isC {
			return full()
		}
		for i := 63; i >= 0; i-- {
			if i-int(bc) >= 0 && bc < 64 && i < w {
				r.b[i] = a.b[i-int(bc)]
			}
		}
		r.neg = neg && r.b[w-1] != bZero
	case token.AND:
		r.derived = true
		for i := 0; i < 64; i++ {
			switch {
			case a.b[i] == bZero || b.b[i] == bZero:
			case a.b[i] == bOne:
				r.b[i] = b.b[i]
			case b.b[i] == bOne:
				r.b[i] = a.b[i]
			case a.b[i] == b.b[i]:
				r.b[i] = a.b[i]
			default:
				r.b[i] = bTop
			}
		}
		if !a.neg {
			r.max = a.max
		}
		if !b.neg && b.max < r.max {
			r.max = b.max
		}
	case token.AND_NOT:
		r.derived = true
		for i := 0; i < 64; i++ {
			switch {
			case b.b[i] == bOne || a.b[i] == bZero:
			case b.b[i] == bZero:
				r.b[i] = a.b[i]
			default:
				r.b[i] = bTop
			}
		}
	case token.OR, token.XOR:
		for i := 0; i < 64; i++ {
			switch {
			case a.b[i] == bZero:
				r.b[i] = b.b[i]
			case b.b[i] == bZero:
				r.b[i] = a.b[i]
			case op == token.OR && (a.b[i] == bOne || b.b[i] == bOne):
				r.b[i] = bOne
			case op == token.OR && a.b[i] == b.b[i]:
				r.b[i] = a.b[i]
			default:
				r.b[i] = bTop
			}
		}
		r.neg = a.neg || b.neg
	case token.REM:
		r.derived = true
		if !isC || bc == 0 || a.neg && !uns {
			t := full()
			t.derived = true
			return t
		}
		if a.max < bc {
			a.derived = true
			return a
		}
		if bc&(bc-1) == 0 {
			for i := 0; i < 64; i++ {
				if bc>>uint(i) > 1 {
					r.b[i] = a.b[i]
				}
			}
		} else {
			for i := range r.b {
				r.b[i] = bTop
			}
		}
		r.max = bc - 1
	case token.QUO:
		if !isC || bc == 0 || a.neg && !uns {
			return full()
		}
		if bc&(bc-1) == 0 {
			k := 0
			for bc>>uint(k) > 1 {
				k++
			}
			return bvBin(token.SHR, a, bvConst(uint64(k)), neg, uns, w)
		}
		for i := range r.b {
			r.b[i] = bTop
		}
		r.derived = true
		r.max = a.max / bc
	case token.MUL:
		if isC && bc != 0 && bc&(bc-1) == 0 {
			k := 0
			for bc>>uint(k) > 1 {
				k++
			}
			return bvBin(token.SHL, a, bvConst(uint64(k)), neg, uns, w)
		}
		return full()
	case token.ADD:
		if a.neg || b.neg || a.max > 1<<62 || b.max > 1<<62 {
			return full()
		}
		disj := true
		for i := range r.b {
			if a.b[i] != bZero && b.b[i] != bZero {
				disj = false
			}
		}
		if disj {
			return bvBin(token.OR, a, b, neg, uns, w)
		}
		for i := range r.b {
			r.b[i] = bTop
		}
		r.max = a.max + b.max
	default:
		return full()
	}
	if op == token.AND || op == token.AND_NOT {
		r.neg = !uns && a.neg && (b.neg || op == token.AND_NOT) && r.b[w-1] != bZero
	}
	r.norm()
	return r
}

func init() {
	register("C17", "Every index into a fixed-size array that is computed from a hash by shift, mask or modulus is evaluated bit by bit (each bit of the index is 0, 1, a bit of the hash or unknown): its maximum is below the array length and it is never negative, and all such indices into the bucket table, and into the shards of a Pool, select the same bits of the bit-reversed hash.",
		func(P *Prog, eff *Effects, r *Report) {
			_, reverse, _ := P.headRoles(eff, r)
			ev := &bitEval{P, eff, map[*ssa.Function][]callSite{}, reverse}
			for _, f := range P.fns {
				for _, cs := range eff.calls[f] {
					ev.sites[cs.callee] = append(ev.sites[cs.callee], cs)
				}
			}
			type use struct{ canon, where, fn string }
			groups := map[string][]use{}
			n := 0
			for _, f := range P.fns {
				for _, b := range f.Blocks {
					for _, i := range b.Instrs {
						var x, idx ssa.Value
						switch t := i.(type) {
						case *ssa.IndexAddr:
							x, idx = t.X, t.Index
						case *ssa.Index:
							x, idx = t.X, t.Index
						default:
							continue
						}
						at, ok := deref(x.Type()).Underlying().(*types.Array)
						if !ok {
							continue
						}
						vals := ev.eval(idx, &bitEnv{vals: map[ssa.Value]bitVal{}, seen: map[ssa.Value]bool{}})
						for _, v := range vals {
							if !v.derived {
								continue
							}
							n++
							ok := !v.neg && v.max < uint64(at.Len())
							if !ok {
								r.violate(P.instrPos(i), fname(f), "index within bounds", fmt.Sprintf("the index %s reaches %d (or is negative), the array has %d elements", v.expr, v.max, at.Len()), "")
							}
							k := addrKey(x)
							r.obligation(fmt.Sprintf("%s index %s of %s: max %d < %d", P.instrPos(i), v.expr, k, v.max, at.Len()), ok)
							g := k
							if strings.HasPrefix(k, "Pool.") {
								g = "Pool shards"
							} else if k != "Map.buckets" {
								// tables of other functions do not need to agree
								if !strings.Contains(k, ".") {
									continue
								}
							}
							groups[g] = append(groups[g], use{v.canon(), P.instrPos(i), fname(f)})
						}
					}
				}
			}
			var ks []string
			for k := range groups {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				us := groups[k]
				cnt := map[string]int{}
				for _, u := range us {
					cnt[u.canon]++
				}
				best := us[0].canon
				for c, m := range cnt {
					if m > cnt[best] || m == cnt[best] && c < best {
						best = c
					}
				}
				for _, u := range us {
					if u.canon != best {
						r.violate(u.where, u.fn, "one hash selects one shard", fmt.Sprintf("the index into %s uses the bits [%s] of the hash, other places use [%s]", k, u.canon, best), "")
					}
					r.obligation(fmt.Sprintf("%s %s selected by bits [%s]", u.where, k, u.canon), u.canon == best)
				}
			}
			r.need("hash-derived indices", n)
			if len(groups["Pool shards"]) == 0 {
				r.violate("-", "-", "anchor", "no hash-derived index into the shards of Pool", "")
			}
		})
}
