package main

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

const ruleSearchIdx = "the position a search gives is compared with the length before an element is taken there"

// searchIndices: a binary search gives the length when nothing is found, also
// zero for an empty table; no element is taken at it before that was excluded.
func (r *Report) searchIndices(P *Prog) {
	n := 0
	for _, f := range P.fns {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				c, ok := i.(*ssa.Call)
				if !ok {
					continue
				}
				g := c.Call.StaticCallee()
				if g == nil {
					continue
				}
				if g.Origin() != nil {
					g = g.Origin()
				}
				pk := g.Pkg
				if pk == nil {
					continue
				}
				switch pk.Pkg.Path() {
				case "sort", "slices":
				default:
					continue
				}
				switch g.Name() {
				case "Search", "SearchInts", "SearchStrings", "SearchFloat64s", "Find", "BinarySearch", "BinarySearchFunc":
				default:
					continue
				}
				n++
				var idx []ssa.Value
				if _, ok := c.Type().Underlying().(*types.Tuple); ok {
					for _, u := range *c.Referrers() {
						if e, ok := u.(*ssa.Extract); ok && e.Index == 0 {
							idx = append(idx, e)
						}
					}
				} else {
					idx = append(idx, c)
				}
				bad := false
				for _, v := range idx {
					if at := uncheckedUse(P, v, 0); at != nil {
						bad = true
						r.violate(P.instrPos(at), fname(at.Parent()), ruleSearchIdx, "the element at the position found by the search at "+P.instrPos(c)+" is taken although the position may be the length", "")
					}
				}
				r.obligation("search at "+P.instrPos(c)+" in "+fname(f), !bad)
			}
		}
	}
	r.count("searches", n)
}

// uncheckedUse: an instruction that takes the element at the index without a test of the index before.
func uncheckedUse(P *Prog, idx ssa.Value, depth int) ssa.Instruction {
	vals := map[ssa.Value]bool{idx: true}
	scaled := map[ssa.Value]bool{}
	for again := true; again; {
		again = false
		add := func(m map[ssa.Value]bool, v ssa.Value) {
			if !m[v] {
				m[v] = true
				again = true
			}
		}
		for v := range vals {
			if v.Referrers() == nil {
				continue
			}
			for _, u := range *v.Referrers() {
				switch y := u.(type) {
				case *ssa.Convert:
					add(vals, y)
				case *ssa.ChangeType:
					add(vals, y)
				case *ssa.BinOp:
					if y.Op == token.MUL || y.Op == token.SHL || y.Op == token.ADD {
						add(scaled, y)
					}
				}
			}
		}
		for v := range scaled {
			if v.Referrers() == nil {
				continue
			}
			for _, u := range *v.Referrers() {
				switch y := u.(type) {
				case *ssa.Convert:
					add(scaled, y)
				case *ssa.BinOp:
					if y.Op == token.MUL || y.Op == token.SHL || y.Op == token.ADD {
						add(scaled, y)
					}
				}
			}
		}
	}
	var tested func(at *ssa.BasicBlock, d int) bool
	tested = func(at *ssa.BasicBlock, d int) bool {
		// a condition that can only hold where a test has succeeded
		for b := at; b != nil && d < 3; b = b.Idom() {
			p := b.Idom()
			if p == nil || len(p.Instrs) == 0 || len(b.Preds) != 1 || len(p.Succs) != 2 || p.Succs[0] != b {
				continue
			}
			ifi, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			phi, ok := ifi.Cond.(*ssa.Phi)
			if !ok {
				continue
			}
			all := true
			for k, e := range phi.Edges {
				if c, ok := e.(*ssa.Const); ok && c.Value != nil && !constant.BoolVal(c.Value) {
					continue
				}
				if !tested(phi.Block().Preds[k], d+1) {
					all = false
				}
			}
			if all {
				return true
			}
		}
		for v := range vals {
			if v.Referrers() == nil {
				continue
			}
			for _, u := range *v.Referrers() {
				c, ok := u.(*ssa.BinOp)
				if !ok {
					continue
				}
				// a comparison with zero or another constant says nothing about the length
				if _, k := c.Y.(*ssa.Const); k && c.X == v {
					continue
				}
				if _, k := c.X.(*ssa.Const); k && c.Y == v {
					continue
				}
				switch c.Op {
				case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
				default:
					continue
				}
				for _, w := range *c.Referrers() {
					if ifi, ok := w.(*ssa.If); ok {
						for k, sc := range ifi.Block().Succs {
							if len(sc.Preds) == 1 && sc.Dominates(at) && below(c, v, k == 0) {
								return true
							}
						}
					}
				}
			}
		}
		return false
	}
	for _, m := range []map[ssa.Value]bool{vals, scaled} {
		for v := range m {
			if v.Referrers() == nil {
				continue
			}
			for _, u := range *v.Referrers() {
				take := false
				switch y := u.(type) {
				case *ssa.IndexAddr:
					if _, ok := y.X.Type().Underlying().(*types.Slice); ok {
						take = y.Index == v
					}
				case *ssa.Call:
					if isElemStep(y) {
						take = len(y.Call.Args) > 1 && y.Call.Args[1] == v
						break
					}
					g := y.Call.StaticCallee()
					if g == nil || !P.inMod[g] || depth > 2 || !vals[v] {
						break
					}
					for k, a := range y.Call.Args {
						if a == v && k < len(g.Params) && uncheckedUse(P, g.Params[k], depth+1) != nil {
							take = true
						}
					}
				}
				if take && !tested(u.Block(), 0) {
					return u
				}
			}
		}
	}
	return nil
}

// below: on that side of the comparison the index is not above, or is not, what it is compared with.
func below(c *ssa.BinOp, v ssa.Value, side bool) bool {
	op := c.Op
	if c.Y == v && c.X != v {
		switch op {
		case token.LSS:
			op = token.GTR
		case token.LEQ:
			op = token.GEQ
		case token.GTR:
			op = token.LSS
		case token.GEQ:
			op = token.LEQ
		}
	}
	switch op {
	case token.LSS, token.NEQ:
		return side
	case token.GEQ, token.EQL:
		return !side
	}
	// one less than the length
	o := c.Y
	if c.Y == v {
		o = c.X
	}
	if s, ok := o.(*ssa.BinOp); !ok || s.Op != token.SUB {
		return false
	}
	switch op {
	case token.LEQ:
		return side
	case token.GTR:
		return !side
	}
	return false
}
