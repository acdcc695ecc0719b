package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// valueCells judges what is stored in cells of type atomic.Value, which
// panic when nil or a second concrete type is stored.
type valueCells struct {
	P   *Prog
	eff *Effects
}

// classes names the cells an address can stand for: fields by name, all
// others by the package that made them.
func (c *valueCells) classes(v ssa.Value, seen map[ssa.Value]bool) map[string]bool {
	res := map[string]bool{}
	if seen[v] {
		return res
	}
	seen[v] = true
	add := func(w ssa.Value) {
		for k := range c.classes(w, seen) {
			res[k] = true
		}
	}
	switch y := stripConv(v).(type) {
	case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Global:
		k := addrKey(y)
		if ia, ok := y.(*ssa.IndexAddr); ok {
			k += "@" + addrKey(stripConv(ia.X))
		}
		res[k] = true
	case *ssa.Phi:
		for _, e := range y.Edges {
			add(e)
		}
	case *ssa.Parameter:
		idx := paramIndex(y)
		callers, known := c.eff.callersOf(y.Parent())
		for _, a := range c.argsOf(callers, y.Parent(), idx) {
			add(a)
		}
		if !known || len(callers) == 0 {
			res["cells of "+y.Parent().Pkg.Pkg.Name()] = true
		}
	default:
		p := "?"
		if f := v.Parent(); f != nil && f.Pkg != nil {
			p = f.Pkg.Pkg.Name()
		}
		res["cells of "+p] = true
	}
	return res
}

func paramIndex(p *ssa.Parameter) int {
	for i, q := range p.Parent().Params {
		if q == p {
			return i
		}
	}
	return -1
}

func (c *valueCells) argsOf(callers []*ssa.Function, f *ssa.Function, idx int) (as []ssa.Value) {
	for _, g := range callers {
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				if ci, ok := i.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == f && idx < len(ci.Common().Args) {
					as = append(as, ci.Common().Args[idx])
				}
			}
		}
	}
	return
}

// kinds: the concrete types an interface value can have; "nil" for none and
// "any type" if it is not known.
func (c *valueCells) kinds(v ssa.Value, seen map[ssa.Value]bool) map[string]types.Type {
	res := map[string]types.Type{}
	if seen[v] {
		return res
	}
	seen[v] = true
	add := func(w ssa.Value) {
		for k, t := range c.kinds(w, seen) {
			res[k] = t
		}
	}
	switch y := v.(type) {
	case *ssa.MakeInterface:
		res[typeKey(y.X.Type())] = y.X.Type()
	case *ssa.ChangeInterface:
		add(y.X)
	case *ssa.Const:
		if y.IsNil() {
			res["nil"] = nil
		} else {
			res["any type"] = nil
		}
	case *ssa.Phi:
		for _, e := range y.Edges {
			add(e)
		}
	case *ssa.Parameter:
		callers, known := c.eff.callersOf(y.Parent())
		for _, a := range c.argsOf(callers, y.Parent(), paramIndex(y)) {
			add(a)
		}
		if !known || len(callers) == 0 {
			res["any type"] = nil
		}
	case *ssa.FreeVar:
		bs := c.eff.bindings(y)
		for _, b := range bs {
			add(b)
		}
		if len(bs) == 0 {
			res["any type"] = nil
		}
	case *ssa.UnOp:
		al, ok := stripConv(y.X).(*ssa.Alloc)
		if y.Op != token.MUL || !ok {
			res["any type"] = nil
			break
		}
		for _, ref := range *al.Referrers() {
			switch z := ref.(type) {
			case *ssa.Store:
				if z.Addr == ssa.Value(al) {
					add(z.Val)
				} else {
					res["any type"] = nil
				}
			case *ssa.UnOp, *ssa.DebugRef:
			default:
				res["any type"] = nil
			}
		}
	case *ssa.Extract:
		call, ok := y.Tuple.(*ssa.Call)
		if !ok {
			res["any type"] = nil
			break
		}
		c.results(call, y.Index, res, seen)
	case *ssa.Call:
		c.results(y, 0, res, seen)
	default:
		res["any type"] = nil
	}
	return res
}

func (c *valueCells) results(call *ssa.Call, idx int, res map[string]types.Type, seen map[ssa.Value]bool) {
	f := call.Call.StaticCallee()
	if f != nil {
		if pkg, recv, name := calleeName(f); pkg == "sync/atomic" && recv == "Value" && (name == "Load" || name == "Swap") {
			for k := range c.classes(call.Call.Args[0], map[ssa.Value]bool{}) {
				res["loaded:"+k] = nil
			}
			return
		}
	}
	if f == nil || !c.P.inMod[f] || len(f.Blocks) == 0 {
		res["any type"] = nil
		return
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if r, ok := i.(*ssa.Return); ok && idx < len(r.Results) {
				for k, t := range c.kinds(r.Results[idx], seen) {
					res[k] = t
				}
			}
		}
	}
}

// strictlyComparable: comparing two values of t never panics.
func strictlyComparable(t types.Type) bool {
	if !types.Comparable(t) {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		return false
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !strictlyComparable(u.Field(i).Type()) {
				return false
			}
		}
	case *types.Array:
		return strictlyComparable(u.Elem())
	}
	return true
}

const (
	ruleOneType = "a cell only ever holds values of one concrete type"
	ruleCompare = "values of the user are not compared"
	ruleAssert  = "no type of a value of the user is presumed"
	ruleRound   = "a value that has been set is the one that is read"
)

func init() {
	register("C15", "Every atomic.Value in the module receives, at all of its stores, values of exactly one concrete type, never nil; compare-and-swap is only used on types whose comparison cannot panic; values of the user never reach an unchecked type assertion, an interface comparison or a map key; and for every item type and every value, Value after SetValue gives the value itself.",
		func(P *Prog, eff *Effects, r *Report) {
			c := &valueCells{P, eff}
			c.stores(r)
			c.flows(r)
			c.roundTrip(r)
			c.results15(r)
		})
}

func (c *valueCells) stores(r *Report) {
	P := c.P
	kinds := map[string]map[string]string{} // class -> type -> place
	loose := map[string]string{}            // class -> a type that may not be comparable
	type casOp struct {
		i   ssa.Instruction
		cls map[string]bool
	}
	var swaps []casOp
	n := 0
	for _, f := range P.fns {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				op, ok := cellOpOf(i)
				if !ok || op.kind != "mutate" || !strings.HasPrefix(op.name, "Value.") {
					continue
				}
				n++
				args := i.(ssa.CallInstruction).Common().Args
				cls := c.classes(args[0], map[ssa.Value]bool{})
				good := true
				viol := func(rule, what string) {
					good = false
					r.violate(P.instrPos(i), fname(f), rule, what, "")
				}
				cas := strings.HasSuffix(op.name, "CompareAndSwap")
				for k, a := range args[1:] {
					old := cas && k == 0
					for t, tt := range c.kinds(a, map[ssa.Value]bool{}) {
						switch {
						case t == "nil" && old:
						case t == "nil":
							viol(ruleOneType, "nil is stored in a cell, which panics")
						case t == "any type":
							viol(ruleOneType, "a value of any type is stored in a cell that only accepts one concrete type and not nil")
						case strings.HasPrefix(t, "loaded:"):
							if !cls[t[7:]] {
								viol(ruleOneType, "a value of another cell, maybe nil, is stored")
							}
						default:
							for k := range cls {
								if !strictlyComparable(tt) {
									loose[k] = t
								}
								if kinds[k] == nil {
									kinds[k] = map[string]string{}
								}
								kinds[k][t] = P.instrPos(i)
							}
						}
						if old && t != "nil" {
							swaps = append(swaps, casOp{i, cls})
						}
					}
				}
				r.obligation(fmt.Sprintf("%s: %s at %s stores values of known types", fname(f), op.name, P.instrPos(i)), good)
			}
		}
	}
	var ks []string
	for k := range kinds {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		ts := map[string]bool{}
		at := ""
		for t, p := range kinds[k] {
			ts[t] = true
			at = p
		}
		if len(ts) > 1 {
			r.violate(at, "-", ruleOneType, "the cell "+k+" receives values of the types "+strings.Join(sortedKeys(ts), ", ")+": the second one panics", "")
		}
		r.obligation("cell "+k+" receives "+strings.Join(sortedKeys(ts), ", "), len(ts) == 1)
	}
	r.count("stores to cells", n)
	for _, s := range swaps {
		good := true
		for k := range s.cls {
			if t := loose[k]; t != "" {
				good = false
				r.violate(P.instrPos(s.i), fname(s.i.Parent()), ruleCompare, "compare-and-swap compares values of type "+t+", which panics if they hold something that cannot be compared", "")
			}
		}
		r.obligation("compare-and-swap at "+P.instrPos(s.i)+" compares values that can be compared", good)
	}
}

// userValues: the parameters that receive values of the user.
func (c *valueCells) userValues(r *Report) (seeds []any, n int) {
	add := func(f *ssa.Function, from int) {
		for k := from; k < len(f.Params); k++ {
			if t := f.Params[k].Type(); types.IsInterface(t) && t.Underlying().(*types.Interface).NumMethods() == 0 {
				seeds = append(seeds, f.Params[k])
				n++
			}
		}
	}
	for _, t := range c.P.itemTypes() {
		if m := c.P.methodOf(t, "SetValue"); m != nil {
			add(m, 1)
		}
	}
	for _, kr := range c.P.keyRoots(r) {
		if kr.kind == "update" {
			add(kr.f, 2)
		}
	}
	for _, f := range c.P.fns {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if ci, ok := i.(ssa.CallInstruction); ok && ci.Value() != nil && c.eff.isItemCall(ci, "Value") {
					seeds = append(seeds, ci.Value())
				}
			}
		}
	}
	return
}

func (c *valueCells) flows(r *Report) {
	P := c.P
	seeds, n := c.userValues(r)
	r.need("parameters with values of the user", n)
	g := newFlow(P, c.eff, true)
	reached := g.reach(seeds...)
	user := func(v ssa.Value) bool {
		_, ok := reached[v]
		return ok && types.IsInterface(v.Type())
	}
	safe := func(v ssa.Value) bool {
		for k, t := range c.kinds(v, map[ssa.Value]bool{}) {
			if k != "nil" && (t == nil || !strictlyComparable(t)) {
				return false
			}
		}
		return true
	}
	nu := 0
	for _, f := range P.fns {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				bad := func(rule, what string) {
					r.violate(P.instrPos(i), fname(f), rule, what, "")
				}
				switch y := i.(type) {
				case *ssa.TypeAssert:
					if !user(y.X) {
						continue
					}
					nu++
					loaded := true
					for k := range c.kinds(y.X, map[ssa.Value]bool{}) {
						loaded = loaded && strings.HasPrefix(k, "loaded:")
					}
					if !y.CommaOk && !loaded {
						bad(ruleAssert, "a value of the user is asserted to be of type "+typeKey(y.AssertedType)+", which panics for others")
					}
					r.obligation(fmt.Sprintf("%s: type assertion at %s is checked", fname(f), P.instrPos(i)), y.CommaOk || loaded)
				case *ssa.BinOp:
					if y.Op != token.EQL && y.Op != token.NEQ || !user(y.X) && !user(y.Y) {
						continue
					}
					nu++
					good := safe(y.X) || safe(y.Y)
					if !good {
						bad(ruleCompare, "a value of the user is compared, which panics if its type cannot be compared")
					}
					r.obligation(fmt.Sprintf("%s: comparison at %s cannot panic", fname(f), P.instrPos(i)), good)
				case *ssa.MapUpdate:
					if user(y.Key) {
						bad(ruleCompare, "a value of the user is used as key of a table, which panics if its type cannot be compared")
					}
				case *ssa.Lookup:
					if user(y.Index) {
						bad(ruleCompare, "a value of the user is used as key of a table, which panics if its type cannot be compared")
					}
				}
			}
		}
	}
	r.count("values reached by values of the user", len(reached))
	r.count("uses of values of the user that are judged", nu)
}

func (c *valueCells) roundTrip(r *Report) {
	P := c.P
	for _, t := range P.itemTypes() {
		set, get := P.methodOf(t, "SetValue"), P.methodOf(t, "Value")
		if set == nil || get == nil || !P.inMod[set] || !P.inMod[get] {
			continue
		}
		for _, null := range []bool{false, true} {
			cl := &Client{interesting: func(x *Exec, i ssa.Instruction) bool { return true }}
			x := newExec(P, c.eff, cl)
			u := x.u
			st := newState()
			recv := u.sym("item", set.Params[0].Type(), "item")
			v := u.sym("value", set.Params[1].Type(), "value")
			st.born[recv], st.born[v] = true, true
			st.addFact(eqFact(recv, u.Nil, true))
			st.addFact(eqFact(v, u.Nil, !null))
			n := 0
			for _, o := range x.run(set, []*Term{recv, v}, nil, st, x.ctx(nil, nil, set)) {
				if len(o.rets) == 1 && u.evalEq(o.st, o.rets[0], u.Fals) == 1 {
					continue // reported as failed
				}
				for _, p := range x.run(get, []*Term{recv}, nil, o.st, x.ctx(nil, nil, get)) {
					n++
					good := len(p.rets) == 1 && u.evalEq(p.st, p.rets[0], v) == 1
					if !good {
						got := "nothing"
						if len(p.rets) == 1 {
							got = p.rets[0].String()
						}
						r.violate(P.pos(get.Pos()), fname(get), ruleRound, "after "+fname(set)+" the value read is "+got+" and not the one that has been set", p.st.path(15))
					}
					r.obligation(fmt.Sprintf("%s gives the value set by %s (nil: %v) via %s", fname(get), fname(set), null, p.st.path(10)), good)
				}
			}
			r.need("paths through "+fname(set)+" and "+fname(get), n)
			x.finish(r)
		}
	}
}

// valueFields: the fields in which SetValue puts the value itself.
func (c *valueCells) valueFields() map[string]bool {
	res := map[string]bool{}
	for _, t := range c.P.itemTypes() {
		m := c.P.methodOf(t, "SetValue")
		if m == nil || len(m.Params) < 2 {
			continue
		}
		g := newFlow(c.P, c.eff, true)
		reached := g.reach(m.Params[1])
		for f := range c.eff.reachable(m) {
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					if st, ok := i.(*ssa.Store); ok {
						if _, ok := reached[st.Val]; ok || st.Val == ssa.Value(m.Params[1]) {
							if fa, ok := stripConv(st.Addr).(*ssa.FieldAddr); ok {
								k, _, _ := fieldKey(deref(fa.X.Type()), fa.Field)
								res[k] = true
							}
						}
					}
				}
			}
		}
	}
	return res
}

// results15: what lookups give to the user are values of entries.
func (c *valueCells) results15(r *Report) {
	fields := c.valueFields()
	n := 0
	for _, kr := range c.P.keyRoots(r) {
		res := kr.f.Signature.Results()
		if kr.kind != "lookup" || res.Len() == 0 {
			continue
		}
		t := res.At(0).Type()
		if it, ok := t.Underlying().(*types.Interface); !ok || it.NumMethods() != 0 {
			continue
		}
		n++
		bad := map[ssa.Value]string{}
		c.sources(kr.f, 0, fields, map[any]bool{}, bad)
		for v, why := range bad {
			p := kr.f.Pos()
			if v.Pos().IsValid() {
				p = v.Pos()
			}
			r.violate(c.P.pos(p), fname(kr.f), ruleRound, fname(kr.f)+" returns "+why+", which is not the value of an entry", "")
		}
		r.obligation(fname(kr.f)+" returns values of entries or none", len(bad) == 0)
	}
	r.need("lookups that return values", n)
}

func (c *valueCells) sources(f *ssa.Function, idx int, fields map[string]bool, seen map[any]bool, bad map[ssa.Value]string) {
	if seen[retNode{f, idx}] {
		return
	}
	seen[retNode{f, idx}] = true
	var walk func(v ssa.Value)
	call := func(v ssa.Value, cl *ssa.Call, k int) {
		if c.eff.isItemCall(cl, "Value") {
			return
		}
		g := cl.Call.StaticCallee()
		if g == nil || !c.P.inMod[g] || len(g.Blocks) == 0 {
			bad[v] = "the result of a call"
			return
		}
		c.sources(g, k, fields, seen, bad)
	}
	walk = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch y := v.(type) {
		case *ssa.Const:
			if !y.IsNil() {
				bad[v] = "a constant"
			}
		case *ssa.Phi:
			for _, e := range y.Edges {
				walk(e)
			}
		case *ssa.ChangeInterface:
			walk(y.X)
		case *ssa.Call:
			call(v, y, 0)
		case *ssa.Extract:
			if cl, ok := y.Tuple.(*ssa.Call); ok {
				call(v, cl, y.Index)
				return
			}
			bad[v] = "another value"
		case *ssa.Field:
			k, _, _ := fieldKey(y.X.Type(), y.Field)
			if !fields[k] {
				bad[v] = "a field " + k
			}
		case *ssa.UnOp:
			switch a := stripConv(y.X).(type) {
			case *ssa.FieldAddr:
				k, _, _ := fieldKey(deref(a.X.Type()), a.Field)
				if !fields[k] {
					bad[v] = "a field " + k
				}
			case *ssa.Alloc:
				for _, ref := range *a.Referrers() {
					if st, ok := ref.(*ssa.Store); ok && st.Addr == ssa.Value(a) {
						walk(st.Val)
					}
				}
			case *ssa.FreeVar:
				bad[v] = "a captured variable"
			default:
				bad[v] = "another value"
			}
		case *ssa.Parameter:
			callers, known := c.eff.callersOf(f)
			for _, a := range c.argsOf(callers, f, paramIndex(y)) {
				walk(a)
			}
			if !known {
				bad[v] = "an argument"
			}
		default:
			bad[v] = "another value"
		}
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if r, ok := i.(*ssa.Return); ok && idx < len(r.Results) {
				walk(r.Results[idx])
			}
		}
	}
}
