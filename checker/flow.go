package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Flow is a flow-insensitive, interprocedural graph of value flow. Nodes are
// SSA values, location classes (fields, elements, globals) and results.
type Flow struct {
	P    *Prog
	eff  *Effects
	succ map[any][]any
	seen map[[2]any]bool
	// rets: returns of a function
	rets map[*ssa.Function][]*ssa.Return
	// possible targets of unknown function values, by signature
	bySig map[string][]*ssa.Function
	calls map[*ssa.Function][]ssa.CallInstruction
	pdom  map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	// aliasOnly: only edges that keep the identity of the value
	aliasOnly bool
}

type retNode struct {
	f *ssa.Function
	i int
}

type locNode string

func newFlow(P *Prog, eff *Effects, aliasOnly bool) *Flow {
	g := &Flow{P: P, eff: eff, succ: map[any][]any{}, seen: map[[2]any]bool{}, rets: map[*ssa.Function][]*ssa.Return{}, bySig: map[string][]*ssa.Function{},
		calls: map[*ssa.Function][]ssa.CallInstruction{}, pdom: map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, aliasOnly: aliasOnly}
	for _, f := range P.fns {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if ret, ok := i.(*ssa.Return); ok {
					g.rets[f] = append(g.rets[f], ret)
				}
				var ops []*ssa.Value
				for _, op := range i.Operands(ops) {
					if fn, ok := (*op).(*ssa.Function); ok {
						if ci, isC := i.(ssa.CallInstruction); isC && ci.Common().Value == ssa.Value(fn) {
							continue
						}
						g.addSig(fn)
					}
				}
				if mc, ok := i.(*ssa.MakeClosure); ok {
					g.addSig(mc.Fn.(*ssa.Function))
				}
			}
		}
	}
	for _, f := range P.fns {
		g.scan(f)
	}
	return g
}

func sigKey(s *types.Signature) string {
	var b strings.Builder // parameter names do not matter
	for i := 0; i < s.Params().Len(); i++ {
		b.WriteString(typeKey(s.Params().At(i).Type()) + ",")
	}
	b.WriteString(")")
	for i := 0; i < s.Results().Len(); i++ {
		b.WriteString(typeKey(s.Results().At(i).Type()) + ",")
	}
	return b.String()
}

func (g *Flow) addSig(f *ssa.Function) {
	k := sigKey(f.Signature)
	for _, o := range g.bySig[k] {
		if o == f {
			return
		}
	}
	g.bySig[k] = append(g.bySig[k], f)
}

func (g *Flow) edge(a, b any) {
	if a == nil || b == nil {
		return
	}
	k := [2]any{a, b}
	if g.seen[k] {
		return
	}
	g.seen[k] = true
	g.succ[a] = append(g.succ[a], b)
}

// loc names the location class of an address: local cells by their allocation,
// fields by name, globals by name.
func loc(v ssa.Value) any {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		if r := addrRoot(v); r != nil {
			if a, ok := r.(*ssa.Alloc); ok && !a.Heap {
				return a
			}
			if gl, ok := r.(*ssa.Global); ok {
				k, id, _ := fieldKey(deref(x.X.Type()), x.Field)
				if !id {
					return locNode("global:" + gl.Pkg.Pkg.Path() + "." + gl.Name() + "/" + k)
				}
			}
		}
		k, id, _ := fieldKey(deref(x.X.Type()), x.Field)
		if id {
			return loc(x.X)
		}
		return locNode(k)
	case *ssa.IndexAddr:
		if a, ok := addrRoot(v).(*ssa.Alloc); ok {
			return a
		}
		return locNode("elem:" + typeKey(deref(x.Type())))
	case *ssa.Convert:
		return loc(x.X)
	case *ssa.ChangeType:
		return loc(x.X)
	case *ssa.Global:
		return locNode("global:" + x.Pkg.Pkg.Path() + "." + x.Name())
	case *ssa.Alloc:
		return x
	case *ssa.FreeVar:
		return x
	}
	return locNode("deref:" + typeKey(deref(v.Type())))
}

// targets of a call inside the module.
func (g *Flow) targets(c *ssa.CallCommon) (fs []*ssa.Function, free []ssa.Value) {
	if c.IsInvoke() {
		return g.eff.implementers(c.Method), nil
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return nil, nil
	}
	if f := c.StaticCallee(); f != nil {
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			free = mc.Bindings
		}
		if len(f.Blocks) > 0 {
			return []*ssa.Function{f}, free
		}
		return nil, nil
	}
	return g.bySig[sigKey(c.Signature())], nil
}

func (g *Flow) scan(f *ssa.Function) {
	for i, ret := range g.rets[f] {
		_ = i
		for k, v := range ret.Results {
			g.edge(v, retNode{f, k})
		}
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			v, _ := i.(ssa.Value)
			switch x := i.(type) {
			case *ssa.Phi:
				for _, e := range x.Edges {
					g.edge(e, v)
				}
			case *ssa.BinOp:
				if !g.aliasOnly {
					g.edge(x.X, v)
					g.edge(x.Y, v)
				}
			case *ssa.UnOp:
				if x.Op == token.MUL {
					g.edge(loc(x.X), v)
					if !g.aliasOnly {
						g.edge(x.X, v)
						g.edge(addrRoot(x.X), v)
					}
				} else if !g.aliasOnly {
					g.edge(x.X, v)
				}
			case *ssa.Store:
				g.edge(x.Val, loc(x.Addr))
			case *ssa.MapUpdate:
				g.edge(x.Value, locNode("map:"+typeKey(x.Map.Type())))
				if !g.aliasOnly {
					g.edge(x.Key, locNode("map:"+typeKey(x.Map.Type())))
				}
			case *ssa.Lookup:
				g.edge(locNode("map:"+typeKey(x.X.Type())), v)
				if !g.aliasOnly {
					g.edge(x.X, v)
					g.edge(x.Index, v)
				}
			case *ssa.Range:
				g.edge(locNode("map:"+typeKey(x.X.Type())), v)
				g.edge(x.X, v)
			case *ssa.Send:
				g.edge(x.X, locNode("chan:"+typeKey(x.Chan.Type())))
			case *ssa.MakeClosure:
				fn := x.Fn.(*ssa.Function)
				for k, bd := range x.Bindings {
					if k < len(fn.FreeVars) {
						g.edge(bd, fn.FreeVars[k])
						if a, ok := bd.(*ssa.Alloc); ok {
							g.edge(any(fn.FreeVars[k]), any(a)) // the captured cell is the same cell
						}
					}
				}
				g.edge(fn, v)
			case *ssa.Return, *ssa.If, *ssa.Jump, *ssa.Panic, *ssa.DebugRef, *ssa.RunDefers, *ssa.Alloc, *ssa.MakeMap, *ssa.MakeChan, *ssa.MakeSlice:
			case ssa.CallInstruction:
				g.scanCall(x)
			default:
				if v == nil {
					break
				}
				if g.aliasOnly {
					switch y := i.(type) {
					case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Index, *ssa.Field, *ssa.Slice:
						if sl, ok := y.(*ssa.Slice); ok {
							if _, ok := sl.X.Type().Underlying().(*types.Slice); ok {
								g.edge(sl.X, v) // the same elements
							}
						}
						goto next
					}
				}
				{
					var ops []*ssa.Value
					for _, op := range i.Operands(ops) {
						if *op != nil {
							g.edge(*op, v)
						}
					}
				}
			next:
			}
			if x, ok := i.(*ssa.UnOp); ok && x.Op == token.ARROW {
				g.edge(locNode("chan:"+typeKey(x.X.Type())), v)
			}
		}
	}
}

func (g *Flow) scanCall(ci ssa.CallInstruction) {
	c := ci.Common()
	f := ci.Parent()
	g.calls[f] = append(g.calls[f], ci)
	v := ci.Value()
	args := c.Args
	if c.IsInvoke() {
		args = append([]ssa.Value{c.Value}, c.Args...)
	}
	ts, free := g.targets(c)
	for _, t := range ts {
		for k, a := range args {
			if k < len(t.Params) {
				g.edge(a, t.Params[k])
				if al, ok := a.(*ssa.Alloc); ok && !g.aliasOnly {
					// a local cell passed by address
					g.edge(locNode("deref:"+typeKey(deref(al.Type()))), al)
				}
			}
		}
		for k, a := range free {
			if k < len(t.FreeVars) {
				g.edge(a, t.FreeVars[k])
			}
		}
		if v != nil {
			n := t.Signature.Results().Len()
			if n == 1 {
				g.edge(retNode{t, 0}, v)
			} else if n > 1 {
				for _, r := range *v.Referrers() {
					if ex, ok := r.(*ssa.Extract); ok {
						g.edge(retNode{t, ex.Index}, ex)
					}
				}
			}
		}
	}
	if len(ts) > 0 && !c.IsInvoke() {
		return
	}
	// external
	sc := c.StaticCallee()
	if sc != nil {
		pkg, _, name := calleeName(sc)
		if pkg == "sync/atomic" && len(args) > 0 {
			l := loc(args[0])
			if v != nil {
				g.edge(l, v)
				if !g.aliasOnly {
					g.edge(addrRootVal(args[0]), v)
				}
			}
			if !strings.HasPrefix(name, "Load") {
				g.edge(args[len(args)-1], l)
			}
			return
		}
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			if v != nil {
				for _, a := range args {
					g.edge(a, v)
				}
			}
			return
		case "copy":
			g.edge(args[1], loc2(args[0]))
			return
		}
	}
	if g.aliasOnly {
		return
	}
	if v != nil {
		for _, a := range args {
			g.edge(a, v)
		}
		if v.Referrers() != nil {
			for _, r := range *v.Referrers() {
				if ex, ok := r.(*ssa.Extract); ok {
					g.edge(v, ex)
				}
			}
		}
	}
}

func addrRootVal(v ssa.Value) any { return addrRoot(v) }

func loc2(v ssa.Value) any {
	if st, ok := v.Type().Underlying().(*types.Slice); ok {
		return locNode("elem:" + typeKey(st.Elem()))
	}
	return loc(v)
}

// reach gives everything reachable from the seeds.
func (g *Flow) reach(seeds ...any) map[any]any {
	from := map[any]any{}
	q := []any{}
	for _, s := range seeds {
		if _, ok := from[s]; !ok {
			from[s] = nil
			q = append(q, s)
		}
	}
	for len(q) > 0 {
		n := q[0]
		q = q[1:]
		for _, m := range g.succ[n] {
			if _, ok := from[m]; !ok {
				from[m] = n
				q = append(q, m)
			}
		}
	}
	return from
}

// postdom: blocks that post-dominate each block.
func (g *Flow) postdom(f *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	if p, ok := g.pdom[f]; ok {
		return p
	}
	all := map[*ssa.BasicBlock]bool{}
	for _, b := range f.Blocks {
		all[b] = true
	}
	p := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range f.Blocks {
		if len(b.Succs) == 0 {
			p[b] = map[*ssa.BasicBlock]bool{b: true}
		} else {
			p[b] = cp(all)
		}
	}
	for ch := true; ch; {
		ch = false
		for i := len(f.Blocks) - 1; i >= 0; i-- {
			b := f.Blocks[i]
			if len(b.Succs) == 0 {
				continue
			}
			n := map[*ssa.BasicBlock]bool{}
			for k := range p[b.Succs[0]] {
				in := true
				for _, s := range b.Succs[1:] {
					if !p[s][k] {
						in = false
						break
					}
				}
				if in {
					n[k] = true
				}
			}
			n[b] = true
			if len(n) != len(p[b]) {
				p[b] = n
				ch = true
			}
		}
	}
	g.pdom[f] = p
	return p
}

// controlled: blocks whose execution depends on the branch that ends b.
func (g *Flow) controlled(b *ssa.BasicBlock) []*ssa.BasicBlock {
	pd := g.postdom(b.Parent())
	stop := map[*ssa.BasicBlock]bool{}
	for k := range pd[b] {
		if k != b {
			stop[k] = true
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var st []*ssa.BasicBlock
	st = append(st, b.Succs...)
	for len(st) > 0 {
		c := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[c] || stop[c] {
			continue
		}
		seen[c] = true
		st = append(st, c.Succs...)
	}
	var r []*ssa.BasicBlock
	for c := range seen {
		r = append(r, c)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Index < r[j].Index })
	return r
}
