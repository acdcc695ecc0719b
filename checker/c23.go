package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// mapState: writes that change what operations see: entries, lists, buckets,
// pools, maps and the tables of rmap.
func (P *Prog) mapState() func(k string) bool {
	own := map[string]bool{}
	if mt := P.root.Type("Map"); mt != nil {
		own = P.structsFrom(mt.Type())
	}
	own["SampleItem"] = true
	own["MapHead"] = true
	return func(k string) bool {
		if k == "link" || k == "chan" || strings.HasPrefix(k, "elem:") || strings.HasPrefix(k, "slice.") || strings.HasPrefix(k, "deref:") {
			return true
		}
		if i := strings.Index(k, "."); i > 0 {
			return own[k[:i]] || strings.HasPrefix(k, "rmap.")
		}
		return own[k]
	}
}

// diagnosis finds what only selects what is counted, logged or dumped: reads of
// the statistics switch, the counters and the log output, and the log level tests.
func (P *Prog) diagnosis() map[ssa.Value]string {
	vars := map[*ssa.Global]bool{}
	for _, n := range []string{"EnableStats", "DebugStats"} {
		if g, ok := P.root.Members[n].(*ssa.Global); ok {
			vars[g] = true
		}
	}
	if f, ok := P.root.Members["SetLogIO"].(*ssa.Function); ok {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if st, ok := i.(*ssa.Store); ok {
					if g, ok := addrRoot(st.Addr).(*ssa.Global); ok {
						vars[g] = true
					}
				}
			}
		}
	}
	level := func(f *ssa.Function) bool {
		sig := f.Signature
		if f.Pkg != P.root || sig.Recv() != nil || sig.Params().Len() != 0 || sig.Results().Len() != 1 || !types.Identical(sig.Results().At(0).Type(), types.Typ[types.Bool]) {
			return false
		}
		return f.Name() == "IsDebug" || f.Name() == "IsInfo"
	}
	res := map[ssa.Value]string{}
	for _, f := range P.fns {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.UnOp:
					if g, ok := addrRoot(x.X).(*ssa.Global); ok && x.Op == token.MUL && vars[g] {
						res[x] = g.Name()
					}
				case *ssa.Call:
					if g := x.Call.StaticCallee(); g != nil && level(g) {
						res[x] = g.Name() + "()"
					} else if op, ok := cellOpOf(i); ok {
						if g, ok := addrRoot(op.addr).(*ssa.Global); ok && vars[g] {
							res[x] = g.Name()
						}
					}
				}
			}
		}
	}
	return res
}

type diagFlow struct {
	P     *Prog
	eff   *Effects
	g     *Flow
	state func(string) bool
	roots map[*ssa.Function]bool
	calls map[ssa.Instruction][]callSite
	wr    map[ssa.Instruction][]WriteSite
	debug map[*ssa.BasicBlock]bool
}

type diagHit struct {
	at   ssa.Instruction
	what string
}

// effect: what instruction i of a block that only runs for diagnosis changes.
func (d *diagFlow) effect(i ssa.Instruction) string {
	for _, w := range d.wr[i] {
		if !w.Local && w.Root < freeVar0 && d.state(w.Key) {
			return "decides whether " + w.Key + " is changed"
		}
	}
	for _, c := range d.calls[i] {
		for k := range d.eff.wset[c.callee] {
			key := k.key
			if k.root != rootHeap {
				var arg ssa.Value
				if k.root >= freeVar0 {
					if k.root-freeVar0 < len(c.free) {
						arg = c.free[k.root-freeVar0]
					}
				} else if k.root < len(c.args) {
					arg = c.args[k.root]
				}
				if _, _, local := classify(arg); local {
					continue
				}
				if k.direct && arg != nil {
					if ak := addrKey(arg); ak != "local" && !strings.HasPrefix(ak, "deref:") && strings.HasPrefix(key, "deref:") {
						key = ak
					}
				}
			}
			if d.state(key) {
				return "decides whether " + fname(c.callee) + " is called, which changes " + key
			}
		}
	}
	return ""
}

func (d *diagFlow) mark(m map[*ssa.BasicBlock]bool, i ssa.Instruction) {
	if x, ok := i.(*ssa.If); ok {
		for _, b := range d.g.controlled(x.Block()) {
			m[b] = true
		}
	}
}

// passed: n is handed to a call outside of what runs for diagnosis.
func (d *diagFlow) passed(n any) bool {
	v, ok := n.(ssa.Value)
	if !ok || v.Referrers() == nil {
		return true
	}
	for _, i := range *v.Referrers() {
		if _, ok := i.(ssa.CallInstruction); ok && !d.debug[i.Block()] {
			return true
		}
	}
	return false
}

// slice follows what v influences; hit is the first effect on maps or results.
func (d *diagFlow) slice(v ssa.Value) (*diagHit, string) {
	g := d.g
	from := map[any]any{}
	var q []any
	add := func(n, by any) {
		if in, ok := n.(ssa.Instruction); ok && d.debug[in.Block()] {
			return
		}
		if _, ok := from[n]; !ok {
			from[n] = by
			q = append(q, n)
		}
	}
	from[v] = nil
	q = append(q, v)
	chain := func(n any) string {
		var p []string
		for k := 0; n != nil && k < 20; k++ {
			s := fmt.Sprint(n)
			switch x := n.(type) {
			case ssa.Instruction:
				s = d.P.instrPos(x)
			case retNode:
				s = "result of " + fname(x.f)
			case *ssa.Parameter:
				s = "parameter " + x.Name() + " of " + fname(x.Parent())
			}
			p = append([]string{s}, p...)
			n = from[n]
		}
		return strings.Join(p, " -> ")
	}
	for len(q) > 0 {
		n := q[0]
		q = q[1:]
		for _, m := range g.succ[n] {
			if _, isP := m.(*ssa.Parameter); isP && !d.passed(n) {
				continue // only handed to what runs for diagnosis
			}
			add(m, n)
		}
		if rn, ok := n.(retNode); ok && d.roots[rn.f] && isAPI(rn.f) {
			return &diagHit{g.rets[rn.f][0], "determines the result of " + fname(rn.f)}, chain(n)
		}
		v, ok := n.(ssa.Value)
		if !ok || v.Referrers() == nil {
			continue
		}
		for _, i := range *v.Referrers() {
			if d.debug[i.Block()] && from[n] != nil {
				continue
			}
			if x, ok := i.(*ssa.If); ok {
				region := g.controlled(x.Block())
				in := map[*ssa.BasicBlock]bool{}
				for _, b := range region {
					d.debug[b] = true
					in[b] = true
				}
				for _, b := range region {
					for _, k := range b.Instrs {
						if w := d.effect(k); w != "" {
							return &diagHit{k, w}, chain(n) + " -> branch at " + d.P.instrPos(x)
						}
						switch y := k.(type) {
						case *ssa.Store:
							if !heapAddr(y.Addr) {
								if _, isG := addrRoot(y.Addr).(*ssa.Global); !isG {
									add(loc(y.Addr), n)
								}
							}
						case *ssa.Go, *ssa.Send:
							return &diagHit{k, "decides whether this happens"}, chain(n) + " -> branch at " + d.P.instrPos(x)
						case *ssa.Return:
							for j := range y.Results {
								add(retNode{y.Parent(), j}, n)
							}
						}
					}
				}
				for _, b := range append([]*ssa.BasicBlock{x.Block()}, region...) {
					for _, s := range b.Succs {
						if in[s] {
							continue
						}
						for _, k := range s.Instrs {
							ph, ok := k.(*ssa.Phi)
							if !ok {
								break
							}
							// different values for the edges out of the region
							var first ssa.Value
							for j, e := range ph.Edges {
								if p := s.Preds[j]; p != x.Block() && !in[p] {
									continue
								}
								if first == nil {
									first = e
								} else if first != e {
									add(ph, n)
								}
							}
						}
					}
				}
				continue
			}
			switch x := i.(type) {
			case *ssa.Store:
				if heapAddr(x.Addr) && (x.Val == v || x.Addr == v) {
					for _, w := range d.wr[i] {
						if d.state(w.Key) {
							return &diagHit{i, "determines what is stored in " + w.Key}, chain(n)
						}
					}
				}
			case ssa.CallInstruction:
				if op, ok := cellOpOf(i); ok && heapAddr(op.addr) {
					for _, w := range d.wr[i] {
						if d.state(w.Key) {
							return &diagHit{i, "determines this change of " + w.Key}, chain(n)
						}
					}
				}
				c := x.Common()
				if f := c.StaticCallee(); f != nil && f.Object() != nil && isListPkg(f.Object().Pkg()) && listMutators[f.Name()] {
					return &diagHit{i, "determines this change of the list"}, chain(n)
				}
				if k, _ := lockOp(c); k != "" {
					return &diagHit{i, "determines this lock operation"}, chain(n)
				}
			case *ssa.MapUpdate:
				if !fromGlobal(x.Map) {
					return &diagHit{i, "determines this map update"}, chain(n)
				}
			}
		}
	}
	return nil, ""
}

func init() {
	register("C23", "From every read of the statistics switch, the counters and the log output and from every log level test in functions that run during operations, data and control dependence are followed: blocks they decide about may count, log and dump, but the write sets of the blocks and of everything called there contain no part of a map, and no operation's result, stored part of a map, atomic operation, list change or lock depends on them.",
		func(P *Prog, eff *Effects, r *Report) {
			ops := map[*ssa.Function]bool{}
			roots := map[*ssa.Function]bool{}
			for _, f := range P.opRoots() {
				roots[f] = true
				for k := range eff.reachable(f) {
					ops[k] = true
				}
			}
			for _, f := range P.fns {
				if f.Parent() != nil && ops[f.Parent()] {
					for k := range eff.reachable(f) {
						ops[k] = true
					}
				}
			}
			d := &diagFlow{P: P, eff: eff, g: newFlow(P, eff, false), state: P.mapState(), roots: roots,
				calls: map[ssa.Instruction][]callSite{}, wr: map[ssa.Instruction][]WriteSite{}, debug: map[*ssa.BasicBlock]bool{}}
			for _, f := range P.fns {
				for _, c := range eff.calls[f] {
					d.calls[c.instr] = append(d.calls[c.instr], c)
				}
				for _, w := range eff.direct[f] {
					d.wr[w.Instr] = append(d.wr[w.Instr], w)
				}
			}
			seeds := P.diagnosis()
			var order []ssa.Value
			for v := range seeds {
				if ops[v.(ssa.Instruction).Parent()] {
					order = append(order, v)
				}
			}
			sort.Slice(order, func(i, j int) bool {
				a, b := order[i].(ssa.Instruction), order[j].(ssa.Instruction)
				if a.Pos() != b.Pos() {
					return a.Pos() < b.Pos()
				}
				return a.String() < b.String()
			})
			r.need("reads of switches, counters and log output", len(order))
			// a value used in a block that only runs for diagnosis is part of it
			base := map[*ssa.BasicBlock]bool{}
			for _, v := range order {
				for _, i := range *v.Referrers() {
					if u, ok := i.(*ssa.UnOp); ok && u.Op == token.NOT {
						for _, j := range *u.Referrers() {
							d.mark(base, j)
						}
					}
					d.mark(base, i)
				}
			}
			blocks := map[*ssa.BasicBlock]bool{}
			for _, v := range order {
				in := v.(ssa.Instruction)
				d.debug = map[*ssa.BasicBlock]bool{}
				for b := range base {
					d.debug[b] = true
				}
				hit, path := d.slice(v)
				for b := range d.debug {
					blocks[b] = true
				}
				if hit != nil {
					r.violate(P.instrPos(hit.at), fname(hit.at.Parent()), "diagnosis changes nothing", fmt.Sprintf("%s, read at %s, %s", seeds[v], P.instrPos(in), hit.what), path)
				}
				r.obligation(fmt.Sprintf("%s read at %s influences no result or effect", seeds[v], P.instrPos(in)), hit == nil)
			}
			r.count("blocks that only run for diagnosis", len(blocks))
		})
}
