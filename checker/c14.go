package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// mapOps: functions that run as part of a map operation.
func (P *Prog) opRoots() []*ssa.Function {
	var roots []*ssa.Function
	for _, f := range P.fns {
		if f.Parent() != nil || f.Object() == nil || !f.Object().Exported() || len(f.Blocks) == 0 || f.Synthetic != "" && P.inMod[f] == false {
			continue
		}
		if recv := f.Signature.Recv(); recv != nil {
			n := namedOf(recv.Type())
			if n == nil || !n.Obj().Exported() && !P.isItemType(n) {
				continue
			}
			roots = append(roots, f)
			continue
		}
		if strings.HasPrefix(f.Name(), "New") {
			roots = append(roots, f)
		}
	}
	sort.Slice(roots, func(i, j int) bool { return roots[i].String() < roots[j].String() })
	return roots
}

func (P *Prog) isItemType(n *types.Named) bool {
	for _, t := range P.itemTypes() {
		if t == n {
			return true
		}
	}
	return false
}

type gcell struct {
	g   *ssa.Global
	sub string // "" for the variable itself, else the part of the object it refers to
}

func (c gcell) String() string {
	if c.sub == "" {
		return c.g.Name()
	}
	return c.g.Name() + "->" + c.sub
}

type gwrite struct {
	cell gcell
	at   ssa.Instruction
	val  ssa.Value
}

func subKey(addr ssa.Value) string {
	switch x := addr.(type) {
	case *ssa.FieldAddr:
		k, id, _ := fieldKey(deref(x.X.Type()), x.Field)
		if id {
			return subKey(x.X)
		}
		return k
	case *ssa.IndexAddr:
		return "elem"
	case *ssa.Convert:
		return subKey(x.X)
	}
	return "*"
}

func init() {
	register("C14", "For every package-level variable of the module (and every part of the object it refers to) that a map operation may write, the forward slice of its reads, with control dependence, must not reach a result of an operation, a store outside package variables, or a call or lock with effects; and every change of the traversal mode of the list libraries during an operation must be undone before the operation returns.",
		func(P *Prog, eff *Effects, r *Report) {
			ops := map[*ssa.Function]bool{}
			for _, f := range P.opRoots() {
				for k := range eff.reachable(f) {
					ops[k] = true
				}
			}
			for _, f := range P.fns { // goroutines and callbacks of operations
				if f.Parent() != nil && ops[f.Parent()] {
					for k := range eff.reachable(f) {
						ops[k] = true
					}
				}
			}
			r.need("functions that run during operations", len(ops))
			alias := newFlow(P, eff, true)
			flow := newFlow(P, eff, false)
			pred := map[any][]any{}
			for a, bs := range alias.succ {
				for _, b := range bs {
					pred[b] = append(pred[b], a)
				}
			}
			var globals []*ssa.Global
			for _, p := range P.ssapkgs {
				for _, m := range p.Members {
					if g, ok := m.(*ssa.Global); ok && g.Name() != "init$guard" && P.isModPkg(g.Pkg.Pkg) {
						globals = append(globals, g)
					}
				}
			}
			sort.Slice(globals, func(i, j int) bool { return globals[i].String() < globals[j].String() })
			r.need("package-level variables", len(globals))
			written := 0
			for _, g := range globals {
				al := alias.reach(loc(g))
				// v is (part of) what the variable holds; a local variable that holds it is not
				holds := func(v ssa.Value) bool {
					_, ok := al[v]
					if !ok || v == ssa.Value(g) {
						return false
					}
					switch y := v.(type) {
					case *ssa.Alloc:
						return false
					case *ssa.FreeVar:
						return !capturedCell(y)
					}
					return true
				}
				cellOf := func(addr ssa.Value) (gcell, bool) {
					root := addrRoot(addr)
					if root == ssa.Value(g) {
						// the variable itself, all fields together by name
						return gcell{g, strings.TrimPrefix(fieldPath(addr), "*")}, true
					}
					if holds(root) {
						if _, isP := root.(*ssa.Phi); !isP || true {
							if k := subKey(addr); k != "*" || root.Type() != nil && isPtrLike(root.Type()) {
								return gcell{g, k}, true
							}
						}
					}
					return gcell{}, false
				}
				// the value stored comes from the variable itself
				same := func(v ssa.Value) bool {
					seen := map[any]bool{}
					q := []any{v}
					hit := false
					for len(q) > 0 {
						n := q[0]
						q = q[1:]
						if seen[n] {
							continue
						}
						seen[n] = true
						if n == any(loc(g)) {
							hit = true
							continue
						}
						if c, ok := n.(*ssa.Const); ok && c.Value == nil {
							continue
						}
						if len(pred[n]) == 0 {
							return false
						}
						q = append(q, pred[n]...)
					}
					return hit
				}
				writes := map[gcell]gwrite{}
				var order []gcell
				note := func(c gcell, at ssa.Instruction, v ssa.Value) {
					if v != nil && c.sub == "" && same(v) {
						return
					}
					if _, ok := writes[c]; !ok {
						writes[c] = gwrite{c, at, v}
						order = append(order, c)
					}
				}
				var fs []*ssa.Function
				for f := range ops {
					fs = append(fs, f)
				}
				sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
				reads := map[gcell][]any{}
				for _, f := range fs {
					if f.Name() == "init" && f.Parent() == nil && f.Signature.Recv() == nil {
						continue
					}
					for _, b := range f.Blocks {
						for _, i := range b.Instrs {
							switch x := i.(type) {
							case *ssa.Store:
								if c, ok := cellOf(x.Addr); ok {
									note(c, i, x.Val)
								}
							case *ssa.MapUpdate:
								if holds(x.Map) {
									note(gcell{g, "map"}, i, nil)
								}
							case *ssa.UnOp:
								if x.Op.String() == "*" {
									if c, ok := cellOf(x.X); ok {
										reads[c] = append(reads[c], x)
									}
								}
							case *ssa.Lookup:
								if holds(x.X) {
									reads[gcell{g, "map"}] = append(reads[gcell{g, "map"}], x)
								}
							case *ssa.Range:
								if holds(x.X) {
									reads[gcell{g, "map"}] = append(reads[gcell{g, "map"}], x)
								}
							}
							if op, ok := cellOpOf(i); ok && op.kind != "lock" {
								if c, ok := cellOf(op.addr); ok {
									args := i.(ssa.CallInstruction).Common().Args
									if op.kind == "mutate" {
										note(c, i, args[len(args)-1])
									}
									if v, ok := i.(ssa.Value); ok && !strings.HasPrefix(op.name[strings.LastIndex(op.name, ".")+1:], "Store") {
										reads[c] = append(reads[c], v)
									}
								}
								continue
							}
							switch x := i.(type) {
							case *ssa.Send:
								if holds(x.Chan) {
									note(gcell{g, "chan"}, i, nil)
								}
							case *ssa.UnOp:
								if x.Op == token.ARROW && holds(x.X) {
									reads[gcell{g, "chan"}] = append(reads[gcell{g, "chan"}], x)
								}
							case ssa.CallInstruction:
								// the variable, or what it refers to, is handed to a function that works on it
								cc := x.Common()
								if b, ok := cc.Value.(*ssa.Builtin); ok && len(cc.Args) > 0 {
									switch b.Name() {
									case "append", "copy", "clear":
										if _, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok && (holds(cc.Args[0]) || b.Name() != "append" && addrRoot(cc.Args[0]) == ssa.Value(g)) {
											// the elements are kept in the array the variable refers to
											note(gcell{g, "elem"}, i, nil)
										}
									}
								}
								for k, a := range callArgs(cc) {
									if !isPtrLike(a.Type()) {
										continue
									}
									if addrRoot(a) == ssa.Value(g) {
										for _, u := range partsUsed(cc, k) {
											c := gcell{g, strings.TrimPrefix(fieldPath(a), "*")}
											if u.sub != "" {
												c.sub = u.sub
											}
											if u.write {
												note(c, i, nil)
											}
											if v, ok := i.(ssa.Value); ok && u.read {
												reads[c] = append(reads[c], v)
											}
										}
									}
									if w, rd := libraryUse(P, cc, k); (w || rd) && (addrRoot(a) == ssa.Value(g) || holds(a)) {
										c := gcell{g, "content"}
										if w {
											note(c, i, nil)
										}
										if v, ok := i.(ssa.Value); ok && rd {
											reads[c] = append(reads[c], v)
										}
									}
								}
							}
						}
					}
				}
				for _, c := range order {
					written++
					rd := reads[c]
					w, chain, what := (ssa.Instruction)(nil), "", ""
					if len(rd) > 0 {
						w, chain, what = flow.influence(g, rd, ops)
					}
					if w != nil {
						r.violate(P.instrPos(w), fname(w.Parent()), "no influence through package variables",
							fmt.Sprintf("%s, written at %s during map operations, %s", c, P.instrPos(writes[c].at), what), chain)
					}
					r.obligation(fmt.Sprintf("%s (written at %s, %d reads) influences no result or effect", c, P.instrPos(writes[c].at), len(rd)), w == nil)
				}
				if len(order) == 0 {
					r.obligation(g.Name()+" is not written by operations", true)
				}
			}
			r.count("variables written by operations", written)
			r.travModes(P, eff)
		})
}

func callArgs(c *ssa.CallCommon) []ssa.Value {
	if c.IsInvoke() {
		return append([]ssa.Value{c.Value}, c.Args...)
	}
	return c.Args
}

type partUse struct {
	sub         string
	read, write bool
}

// partsUsed: what a module function reads and writes of the object its k-th
// argument points to.
func partsUsed(c *ssa.CallCommon, k int) []partUse {
	f := c.StaticCallee()
	if f == nil {
		return nil
	}
	var uses []partUse
	seen := map[*ssa.Parameter]bool{}
	var walk func(f *ssa.Function, k int, sub string)
	walk = func(f *ssa.Function, k int, sub string) {
		if k >= len(f.Params) || seen[f.Params[k]] {
			return
		}
		p := f.Params[k]
		seen[p] = true
		at := func(addr ssa.Value) string {
			if s := fieldPath(addr); s != "" {
				return s
			}
			return sub
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if op, ok := cellOpOf(i); ok {
					if op.kind != "lock" && addrRoot(op.addr) == ssa.Value(p) {
						st := strings.HasPrefix(op.name[strings.LastIndex(op.name, ".")+1:], "Store")
						uses = append(uses, partUse{at(op.addr), !st, op.kind == "mutate"})
					}
					continue
				}
				switch x := i.(type) {
				case *ssa.Store:
					if addrRoot(x.Addr) == ssa.Value(p) {
						uses = append(uses, partUse{at(x.Addr), false, true})
					}
				case *ssa.UnOp:
					if x.Op == token.MUL && addrRoot(x.X) == ssa.Value(p) {
						uses = append(uses, partUse{at(x.X), true, false})
					}
				case ssa.CallInstruction:
					for j, a := range x.Common().Args {
						if g := x.Common().StaticCallee(); g != nil && isPtrLike(a.Type()) && addrRoot(a) == ssa.Value(p) {
							walk(g, j, at(a))
						}
					}
				}
			}
		}
	}
	walk(f, k, "")
	return uses
}

// libraryUse: the call changes or reads a container of another package, its
// k-th argument.
func libraryUse(P *Prog, c *ssa.CallCommon, k int) (write, read bool) {
	f := c.StaticCallee()
	if f == nil || k != 0 || P.inMod[f] {
		return false, false
	}
	pkg, recv, name := calleeName(f)
	switch pkg {
	case "sync":
		if recv != "Map" {
			return false, false // a pool hands out objects without their history
		}
	case "container/list", "container/ring", "container/heap":
	default:
		return false, false
	}
	switch name {
	case "Load", "Range", "Len", "Front", "Back", "Next", "Prev", "Do":
		return false, true
	case "Store", "Delete", "Clear":
		return true, false
	}
	return true, true
}

// capturedCell: the free variable is a local variable of the enclosing function.
func capturedCell(v *ssa.FreeVar) bool {
	f := v.Parent()
	idx := -1
	for i, fv := range f.FreeVars {
		if fv == v {
			idx = i
		}
	}
	if f.Parent() == nil || idx < 0 {
		return false
	}
	for _, b := range f.Parent().Blocks {
		for _, i := range b.Instrs {
			if mc, ok := i.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(f) && idx < len(mc.Bindings) {
				switch y := mc.Bindings[idx].(type) {
				case *ssa.Alloc:
					return true
				case *ssa.FreeVar:
					return capturedCell(y)
				}
			}
		}
	}
	return false
}

func fieldPath(addr ssa.Value) string {
	switch x := addr.(type) {
	case *ssa.FieldAddr:
		k, _, _ := fieldKey(deref(x.X.Type()), x.Field)
		return k
	case *ssa.IndexAddr:
		return "elem"
	}
	return ""
}

// effectful: a module function changes data other than package variables.
func (g *Flow) effectful(f *ssa.Function) (string, bool) {
	for k := range g.eff.wset[f] {
		if strings.HasPrefix(k.key, "global:") || k.key == "external:travmode" || k.key == "local" || strings.HasPrefix(k.key, "map:map[statKey") {
			continue
		}
		return k.key, true
	}
	return "", false
}

// influence finds an effect or result that the given reads of global gl influence.
func (g *Flow) influence(gl *ssa.Global, reads []any, ops map[*ssa.Function]bool) (ssa.Instruction, string, string) {
	gkey := loc(gl)
	from := map[any]any{}
	var q []any
	add := func(n, by any) {
		if n == gkey && by != nil {
			return
		}
		if _, ok := from[n]; !ok {
			from[n] = by
			q = append(q, n)
		}
	}
	for _, s := range reads {
		add(s, nil)
	}
	show := func(n any) string {
		switch x := n.(type) {
		case ssa.Instruction:
			return g.P.instrPos(x)
		case locNode:
			return string(x)
		case retNode:
			return "result of " + fname(x.f)
		case *ssa.Parameter:
			return "parameter " + x.Name() + " of " + fname(x.Parent())
		}
		return fmt.Sprint(n)
	}
	chain := func(n any) string {
		var p []string
		for k := 0; n != nil && k < 30; k++ {
			p = append([]string{show(n)}, p...)
			n = from[n]
		}
		return strings.Join(p, " -> ")
	}
	for len(q) > 0 {
		n := q[0]
		q = q[1:]
		for _, m := range g.succ[n] {
			add(m, n)
		}
		if rn, ok := n.(retNode); ok {
			if rn.f.Object() != nil && rn.f.Object().Exported() && rn.f.Parent() == nil && ops[rn.f] && isAPI(rn.f) {
				return g.rets[rn.f][0], chain(n), "determines the result of " + fname(rn.f)
			}
		}
		v, ok := n.(ssa.Value)
		if !ok || v.Referrers() == nil {
			continue
		}
		for _, i := range *v.Referrers() {
			switch x := i.(type) {
			case *ssa.Store:
				if x.Val == v && heapAddr(x.Addr) || x.Addr == v && heapAddr(x.Addr) {
					return i, chain(n), "determines what is stored here"
				}
			case *ssa.If:
				if w, what := g.branchEffect(x); w != nil {
					return w, chain(n) + " -> branch at " + g.P.instrPos(x), what
				}
				// results and phis that depend on the branch
				for _, b := range g.controlled(x.Block()) {
					for _, s := range append([]*ssa.BasicBlock{b}, b.Succs...) {
						for _, k := range s.Instrs {
							if ph, ok := k.(*ssa.Phi); ok {
								diff := false
								for _, e := range ph.Edges[1:] {
									diff = diff || e != ph.Edges[0]
								}
								if diff {
									add(ph, n)
								}
							}
						}
					}
					if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
						for k := range ret.Results {
							add(retNode{x.Parent(), k}, n)
						}
						if len(g.rets[x.Parent()]) > 1 && len(ret.Results) == 0 {
							// leaving early skips what follows
							if w, what := g.skipped(x, b); w != nil {
								return w, chain(n) + " -> branch at " + g.P.instrPos(x), what
							}
						}
					}
				}
			case ssa.CallInstruction:
				if op, ok := cellOpOf(i); ok && op.kind == "mutate" {
					if heapAddr(op.addr) {
						return i, chain(n), "determines this atomic operation"
					}
				}
				c := x.Common()
				if f := c.StaticCallee(); f != nil && !g.P.inMod[f] {
					_, _, name := calleeName(f)
					if f.Object() != nil && isListPkg(f.Object().Pkg()) && listMutators[name] {
						return i, chain(n), "determines this change of the list"
					}
				}
				if k, _ := lockOp(c); k != "" {
					return i, chain(n), "determines this lock operation"
				}
			case *ssa.MapUpdate:
				if m := x.Map; !fromGlobal(m) {
					return i, chain(n), "determines this map update"
				}
			}
		}
	}
	return nil, "", ""
}

func fromGlobal(v ssa.Value) bool {
	if u, ok := v.(*ssa.UnOp); ok {
		_, ok := addrRoot(u.X).(*ssa.Global)
		return ok
	}
	return false
}

// isAPI: results of these functions are results of map operations; dumps are not.
func isAPI(f *ssa.Function) bool {
	n := strings.ToLower(f.Name())
	return !strings.Contains(n, "dump") && !strings.Contains(n, "stat") && n != "error" && !strings.Contains(n, "logio")
}

func heapAddr(a ssa.Value) bool {
	switch addrRoot(a).(type) {
	case *ssa.Alloc, *ssa.Global, *ssa.MakeSlice, *ssa.MakeMap:
		return false
	case *ssa.FreeVar:
		return false // a captured local; its flow is followed
	}
	return true
}

func (g *Flow) branchEffect(x *ssa.If) (ssa.Instruction, string) {
	for _, b := range g.controlled(x.Block()) {
		if w, what := g.blockEffect(b); w != nil {
			return w, what
		}
	}
	return nil, ""
}

// skipped: effects outside b that an early return in b skips.
func (g *Flow) skipped(x *ssa.If, b *ssa.BasicBlock) (ssa.Instruction, string) {
	seen := map[*ssa.BasicBlock]bool{b: true}
	st := append([]*ssa.BasicBlock(nil), x.Block().Succs...)
	for len(st) > 0 {
		c := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[c] {
			continue
		}
		seen[c] = true
		if w, what := g.blockEffect(c); w != nil {
			return w, what
		}
		st = append(st, c.Succs...)
	}
	return nil, ""
}

func (g *Flow) blockEffect(b *ssa.BasicBlock) (ssa.Instruction, string) {
	for _, i := range b.Instrs {
		switch y := i.(type) {
		case *ssa.Store:
			if heapAddr(y.Addr) {
				return i, "decides whether this is stored"
			}
		case *ssa.Send, *ssa.Go:
			return i, "decides whether this happens"
		case *ssa.MapUpdate:
			if !fromGlobal(y.Map) {
				return i, "decides whether this map is changed"
			}
		case ssa.CallInstruction:
			c := y.Common()
			if op, ok := cellOpOf(i); ok {
				if op.kind == "mutate" && heapAddr(op.addr) {
					return i, "decides whether this atomic operation happens"
				}
				continue
			}
			if f := c.StaticCallee(); f != nil && !g.P.inMod[f] {
				_, _, name := calleeName(f)
				if f.Object() != nil && isListPkg(f.Object().Pkg()) && listMutators[name] {
					return i, "decides whether the list is changed here"
				}
				continue
			}
			ts, _ := g.targets(c)
			for _, t := range ts {
				if !g.P.inMod[t] {
					continue
				}
				if k, bad := g.effectful(t); bad {
					return i, "decides whether " + fname(t) + " is called, which changes " + k
				}
			}
		}
	}
	return nil, ""
}

// isToggle: a call that changes the traversal mode of the list libraries.
func isToggle(c *ssa.CallCommon) bool {
	f := c.StaticCallee()
	if f == nil || f.Object() == nil || !isListPkg(f.Object().Pkg()) {
		return false
	}
	_, recv, name := calleeName(f)
	return name == "SharedTrav" || name == "Option" && recv == "ModeTraverse"
}

// travModes: changes of the traversal mode of the list libraries are undone.
func (r *Report) travModes(P *Prog, eff *Effects) {
	cl := &Client{interesting: func(x *Exec, i ssa.Instruction) bool {
		ci, ok := i.(ssa.CallInstruction)
		return ok && isToggle(ci.Common())
	}}
	sites := map[string]bool{}
	cl.onCall = func(x *Exec, s *State, c *Call) ([]*Outcome, bool) {
		if !isToggle(c.common) {
			if c.fn != nil && P.inMod[c.fn] && c.fn.Signature.Recv() == nil && strings.HasPrefix(c.fn.Name(), "New") && x.relevant[c.fn] {
				return x.opaqueModule(s, c), true // a new map; constructors choose the mode of the process
			}
			return nil, false
		}
		if len(c.args) > 0 {
			if l := x.u.slicePart(c.args[len(c.args)-1], 1); l == x.u.int(0) || c.args[len(c.args)-1].Op == ONil {
				return x.opaqueCall(s, c, "nothing"), true // no options given
			}
		}
		sites[P.instrPos(c.instr)] = true
		for t := range s.toks {
			for _, a := range c.args {
				if a.Op == OStruct && len(a.Args) > 0 && a.Args[0] == x.u.slicePart(t.a, 0) || a == t.a {
					delete(s.toks, t)
					return x.opaqueCall(s, c, "restore"), true
				}
			}
		}
		s.note(P.instrPos(c.instr) + " mode changed")
		outs := x.opaqueCall(s, c, "mode")
		if len(outs[0].rets) > 0 {
			s.toks[Tok{"mode:" + P.instrPos(c.instr), outs[0].rets[0], nil}] = struct{}{}
		}
		return outs, true
	}
	x := newExec(P, eff, cl)
	n := 0
	for _, f := range P.opRoots() {
		if !x.relevant[f] || f.Signature.Recv() == nil {
			continue // constructors set the mode once
		}
		n++
		bad := false
		for _, o := range x.runRoot(f) {
			for t := range o.st.toks {
				bad = true
				at := strings.TrimPrefix(t.kind, "mode:")
				r.violate(at, fname(f), "the traversal mode is restored", "the shared traversal mode changed here is not restored on a path to the end of "+fname(f), o.st.path(15))
			}
		}
		r.obligation(fname(f)+" restores the traversal mode", !bad)
	}
	r.count("traversal mode changes", len(sites))
	r.count("operations that change the traversal mode", n)
	x.finish(r)
}
