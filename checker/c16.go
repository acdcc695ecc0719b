package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C13 and C16 follow the same events on the paths of the write operations.

// lenKeys: fields the exported length query of the map reads.
func (P *Prog) lenKeys(eff *Effects, r *Report) map[string]bool {
	f := P.method(P.root, "Map", "Len")
	if f == nil {
		r.violate("-", "Map.Len", "anchor", "length query not found", "")
		return nil
	}
	return eff.readKeys(f)
}

// inBucket: the address is a part of a bucket: a marker, not an entry.
func inBucket(t *Term) bool {
	for t != nil && (t.Op == OField || t.Op == OElem || t.Op == OContainer || t.Op == OPtrAdd) {
		if t.Op == OField && strings.HasPrefix(t.Aux, "bucket.") {
			return true
		}
		t = t.Args[0]
	}
	return false
}

func isEntryVal(v ssa.Value) bool {
	if mi, ok := v.(*ssa.MakeInterface); ok {
		v = mi.X
	}
	t := v.Type()
	return isSampleT(deref(t)) || typeIs(t, "skiplistmap", "MapItem")
}

// cellWrite: the call stores an entry in an atomic.Value. new is the operand.
func cellWrite(cc *ssa.CallCommon) (new int, ok bool) {
	f := cc.StaticCallee()
	if f == nil {
		return 0, false
	}
	pkg, recv, name := calleeName(f)
	if pkg != "sync/atomic" || recv != "Value" {
		return 0, false
	}
	switch name {
	case "Store", "Swap":
		new = 1
	case "CompareAndSwap":
		new = 2
	default:
		return 0, false
	}
	return new, isEntryVal(cc.Args[new])
}

type effExit struct {
	f    *ssa.Function
	kind string
	o    *Outcome
	want *Term // the value to be stored
	item *Term // the entry to be stored, if it is an argument
	recv *Term
}

// rootsOf: the maps that hold the entries the operation deletes: the map itself or, in a map
// built on it, the one the entry was found in.
func (s *State) rootsOf(recv *Term, dels []*Term, lens map[string]bool) (res []*Term) {
	for k := range lens {
		if recv.Typ != nil && holdsField(deref(recv.Typ), k) {
			return []*Term{recv}
		}
	}
	for t := range s.toks {
		if t.kind != "of" {
			continue
		}
		for _, e := range dels {
			if e == t.a {
				res = append(res, t.b)
			}
		}
	}
	return
}

// writeExits interprets a write operation and yields its exits with the events on the path as tokens:
// link e, set e (value stored), tried e, del e, cell e, celldel, stored e, delta n.
func (r *Report) writeExits(P *Prog, eff *Effects, kr keyRoot, lens map[string]bool, seen func(x *Exec, e effExit)) {
	f := kr.f
	kinds := map[*ssa.Function]string{}
	for _, k := range P.keyRoots(r) {
		kinds[k.f] = k.kind
	}
	lenAtomic := func(i ssa.Instruction) bool {
		op, ok := cellOpOf(i)
		return ok && op.kind == "mutate" && lens[addrKey(op.addr)]
	}
	keys := map[string]bool{} // fields that hold the key of an entry
	for _, t := range P.itemTypes() {
		if m := P.methodOf(t, "Key"); m != nil {
			for k := range eff.readKeys(m) {
				keys[k] = true
			}
		}
	}
	cl := &Client{}
	cl.interesting = func(x *Exec, i ssa.Instruction) bool {
		if lenAtomic(i) {
			return true
		}
		switch y := i.(type) {
		case *ssa.Store:
			return lens[addrKey(y.Addr)] || keys[addrKey(y.Addr)] && isSampleT(deref(y.Addr.(*ssa.FieldAddr).X.Type()))
		case ssa.CallInstruction:
			if eff.isItemCall(y, "SetValue") || eff.isItemCall(y, "Delete") || isElistOp(y, "InsertBefore") {
				return true
			}
			if _, ok := cellWrite(y.Common()); ok {
				return true
			}
			return kinds[y.Common().StaticCallee()] != ""
		}
		return false
	}
	other := eff.reaches(func(_ *ssa.Function, ci ssa.CallInstruction) bool {
		_, cw := cellWrite(ci.Common())
		g := ci.Common().StaticCallee()
		return cw || g != nil && kinds[g] != "" && g.Pkg != f.Pkg || lenAtomic(ci) || eff.isItemCall(ci, "SetValue") || eff.isItemCall(ci, "Delete")
	})
	flows := eff.linkFlows()
	cl.noInline = func(g *ssa.Function) bool { return !other[g] && len(flows[g]) == 0 && !smallPanicker(g) }
	delta := func(s *State) int {
		for t := range s.toks {
			if strings.HasPrefix(t.kind, "delta:") {
				n, _ := strconv.Atoi(t.kind[6:])
				return n
			}
		}
		return 0
	}
	setDelta := func(s *State, n int) {
		if n > 3 {
			n = 3
		} else if n < -3 {
			n = -3
		}
		delete(s.toks, Tok{fmt.Sprintf("delta:%d", delta(s)), nil, nil})
		if n != 0 {
			s.toks[Tok{fmt.Sprintf("delta:%d", n), nil, nil}] = struct{}{}
		}
	}
	var want, item *Term
	cl.onStore = func(x *Exec, s *State, addr, v *Term, i ssa.Instruction, ctx *Ctx) {
		if keys[locKey(addr)] && addr.Op == OField {
			s.toks[Tok{"new", entryTerm(addr.Args[0]), nil}] = struct{}{}
		}
		if _, ok := i.(*ssa.Store); ok && lens[locKey(addr)] && !s.fresh[rootOf(addr)] {
			s.toks[Tok{"lenstore:" + P.instrPos(i), nil, nil}] = struct{}{}
		}
	}
	cl.onCall = func(x *Exec, s *State, c *Call) ([]*Outcome, bool) {
		u := x.u
		if lenAtomic(c.instr) && c.method == nil {
			_, _, name := calleeName(c.fn)
			if name = strings.TrimRight(name, "Int6432Uptr"); strings.HasPrefix(name, "Add") && len(c.args) == 2 {
				if n, ok := isInt(c.args[1]); ok {
					setDelta(s, delta(s)+int(n))
					if a := c.args[0]; a.Op == OField {
						s.toks[Tok{"delta-on", a.Args[0], nil}] = struct{}{}
					}
					s.note(P.instrPos(c.instr) + fmt.Sprintf(" length %+d", n))
					return x.opaqueCall(s, c, "len"), true
				}
			}
			s.toks[Tok{"lenstore:" + P.instrPos(c.instr), nil, nil}] = struct{}{}
			return x.opaqueCall(s, c, "len"), true
		}
		if k := kinds[c.fn]; k != "" && c.fn != f && c.fn.Pkg != f.Pkg {
			// an operation of the map below: by its contract
			if k == "lookup" {
				outs := x.opaqueModule(s, c)
				o := outs[0]
				miss := &Outcome{o.st.clone(), append([]*Term(nil), o.rets...)}
				n := len(o.rets) - 1
				it := x.newSym(o.st, c.instr, c.ctx, "entry", nil, "entry found at "+P.instrPos(c.instr))
				o.st.addFact(eqFact(it, u.Nil, true))
				o.st.toks[Tok{"of", it, c.args[0]}] = struct{}{}
				o.rets[0], o.rets[n] = it, u.True
				miss.rets[0], miss.rets[n] = u.zero(c.sig.Results().At(0).Type()), u.Fals
				o.st.note(P.instrPos(c.instr) + " found")
				miss.st.note(P.instrPos(c.instr) + " not found")
				return []*Outcome{o, miss}, true
			}
			o := x.opaqueModule(s, c)[0]
			fl := &Outcome{o.st.clone(), []*Term{u.Fals}}
			o.rets = []*Term{u.True}
			switch {
			case k == "delete":
				o.st.toks[Tok{"stored-del", nil, nil}] = struct{}{}
			case len(c.args) > 1:
				o.st.toks[Tok{"stored", entryTerm(c.args[1]), nil}] = struct{}{}
				if len(c.args) > 2 && u.evalEq(s, c.args[len(c.args)-1], want) == 1 {
					o.st.toks[Tok{"stored-value", nil, nil}] = struct{}{}
				}
			}
			o.st.note(P.instrPos(c.instr) + " succeeded")
			fl.st.note(P.instrPos(c.instr) + " failed")
			return []*Outcome{o, fl}, true
		}
		switch m := x.itemMethod(c); m {
		case "SetValue":
			e := entryTerm(c.args[0])
			good := want != nil && (c.args[1] == want || u.evalEq(s, c.args[1], want) == 1)
			o := x.itemCall(s, c, m)[0]
			fl := &Outcome{o.st.clone(), []*Term{u.Fals}}
			o.rets = []*Term{u.True}
			if good {
				o.st.toks[Tok{"set", e, nil}] = struct{}{}
				fl.st.toks[Tok{"tried", e, nil}] = struct{}{}
			}
			o.st.note(P.instrPos(c.instr) + " value set")
			fl.st.note(P.instrPos(c.instr) + " value not set")
			return []*Outcome{o, fl}, true
		case "Delete":
			e := entryTerm(c.args[0])
			o := x.itemCall(s, c, m)
			if !s.fresh[rootOf(e)] {
				t := Tok{"del", e, nil}
				if _, twice := s.toks[t]; twice {
					t = Tok{"del again", e, nil}
				}
				s.toks[t] = struct{}{}
				s.note(P.instrPos(c.instr) + " marked deleted")
			}
			return o, true
		case "":
		default:
			return x.itemCall(s, c, m), true
		}
		ci, isCI := c.instr.(ssa.CallInstruction)
		if isCI && c.fn != nil && isElistOp(ci, "InsertBefore") && len(c.args) > 1 && c.method == nil {
			e := entryTerm(c.args[1])
			o := x.external(s, c)[0]
			if inBucket(e) || len(o.rets) < 2 {
				return []*Outcome{o}, true
			}
			_, a := s.toks[Tok{"set", e, nil}]
			_, b := s.toks[Tok{"tried", e, nil}]
			if !a && !b && e != item {
				return []*Outcome{o}, true
			}
			fl := &Outcome{o.st.clone(), append([]*Term(nil), o.rets...)}
			o.rets[1] = u.Nil
			fl.st.addFact(eqFact(fl.rets[1], u.Nil, true))
			k := "link"
			if _, twice := s.toks[Tok{"link", e, nil}]; twice {
				k = "link again"
			}
			o.st.toks[Tok{k, e, nil}] = struct{}{}
			o.st.note(P.instrPos(c.instr) + " linked")
			fl.st.note(P.instrPos(c.instr) + " not linked")
			return []*Outcome{o, fl}, true
		}
		if isCI && c.method == nil && c.fn != nil {
			if k, ok := cellWrite(c.common); ok {
				v := entryTerm(c.args[k])
				outs := x.external(s, c)
				for _, o := range outs {
					if len(o.rets) > 0 && o.rets[0].isFalse() {
						continue
					}
					if u.evalEq(o.st, v, u.Nil) == 1 {
						if k == 2 && u.evalEq(o.st, entryTerm(c.args[1]), u.Nil) != -1 {
							o.st.note(P.instrPos(c.instr) + " (may have been empty before)")
							continue
						}
						o.st.toks[Tok{"celldel", nil, nil}] = struct{}{}
					} else {
						o.st.toks[Tok{"cell", v, nil}] = struct{}{}
					}
				}
				return outs, true
			}
		}
		return nil, false
	}
	cl.keepRet = func(t *Term) bool {
		return t.Typ != nil && (typeIs(t.Typ, "skiplistmap", "MapItem") || typeIs(t.Typ, "skiplistmap", "HMapEntry") || isSampleT(deref(t.Typ)))
	}
	x := newExec(P, eff, cl)
	st := newState()
	var args []*Term
	for i, p := range f.Params {
		a := x.u.sym("param:"+fname(f)+":"+p.Name(), p.Type(), p.Name())
		st.born[a] = true
		if i == 0 {
			st.addFact(eqFact(a, x.u.Nil, true))
		}
		args = append(args, a)
	}
	if kr.kind == "update" {
		last := args[len(args)-1]
		want = last
		if typeIs(last.Typ, "skiplistmap", "MapItem") {
			item = last
			want = x.u.mk(OPCall, "Value", types.NewInterfaceType(nil, nil), last)
			for _, m := range []string{"Value"} {
				if o, ok := x.itemValueTerm(st, last, m); ok {
					want = o
				}
			}
		}
	}
	for _, o := range x.run(f, args, nil, st, x.ctx(nil, nil, f)) {
		seen(x, effExit{f, kr.kind, o, want, item, args[0]})
	}
	x.finish(r)
}

// itemValueTerm: the term the method call Value() on an entry yields.
func (x *Exec) itemValueTerm(s *State, e *Term, m string) (*Term, bool) {
	mt, _ := x.P.root.Type("MapItem").Type().Underlying().(*types.Interface)
	for i := 0; mt != nil && i < mt.NumMethods(); i++ {
		if mt.Method(i).Name() == m {
			return x.u.mk(OPCall, m, mt.Method(i).Type().(*types.Signature).Results().At(0).Type(), e), true
		}
	}
	return nil, false
}

func toksOf(s *State, kind string) (res []*Term) {
	for t := range s.toks {
		if t.kind == kind {
			res = append(res, t.a)
		}
	}
	return
}

func init() {
	register("C16", "On every path of Set and StoreItem (map and read-mostly map) that can report success, the value asked for was stored in an entry that existed, or the entry that received it was linked into the list or stored in its cell; on every path of Delete and Purge that can report success an existing entry was marked deleted or its cell emptied.",
		func(P *Prog, eff *Effects, r *Report) {
			r.tookEffect(P, eff, func(kind string) bool { return kind != "lookup" })
		})
	register("C13", "On every path of every write operation the sum of the changes of the counter the length query reads equals the number of entries linked minus the number of entries marked deleted on that path; every access of the counter in the module is atomic.",
		func(P *Prog, eff *Effects, r *Report) {
			lens := P.lenKeys(eff, r)
			if len(lens) != 1 {
				r.violate("-", "Map.Len", "anchor", "the length query does not read one counter but "+strings.Join(sortedKeys(lens), ","), "")
				return
			}
			for _, kr := range P.keyRoots(r) {
				if kr.kind == "lookup" {
					continue
				}
				n := 0
				r.writeExits(P, eff, kr, lens, func(x *Exec, e effExit) {
					s := e.o.st
					n++
					d := 0
					for t := range s.toks {
						if strings.HasPrefix(t.kind, "delta:") {
							d, _ = strconv.Atoi(t.kind[6:])
						}
						if strings.HasPrefix(t.kind, "lenstore:") {
							r.violate(t.kind[9:], fname(e.f), "the length changes by one per entry", "the length is set to an unknown value", s.path(20))
						}
					}
					links := len(toksOf(s, "link")) + len(toksOf(s, "link again"))
					dels := len(toksOf(s, "del")) + len(toksOf(s, "del again"))
					good := d == links-dels
					if !good {
						r.violate(P.pos(e.f.Pos()), fname(e.f), "the length changes by one per entry", fmt.Sprintf("%s changes the length by %+d on a path that links %d and deletes %d entries", fname(e.f), d, links, dels), s.path(25))
					}
					for _, m := range toksOf(s, "delta-on") {
						own := e.o.st.rootsOf(e.recv, toksOf(s, "del"), lens)
						same := false
						for _, o := range own {
							same = same || o == m || x.u.evalEq(s, o, m) == 1
						}
						if len(own) > 0 && !same {
							r.violate(P.pos(e.f.Pos()), fname(e.f), "the length that changes is that of the map the entry is in", fname(e.f)+" changes the length of a map other than the one that holds the entry", s.path(25))
						}
						r.obligation(fname(e.f)+": length of the map that holds the entry via "+s.path(8), len(own) == 0 || same)
					}
					r.obligation(fmt.Sprintf("%s: length %+d with %d linked, %d deleted via %s", fname(e.f), d, links, dels, s.path(8)), good)
				})
				r.need("exits of "+fname(kr.f), n)
			}
			r.lenOfCells(P, eff, lens)
			r.atomicOnly(P, eff, lens)
		})
}

// lenOfCells: the length of the read-mostly map is the number of cells that hold an entry plus the length of the map below.
func (r *Report) lenOfCells(P *Prog, eff *Effects, lens map[string]bool) {
	rp := P.rmapPkg()
	if rp == nil {
		return
	}
	f := P.method(rp, "RMap", "Len")
	if f == nil {
		r.violate("-", "RMap.Len", "anchor", "length query not found", "")
		return
	}
	cl := &Client{interesting: func(x *Exec, i ssa.Instruction) bool {
		if ta, ok := i.(*ssa.TypeAssert); ok {
			return isSampleT(deref(ta.AssertedType))
		}
		op, ok := cellOpOf(i)
		return ok && lens[addrKey(op.addr)]
	}}
	isInc := func(i ssa.Instruction) bool {
		b, ok := i.(*ssa.BinOp)
		if !ok || b.Op != token.ADD || !isInteger(b.Type()) {
			return false
		}
		for _, v := range []ssa.Value{b.X, b.Y} {
			if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.ExactString() == "1" {
				return true
			}
		}
		return false
	}
	cl.onInstr = func(x *Exec, s *State, i ssa.Instruction, ctx *Ctx) {
		if isInc(i) {
			if _, ok := s.toks[Tok{"inc", nil, nil}]; ok {
				s.toks[Tok{"inc2", nil, nil}] = struct{}{}
			}
			s.toks[Tok{"inc", nil, nil}] = struct{}{}
			s.note(P.instrPos(i) + " counted")
		}
		if op, ok := cellOpOf(i); ok && lens[addrKey(op.addr)] {
			if _, ok := s.toks[Tok{"sub", nil, nil}]; ok {
				s.toks[Tok{"sub2", nil, nil}] = struct{}{}
			}
			s.toks[Tok{"sub", nil, nil}] = struct{}{}
		}
	}
	n := 0
	cl.onBackEdge = func(x *Exec, s *State, ctx *Ctx, from, to *ssa.BasicBlock, phis map[*ssa.Phi]*Term) {
		isRange := false
		for _, i := range to.Instrs {
			if nx, ok := i.(*ssa.Next); ok && !nx.IsString {
				isRange = true
			}
		}
		if !isRange {
			return
		}
		live := false
		for fa := range s.facts {
			if fa.op != '=' || !fa.neg || fa.b == nil {
				continue
			}
			for _, t := range []*Term{fa.a, fa.b} {
				if t.Op == OPCall && t.Aux == "ptr" {
					t = t.Args[0]
					for t != nil && t.Op == OLoad {
						t = t.Args[0]
					}
					if t != nil && t.Op == OSym && t.Desc == "range value" {
						live = true
					}
				}
			}
		}
		_, inc := s.toks[Tok{"inc", nil, nil}]
		_, inc2 := s.toks[Tok{"inc2", nil, nil}]
		n++
		good := inc == live && !inc2
		if !good {
			what := "a cell that holds an entry is not counted"
			if inc {
				what = "a cell is counted, or counted twice, that is not known to hold an entry"
			}
			r.violate(P.instrPos(to.Instrs[0]), fname(ctx.fn), "every cell that holds an entry counts once", what, s.path(12))
		}
		r.obligation("cells of the read table counted via "+s.path(6), good)
		delete(s.toks, Tok{"inc", nil, nil})
		delete(s.toks, Tok{"inc2", nil, nil})
	}
	x := newExec(P, eff, cl)
	for _, o := range x.runRoot(f) {
		_, a := o.st.toks[Tok{"sub", nil, nil}]
		_, b := o.st.toks[Tok{"sub2", nil, nil}]
		if !a || b {
			r.violate(P.pos(f.Pos()), fname(f), "the length of the map below counts once", "the counter of the map below is read never or more than once", o.st.path(12))
		}
		r.obligation("the length of the map below counts once via "+o.st.path(6), a && !b)
	}
	r.need("steps over the cells of the read table", n)
	x.finish(r)
}

// freshEntry: the entry was made or taken from a pool on this path, so that storing a value in it is no update.
func freshEntry(x *Exec, s *State, e *Term) bool {
	_, ok := s.toks[Tok{"new", e, nil}]
	return ok
}

// atomicOnly: every access to the counters outside constructors is atomic.
func (r *Report) atomicOnly(P *Prog, eff *Effects, lens map[string]bool) {
	n := 0
	for _, f := range P.fns {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				fa, ok := i.(*ssa.FieldAddr)
				if !ok || !lens[addrKey(fa)] {
					continue
				}
				for _, ref := range *fa.Referrers() {
					switch y := ref.(type) {
					case *ssa.DebugRef:
						continue
					case *ssa.Store:
						if isLocalRoot(y.Addr) || onlyFreshHeap(fa.X) {
							continue
						}
					}
					n++
					_, ok := cellOpOf(ref)
					if !ok {
						if ci, isCall := ref.(ssa.CallInstruction); isCall && ci.Common().StaticCallee() != nil && P.inMod[ci.Common().StaticCallee()] {
							// handed to a helper: its accesses of the parameter
							ok = r.paramAtomic(P, ci, fa, map[*ssa.Function]bool{})
						}
					}
					if !ok {
						r.violate(P.instrPos(ref), fname(f), "the length is only accessed atomically", "plain access to the length", "")
					}
					r.obligation("access to the length at "+P.instrPos(ref)+" is atomic", ok)
				}
			}
		}
	}
	r.need("accesses of the length", n)
}

// onlyFreshHeap: the base is an object allocated in this function.
func onlyFreshHeap(v ssa.Value) bool {
	_, ok := addrRoot(v).(*ssa.Alloc)
	return ok
}

func (r *Report) paramAtomic(P *Prog, ci ssa.CallInstruction, v ssa.Value, seen map[*ssa.Function]bool) bool {
	f := ci.Common().StaticCallee()
	if f == nil || seen[f] {
		return f != nil
	}
	seen[f] = true
	good := true
	for k, a := range ci.Common().Args {
		if a != v || k >= len(f.Params) {
			continue
		}
		var walk func(p ssa.Value)
		walk = func(p ssa.Value) {
			for _, ref := range *p.Referrers() {
				switch y := ref.(type) {
				case *ssa.DebugRef:
				case *ssa.Convert:
					walk(y)
				case *ssa.ChangeType:
					walk(y)
				case ssa.CallInstruction:
					if _, ok := cellOpOf(ref); !ok && !(P.inMod[y.Common().StaticCallee()] && r.paramAtomic(P, y, p, seen)) {
						good = false
					}
				default:
					good = false
				}
			}
		}
		walk(f.Params[k])
	}
	return good
}

// linkFlows: for each function the parameters (-1: something else) that may be linked into
// a list by it as an entry; markers embedded in buckets are no entries.
func (e *Effects) linkFlows() map[*ssa.Function]map[int]bool {
	res := map[*ssa.Function]map[int]bool{}
	var origins func(f *ssa.Function, v ssa.Value, seen map[ssa.Value]bool, out map[int]bool)
	origins = func(f *ssa.Function, v ssa.Value, seen map[ssa.Value]bool, out map[int]bool) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch y := stripConv(v).(type) {
		case *ssa.Parameter:
			for i, p := range f.Params {
				if p == y {
					out[i] = true
				}
			}
		case *ssa.FieldAddr:
			if typeIs(deref(y.X.Type()), "skiplistmap", "bucket") {
				return
			}
			origins(f, y.X, seen, out)
		case *ssa.IndexAddr:
			if _, ok := addrRoot(y).(*ssa.MakeSlice); ok {
				return
			}
			if a, ok := y.X.(*ssa.Slice); ok {
				if _, ok := a.X.(*ssa.Alloc); ok {
					return
				}
			}
			origins(f, y.X, seen, out)
		case *ssa.Phi:
			for _, x := range y.Edges {
				origins(f, x, seen, out)
			}
		case *ssa.MakeInterface:
			origins(f, y.X, seen, out)
		case *ssa.TypeAssert:
			origins(f, y.X, seen, out)
		case *ssa.Alloc:
			if y.Heap {
				out[-1] = true
			} else if w := singleStore(y); w != nil {
				origins(f, w, seen, out)
			} else {
				out[-1] = true
			}
		case *ssa.UnOp:
			if a, ok := y.X.(*ssa.Alloc); ok {
				origins(f, a, seen, out)
			} else {
				out[-1] = true
			}
		case *ssa.Call:
			if e.isItemCall(y, "PtrListHead") || e.isItemCall(y, "PtrMapHead") {
				if y.Call.IsInvoke() {
					origins(f, y.Call.Value, seen, out)
				} else {
					origins(f, y.Call.Args[0], seen, out)
				}
				return
			}
			out[-1] = true
		default:
			out[-1] = true
		}
	}
	for ch := true; ch; {
		ch = false
		for _, f := range e.P.fns {
			out := map[int]bool{}
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					ci, ok := i.(ssa.CallInstruction)
					if !ok {
						continue
					}
					cc := ci.Common()
					if isElistOp(ci, "InsertBefore") && len(cc.Args) > 1 {
						origins(f, cc.Args[1], map[ssa.Value]bool{}, out)
						continue
					}
					g := cc.StaticCallee()
					if g == nil || !e.P.inMod[g] {
						continue
					}
					for p := range res[g] {
						if p < 0 {
							out[-1] = true
						} else if p < len(cc.Args) {
							origins(f, cc.Args[p], map[ssa.Value]bool{}, out)
						}
					}
				}
			}
			for _, a := range f.AnonFuncs {
				if len(res[a]) > 0 {
					out[-1] = true
				}
			}
			if len(out) > len(res[f]) {
				res[f] = out
				ch = true
			}
		}
	}
	return res
}

// tookEffect: the selected operations report success only on paths on which they did what they are for.
func (r *Report) tookEffect(P *Prog, eff *Effects, sel func(kind string) bool) {
	lens := P.lenKeys(eff, r)
	for _, kr := range P.keyRoots(r) {
		if !sel(kr.kind) {
			continue
		}
		n := 0
		r.writeExits(P, eff, kr, lens, func(x *Exec, e effExit) {
			if len(e.o.rets) == 0 {
				return
			}
			s := e.o.st
			ok := e.o.rets[len(e.o.rets)-1]
			if ok.isFalse() || !x.u.assume(s, ok, true) {
				return
			}
			n++
			good := false
			why := ""
			if e.kind == "delete" {
				good = len(toksOf(s, "del")) > 0 || len(toksOf(s, "celldel")) > 0 || len(toksOf(s, "stored-del")) > 0
				why = "no existing entry was marked deleted"
			} else {
				why = "the new value was neither stored in an existing entry nor was an entry holding it linked"
				filled := map[*Term]bool{}
				if e.item != nil {
					filled[e.item] = true
				}
				for _, k := range []string{"set", "tried"} {
					for _, t := range toksOf(s, k) {
						filled[t] = true
					}
				}
				for _, t := range toksOf(s, "set") {
					if !s.fresh[rootOf(t)] && !freshEntry(x, s, t) {
						good = true
					}
				}
				for _, k := range []string{"link", "cell", "stored"} {
					for _, t := range toksOf(s, k) {
						if filled[t] {
							good = true
						}
					}
				}
				if len(toksOf(s, "stored-value")) > 0 {
					good = true
				}
			}
			if !good {
				r.violate(P.pos(e.f.Pos()), fname(e.f), "success only if the write took effect", fname(e.f)+" can report success although "+why, s.path(25))
			}
			r.obligation(fname(e.f)+": success via "+s.path(12), good)
		})
		r.need("successful exits of "+fname(kr.f), n)
	}
}
