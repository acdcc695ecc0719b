package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	ruleTableFrozen = "a published table is not changed"
	ruleBothParts   = "a key is absent only if neither part has it"
	ruleMarked      = "the table tells that the other part has entries"
	ruleMoved       = "entries are in exactly one part"
	ruleSlow        = "the part for new keys is only used with the lock held"
	ruleAgain       = "a cell of a deleted key is only used again with the lock held"
)

// twoParts follows the operations of the read-mostly map: a table that is replaced as a
// whole (read without lock) and a map for new keys, that is used under a lock.
type twoParts struct {
	P      *Prog
	eff    *Effects
	r      *Report
	table  types.Type // struct with the Go map and the flag
	mIdx   int
	bIdx   int
	holder map[string]bool // fields holding the published table
	slow   map[string]bool // fields holding the map for new keys
	keys   map[string]bool // fields of the table
	bad    map[string]bool
	calls  int
	looks  int
	pubs   int
	puts   int
}

func (q *twoParts) find() bool {
	rt := q.P.rmap.Type("RMap")
	if rt == nil {
		return false
	}
	var walk func(t types.Type, d int)
	walk = func(t types.Type, d int) {
		st, ok := t.Underlying().(*types.Struct)
		if !ok || d > 4 {
			return
		}
		for k := 0; k < st.NumFields(); k++ {
			ft := st.Field(k).Type()
			key, id, _ := fieldKey(t, k)
			n := namedOf(ft)
			_, isPtr := ft.(*types.Pointer)
			switch {
			case id:
			case isPtr && n == nil && typeIs(ft.(*types.Pointer).Elem(), "skiplistmap", "Map"), isPtr && typeIs(deref(ft), "skiplistmap", "Map"):
				q.slow[key] = true
			case !isPtr && n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync/atomic" && (n.Obj().Name() == "Value" || n.Obj().Name() == "Pointer"):
				q.holder[key] = true
			case !isPtr && n != nil && n.Obj().Pkg() == q.P.rmap.Pkg:
				walk(ft, d+1)
			}
		}
	}
	walk(rt.Type(), 0)
	for _, n := range q.P.rmap.Pkg.Scope().Names() {
		tn, ok := q.P.rmap.Pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		st, ok := tn.Type().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		m, b := -1, -1
		for k := 0; k < st.NumFields(); k++ {
			if mt, ok := st.Field(k).Type().Underlying().(*types.Map); ok {
				if typeIs(deref(mt.Elem()), "sync/atomic", "Value") || typeIs(deref(mt.Elem()), "sync/atomic", "Pointer") {
					m = k
				}
			}
			if bt, ok := st.Field(k).Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Bool {
				b = k
			}
		}
		if m >= 0 && b >= 0 {
			q.table, q.mIdx, q.bIdx = tn.Type(), m, b
			for k := 0; k < st.NumFields(); k++ {
				key, _, _ := fieldKey(tn.Type(), k)
				q.keys[key] = true
			}
		}
	}
	return q.table != nil && len(q.slow) > 0 && len(q.holder) > 0
}

func (q *twoParts) field(x *Exec, s *State, t *Term, k int) *Term {
	f := q.table.Underlying().(*types.Struct).Field(k)
	return x.load(s, x.u.field(t, q.table, k), f.Type(), nil, nil)
}

func (q *twoParts) violate(s *State, i ssa.Instruction, rule, what string) {
	k := q.P.instrPos(i) + rule + what
	if q.bad[k] {
		return
	}
	q.bad[k] = true
	q.r.violate(q.P.instrPos(i), fname(i.Parent()), rule, what, s.path(25))
}

type rangeItem struct{ m, v *Term }

func (q *twoParts) run(f *ssa.Function, kind string) {
	P, eff, r := q.P, q.eff, q.r
	items := map[*Term]rangeItem{}
	asserted := map[*Term]types.Type{}
	var one *Term
	set := func(s *State, kind string, a *Term) { s.toks[Tok{kind, a, nil}] = struct{}{} }
	flag := func(s *State, kind string) { s.toks[Tok{kind, one, nil}] = struct{}{} }
	has := func(s *State, kind string) bool { return len(toks(s, kind)) > 0 }
	drop := func(s *State, kinds ...string) {
		for _, t := range toks(s, kinds...) {
			delete(s.toks, t)
		}
	}
	cur := func(s *State) *Term {
		if c := toks(s, "cur"); len(c) > 0 {
			return c[0].a
		}
		return nil
	}
	mapType := q.table.Underlying().(*types.Struct).Field(q.mIdx).Type()
	cl := &Client{}
	cl.interesting = func(x *Exec, i ssa.Instruction) bool { return i.Parent().Pkg == P.rmap }
	cl.noInline = func(g *ssa.Function) bool { return g.Pkg != P.rmap && g.Synthetic == "" }
	mine := func(s *State, t *Term) bool { // not shared yet
		root := rootOf(t)
		for _, t := range toks(s, "public") {
			if t.a == root {
				return false
			}
		}
		return root.Op == OAlloc && s.fresh[root]
	}
	// what must hold when nothing protects the two parts any more
	release := func(x *Exec, s *State, i ssa.Instruction) {
		if has(s, "stored") && !has(s, "marked") {
			q.violate(s, i, ruleMarked, fname(f)+" adds a key to the part for new keys while the table says that it has none: it is not found")
		}
		if has(s, "moved") && !has(s, "replaced") {
			q.violate(s, i, ruleMoved, fname(f)+" publishes the entries of the part for new keys and keeps them there")
		}
		if has(s, "replaced") && !has(s, "moved") {
			q.violate(s, i, ruleMoved, fname(f)+" drops the part for new keys, the entries of which have not been published")
		}
		drop(s, "lock", "rlock", "cur", "missL", "marked", "stored", "moved", "replaced", "collected", "scanned", "target", "left out")
	}
	cl.onLock = func(x *Exec, s *State, kind string, mu *Term, c *Call) ([]*Outcome, bool) {
		switch kind {
		case "Lock":
			flag(s, "lock")
		case "RLock":
			flag(s, "rlock")
		case "TryLock", "TryRLock":
			no := s.clone()
			flag(s, strings.ToLower(strings.TrimPrefix(kind, "Try")))
			return []*Outcome{{no, []*Term{x.u.Fals}}, {s, []*Term{x.u.True}}}, true
		default:
			release(x, s, c.instr)
		}
		s.note(P.instrPos(c.instr) + " " + kind)
		return []*Outcome{{s, nil}}, true
	}
	locked := func(s *State) bool { return has(s, "lock") || has(s, "rlock") }
	publish := func(x *Exec, s *State, c *Call, n *Term) {
		q.pubs++
		if !has(s, "lock") {
			q.violate(s, c.instr, ruleMoved, fname(f)+" replaces the table without the lock")
			return
		}
		n = lockTerm(n)
		if n.Typ != nil || n.Op == OAlloc {
			old := cur(s)
			nm := q.field(x, s, n, q.mIdx)
			keeps := false
			if old != nil {
				om := q.field(x, s, old, q.mIdx)
				keeps = om == nm
				for _, t := range toks(s, "scanned") {
					keeps = keeps || t.a == om || x.u.evalEq(s, t.a, om) == 1
				}
			}
			for _, t := range toks(s, "target") {
				if t.a != nm && x.u.evalEq(s, t.a, nm) != 1 {
					keeps = false
				}
			}
			if has(s, "left out") {
				q.violate(s, c.instr, ruleMoved, fname(f)+" leaves a cell out of the new table that is not known to be of a deleted key")
			}
			if !keeps {
				q.violate(s, c.instr, ruleMoved, fname(f)+" replaces the table by one that does not have all the cells of the table before")
			}
			switch x.u.eval(s, q.field(x, s, n, q.bIdx)) {
			case 1:
				flag(s, "marked")
			default:
				drop(s, "marked")
				if !has(s, "collected") {
					q.violate(s, c.instr, ruleMarked, fname(f)+" publishes a table that says that there are no other entries, without having moved those")
				}
			}
			if has(s, "collected") {
				flag(s, "moved")
			}
			drop(s, "cur", "missL", "scanned", "target", "left out")
			set(s, "cur", n)
			set(s, "public", rootOf(n))
			set(s, "public", rootOf(nm))
			s.note(P.instrPos(c.instr) + " published")
		}
	}
	ofCur := func(x *Exec, s *State, cell *Term) bool {
		c := cur(s)
		if c == nil {
			return false
		}
		if _, ok := s.toks[Tok{"cell", cell, c}]; ok {
			return true
		}
		om := q.field(x, s, c, q.mIdx)
		if cell.Op == OPCall && strings.HasPrefix(cell.Aux, "mapget") && len(cell.Args) > 0 && cell.Args[0] == om {
			return true
		}
		for _, t := range toks(s, "item") {
			if items[t.a].v == cell && items[t.a].m == om {
				return true
			}
		}
		return false
	}
	cl.onMapUpdate = func(x *Exec, s *State, m, k, v *Term, i *ssa.MapUpdate, ctx *Ctx) {
		if !types.Identical(i.Map.Type(), mapType) {
			return
		}
		q.puts++
		if !mine(s, m) {
			q.violate(s, i, ruleTableFrozen, fname(f)+" changes the map of a table others read without lock")
		}
		s.toks[Tok{"put", one, v}] = struct{}{}
		for _, t := range toks(s, "item") {
			if it := items[t.a]; it.v == v {
				set(s, "kept", t.a)
				set(s, "target", m)
			}
		}
	}
	cl.onStore = func(x *Exec, s *State, addr, v *Term, i ssa.Instruction, ctx *Ctx) {
		if addr.Op != OField || mine(s, addr) {
			return
		}
		if q.keys[addr.Aux] {
			q.violate(s, i, ruleTableFrozen, fname(f)+" changes a table others read without lock")
		}
		if q.slow[addr.Aux] {
			if !has(s, "lock") {
				q.violate(s, i, ruleSlow, fname(f)+" replaces the part for new keys without the lock")
			}
			if !has(s, "collected") {
				q.violate(s, i, ruleMoved, fname(f)+" drops the part for new keys without having moved its entries")
			}
			flag(s, "replaced")
			s.note(P.instrPos(i) + " part for new keys replaced")
		}
	}
	cl.onLookup = func(x *Exec, s *State, m, key *Term, i *ssa.Lookup, found bool, v *Term) {
		if !types.Identical(i.X.Type(), mapType) {
			return
		}
		q.looks++
		if found {
			flag(s, "found")
			if c := cur(s); c != nil && q.field(x, s, c, q.mIdx) == m {
				s.toks[Tok{"cell", v, c}] = struct{}{}
			}
			return
		}
		for _, t := range append(toks(s, "snap"), toks(s, "cur")...) {
			if q.field(x, s, t.a, q.mIdx) == m {
				set(s, "miss", t.a)
				if t.kind == "cur" {
					set(s, "missL", t.a)
				}
			}
		}
	}
	// deleted notes that a cell of the old table has no entry
	deleted := func(x *Exec, s *State, t Tok) {
		for _, l := range toks(s, "load") {
			if l.a != items[t.a].v {
				continue
			}
			dead := x.u.evalEq(s, l.b, x.u.Nil) == 1
			if at := asserted[l.b]; at != nil {
				dead = dead || x.u.evalEq(s, x.u.mk(OPCall, "ptr", at, l.b), x.u.Nil) == 1 ||
					x.u.eval(s, x.u.mk(OPCall, "istype:"+typeKey(at), types.Typ[types.Bool], l.b)) == -1
			}
			if dead {
				set(s, "dead", t.a)
			}
		}
	}
	cl.onBranch = func(x *Exec, s *State, ctx *Ctx) {
		for _, t := range append(toks(s, "snap"), toks(s, "cur")...) {
			switch x.u.eval(s, q.field(x, s, t.a, q.bIdx)) {
			case 1:
				if t.kind == "cur" {
					flag(s, "marked")
				}
			case -1:
				set(s, "plain", t.a)
			}
		}
		for _, t := range toks(s, "item") {
			if x.u.eval(s, t.a) == -1 {
				delete(s.toks, t)
				set(s, "scanned", items[t.a].m)
				continue
			}
			deleted(x, s, t)
		}
	}
	cl.onInstr = func(x *Exec, s *State, i ssa.Instruction, ctx *Ctx) {
		switch y := i.(type) {
		case *ssa.Extract:
			nx, ok := y.Tuple.(*ssa.Next)
			if !ok || y.Index != 0 {
				return
			}
			rg, ok := nx.Iter.(*ssa.Range)
			if !ok || !types.Identical(rg.X.Type(), mapType) {
				return
			}
			tup, rt := x.val(s, ctx, nx), x.val(s, ctx, rg)
			if tup.Op != OTuple || rt.Op != OPCall || len(rt.Args) == 0 {
				return
			}
			items[tup.Args[0]] = rangeItem{rt.Args[0], tup.Args[2]}
			set(s, "item", tup.Args[0])
		case *ssa.MakeMap:
			if types.Identical(y.Type(), mapType) {
				drop(s, "scanned", "target", "left out", "collected") // another copy starts
			}
		case *ssa.TypeAssert:
			a := x.val(s, ctx, y.X)
			asserted[a] = y.AssertedType
		}
	}
	cl.onBackEdge = func(x *Exec, s *State, ctx *Ctx, from, to *ssa.BasicBlock, phis map[*ssa.Phi]*Term) {
		isNext := false
		for _, i := range to.Instrs {
			if _, ok := i.(*ssa.Next); ok {
				isNext = true
			}
		}
		if !isNext {
			return
		}
		for _, t := range toks(s, "item") {
			deleted(x, s, t)
			_, kept := s.toks[Tok{"kept", t.a, nil}]
			_, dead := s.toks[Tok{"dead", t.a, nil}]
			if !kept && !dead {
				flag(s, "left out")
			}
			delete(s.toks, t)
		}
		drop(s, "kept", "dead", "load")
	}
	cl.onCall = func(x *Exec, s *State, c *Call) ([]*Outcome, bool) {
		if b, ok := c.common.Value.(*ssa.Builtin); ok {
			if (b.Name() == "delete" || b.Name() == "clear") && len(c.common.Args) > 0 && types.Identical(c.common.Args[0].Type(), mapType) && !mine(s, c.args[0]) {
				q.violate(s, c.instr, ruleTableFrozen, fname(f)+" removes from the map of a table others read without lock")
			}
			return nil, false
		}
		if c.fn == nil {
			return nil, false
		}
		pkg, recv, name := calleeName(c.fn)
		if pkg == "sync/atomic" && len(c.args) > 0 && c.args[0].Op == OField && q.holder[c.args[0].Aux] {
			if mine(s, c.args[0]) {
				return nil, false // the map is being made
			}
			q.calls++
			switch name {
			case "Load":
				t := cur(s)
				if t == nil {
					t = x.newSym(s, c.instr, c.ctx, "table", types.NewPointer(q.table), "published table")
					s.addFact(eqFact(t, x.u.Nil, true))
					if locked(s) {
						set(s, "cur", t)
					} else {
						set(s, "snap", t)
					}
				}
				if recv == "Value" {
					t = x.u.mk(OIface, typeKey(types.NewPointer(q.table)), types.NewPointer(q.table), t)
				}
				return []*Outcome{{s, []*Term{t}}}, true
			case "Store":
				publish(x, s, c, c.args[1])
				return []*Outcome{{s, nil}}, true
			case "CompareAndSwap":
				no := s.clone()
				drop(no, "collected", "scanned", "target", "left out")
				publish(x, s, c, c.args[2])
				return []*Outcome{{s, []*Term{x.u.True}}, {no, []*Term{x.u.Fals}}}, true
			}
			q.violate(s, c.instr, ruleMoved, "the table is replaced in a way that is not known")
			return nil, false
		}
		if pkg == "sync/atomic" && name == "Store" && len(c.args) > 1 && mine(s, c.args[0]) && isCellOf(c.common, mapType) {
			s.toks[Tok{"filled", c.args[0], lockTerm(c.args[1])}] = struct{}{}
			return nil, false
		}
		if pkg == "sync/atomic" && len(c.args) > 1 && !mine(s, c.args[0]) && isCellOf(c.common, mapType) {
			switch name {
			case "CompareAndSwap":
				if x.u.evalEq(s, lockTerm(c.args[1]), x.u.Nil) == -1 {
					return nil, false
				}
				fallthrough
			case "Store", "Swap":
				if !has(s, "lock") {
					q.violate(s, c.instr, ruleAgain, fname(f)+" stores an entry in a cell that may be of a deleted key, and no longer in the next table")
				} else if !ofCur(x, s, c.args[0]) {
					q.violate(s, c.instr, ruleAgain, fname(f)+" stores an entry in a cell that is not known to be in the table that is published")
				}
			}
			return nil, false
		}
		if pkg == "sync/atomic" && name == "Load" && isCellOf(c.common, mapType) {
			outs := x.atomicOp(s, c, recv, name)
			for _, o := range outs {
				o.st.toks[Tok{"load", c.args[0], o.rets[0]}] = struct{}{}
			}
			return outs, true
		}
		if recv == "Map" && c.fn.Pkg == P.root && len(c.args) > 0 && !mine(s, c.args[0]) {
			q.calls++
			if !locked(s) {
				q.violate(s, c.instr, ruleSlow, fname(f)+" uses the part for new keys without the lock")
			}
			switch name {
			case "Get", "GetByHash", "LoadItem", "LoadItemByHash":
				if has(s, "missL") {
					flag(s, "asked")
				}
			case "Set", "StoreItem":
				if !has(s, "lock") {
					q.violate(s, c.instr, ruleSlow, fname(f)+" adds to the part for new keys without the lock")
				}
				outs := x.opaqueCall(s, c, "store")
				no := s.clone()
				flag(s, "stored")
				drop(s, "collected")
				s.note(P.instrPos(c.instr) + " added to the part for new keys")
				return []*Outcome{{s, []*Term{x.u.True}}, {no, []*Term{x.u.Fals}}}, len(outs) > 0
			case "RangeItem", "Range":
				q.collect(x, s, c, f)
				if has(s, "stored") {
					flag(s, "marked") // what is added is moved, or the new table has the mark
				}
				flag(s, "collected")
				s.note(P.instrPos(c.instr) + " entries collected")
				return []*Outcome{{s, nil}}, true
			}
			return nil, false
		}
		return nil, false
	}
	x := newExec(P, eff, cl)
	one = x.u.True
	n := 0
	for _, o := range x.runRoot(f) {
		n++
		s := o.st
		if len(f.Blocks) > 0 {
			release(x, s, f.Blocks[0].Instrs[0])
		}
		if kind != "lookup" && kind != "delete" || len(o.rets) == 0 {
			continue
		}
		ok := o.rets[len(o.rets)-1]
		if ok.isTrue() || !x.u.assume(s, ok, false) {
			continue
		}
		good := has(s, "found") || has(s, "asked")
		for _, m := range toks(s, "miss") {
			if _, ok := s.toks[Tok{"plain", m.a, nil}]; ok {
				good = true
			}
		}
		if !good {
			q.violate(s, f.Blocks[0].Instrs[0], ruleBothParts, fname(f)+" reports absence on a path on which a key in the part for new keys is not looked for")
		}
		r.obligation(fname(f)+": absence via "+s.path(6), good)
	}
	r.need("exits of "+fname(f), n)
	x.finish(r)
}

// isCellOf: the operation is one of a value of the map, not of another atomic.
func isCellOf(c *ssa.CallCommon, m types.Type) bool {
	if len(c.Args) == 0 {
		return false
	}
	return types.Identical(c.Args[0].Type(), m.Underlying().(*types.Map).Elem())
}

// collect judges the function given to the traversal of the part for new keys.
func (q *twoParts) collect(x *Exec, s *State, c *Call, f *ssa.Function) {
	ft := c.args[len(c.args)-1]
	if ft.Fn == nil {
		return
	}
	st := s.clone()
	for _, t := range toks(st, "put", "filled") {
		delete(st.toks, t)
	}
	var args []*Term
	for _, p := range ft.Fn.Params {
		a := x.u.sym("item:"+fname(ft.Fn)+":"+p.Name(), p.Type(), p.Name())
		st.born[a] = true
		st.addFact(eqFact(a, x.u.Nil, true))
		args = append(args, a)
	}
	var free []*Term
	if ft.Op == OClosure {
		free = ft.Args
	}
	for _, o := range x.run(ft.Fn, args, free, st, x.ctx(c.ctx, c.instr, ft.Fn)) {
		if len(o.rets) > 0 && x.u.eval(o.st, o.rets[0]) != 1 {
			q.violate(o.st, c.instr, ruleMoved, fname(f)+" can stop before all entries are moved")
		}
		if put := toks(o.st, "put"); len(put) > 0 {
			full := false
			for _, t := range toks(o.st, "filled") {
				full = full || t.a == put[0].b && lockTerm(t.b) == lockTerm(args[0])
			}
			if !full {
				q.violate(o.st, c.instr, ruleMoved, fname(f)+" adds a cell to the new table that does not hold the entry it is for")
			}
			continue
		}
		other := false
		for fa := range o.st.facts {
			if fa.op == 'T' && fa.neg && fa.a.Op == OPCall && strings.HasPrefix(fa.a.Aux, "istype:") && len(fa.a.Args) == 1 && fa.a.Args[0] == args[0] {
				other = true // not what is stored there
			}
		}
		if !other {
			q.violate(o.st, c.instr, ruleMoved, fname(f)+" leaves an entry of the part for new keys out of the new table")
		}
	}
}

func init() {
	register("C26", "In the read-mostly map, on every path: published tables are not changed; absence needs a cell of the key, a table marked complete, or a look into the part for new keys under the lock after the table was looked at again; keys are added to that part only under a table marked incomplete; a new table has every live cell of the old one, and the other part is replaced exactly if its entries are published; cells of deleted keys are only used again under the lock.",
		func(P *Prog, eff *Effects, r *Report) {
			q := &twoParts{P: P, eff: eff, r: r, holder: map[string]bool{}, slow: map[string]bool{}, keys: map[string]bool{}, bad: map[string]bool{}}
			if P.rmap == nil || !q.find() {
				r.violate("-", "RMap", "anchor", "the table, its holder or the part for new keys were not found", "")
				return
			}
			kinds := map[string]string{}
			for _, kr := range P.keyRoots(r) {
				kinds[fname(kr.f)] = kr.kind
			}
			for _, f := range P.exportedMethods(P.rmap, "RMap", true) {
				if f.Pkg != P.rmap || f.Synthetic != "" {
					continue
				}
				q.run(f, kinds[fname(f)])
				r.obligation(fname(f)+" keeps both parts consistent", len(q.bad) == 0)
			}
			r.need("uses of the two parts", q.calls)
			r.need("lookups in tables", q.looks)
			r.need("tables published", q.pubs)
			r.need("entries of tables written", q.puts)
		})
}
