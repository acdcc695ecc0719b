package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// pubRun follows the entries an operation publishes.
type pubRun struct {
	P                        *Prog
	eff                      *Effects
	conflict, reverse, state string
	keys                     map[string]bool // fields that hold the key of an entry
	kinds                    map[*ssa.Function]string
	cells                    map[*ssa.Function]bool
	x                        *Exec
	item                     *Term // the entry given by the user
	bad                      []Violation
	n                        int
	refs                     map[string]bool // fields that hold references to entries
}

const (
	ruleComplete = "an entry is complete when it is published"
	ruleFrozen   = "the key and the hashes of a published entry stay as they are"
	ruleRetained = "a linked entry is referred to by the map"
)

func newPubRun(P *Prog, eff *Effects, r *Report) *pubRun {
	q := &pubRun{P: P, eff: eff, keys: map[string]bool{}, refs: map[string]bool{}, kinds: map[*ssa.Function]string{}}
	q.conflict, q.reverse, q.state = P.headRoles(eff, r)
	if q.conflict == "" || q.reverse == "" {
		return nil
	}
	for _, k := range P.keyRoots(r) {
		q.kinds[k.f] = k.kind
	}
	for _, t := range P.itemTypes() {
		if m := P.methodOf(t, "Key"); m != nil {
			for k := range eff.readKeys(m) {
				q.keys[k] = true
			}
		}
	}
	return q
}

// roots: the operations that put entries into a map.
func (q *pubRun) roots() (fs []*ssa.Function) {
	flows := q.eff.linkFlows()
	maps := map[*types.Named]bool{}
	for f := range q.kinds {
		maps[namedOf(f.Signature.Recv().Type())] = true
	}
	for _, f := range q.P.opRoots() {
		if f.Signature.Recv() == nil || !maps[namedOf(f.Signature.Recv().Type())] {
			continue
		}
		if q.kinds[f] == "update" {
			fs = append(fs, f)
			continue
		}
		for p := 1; p < len(f.Params) && len(flows[f]) > 0; p++ {
			if typeIs(f.Params[p].Type(), "skiplistmap", "MapItem") {
				fs = append(fs, f)
				break
			}
		}
	}
	return
}

func ssaInBucket(v ssa.Value) bool {
	for {
		switch y := stripConv(v).(type) {
		case *ssa.FieldAddr:
			if typeIs(deref(y.X.Type()), "skiplistmap", "bucket") {
				return true
			}
			v = y.X
		case *ssa.IndexAddr:
			v = y.X
		default:
			return false
		}
	}
}

// slotSource: a query of a pool that yields a slot; indexed: of a pool that is searched by hash.
func slotSource(f *ssa.Function) (slot, indexed bool) {
	if f == nil || f.Signature.Recv() == nil {
		return
	}
	res := f.Signature.Results()
	if res.Len() < 2 {
		return
	}
	if t := res.At(0).Type(); !typeIs(t, "skiplistmap", "MapItem") && !isSampleT(deref(t)) {
		return
	}
	for i := 1; i < res.Len(); i++ {
		if holdsSlots(res.At(i).Type()) {
			return true, true
		}
	}
	return holdsSlots(f.Signature.Recv().Type()), false
}

// holdsSlots: a pointer to a struct with a table of slots.
func holdsSlots(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	s, ok := p.Elem().Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if sl, ok := s.Field(i).Type().Underlying().(*types.Slice); ok && isSampleT(sl.Elem()) {
			return true
		}
	}
	return false
}

// touches: instructions that complete, publish or retain entries.
func (q *pubRun) touches(i ssa.Instruction) bool {
	addr, mut := cellMutation(i)
	if mut {
		k := addrKey(addr)
		if q.keys[k] || k == "MapHead."+q.reverse || k == "MapHead."+q.conflict {
			return !ssaInBucket(addr)
		}
	}
	switch y := i.(type) {
	case *ssa.Alloc:
		return y.Heap && q.P.isItemPtr(y.Type())
	case *ssa.Store:
		if !q.isEntry(y.Val) {
			return false
		}
		_, ok := stripConv(y.Addr).(*ssa.FieldAddr)
		return ok && !isLocalRoot(y.Addr)
	case *ssa.MapUpdate:
		return q.isEntry(y.Value) || q.isEntry(y.Key)
	case ssa.CallInstruction:
		if q.eff.isItemCall(y, "SetValue") {
			return true
		}
		if _, ok := cellWrite(y.Common()); ok {
			return true
		}
		g := y.Common().StaticCallee()
		if slot, _ := slotSource(g); slot {
			return true
		}
		if q.kinds[g] == "update" {
			return true
		}
		if op, ok := cellOpOf(i); ok && op.kind == "mutate" && strings.Contains(op.name, "Pointer") {
			k := addrKey(op.addr)
			return strings.HasPrefix(k, "Map.")
		}
		if b, ok := y.Common().Value.(*ssa.Builtin); ok && b.Name() == "append" {
			sl, ok := y.Common().Args[0].Type().Underlying().(*types.Slice)
			return ok && q.entryType(sl.Elem())
		}
		return syncMapStore(g)
	}
	return false
}

func syncMapStore(g *ssa.Function) bool {
	if g == nil {
		return false
	}
	pkg, recv, name := calleeName(g)
	return pkg == "sync" && recv == "Map" && (name == "Store" || name == "LoadOrStore" || name == "Swap")
}

func (P *Prog) isItemPtr(t types.Type) bool {
	n := namedOf(deref(t))
	return n != nil && P.isItemType(n)
}

func (q *pubRun) entryType(t types.Type) bool {
	return q.P.isItemPtr(t) && isPtrLike(t) || typeIs(t, "skiplistmap", "MapItem") || typeIs(t, "skiplistmap", "HMapEntry")
}

func (q *pubRun) isEntry(v ssa.Value) bool {
	if mi, ok := v.(*ssa.MakeInterface); ok {
		v = mi.X
	}
	return q.entryType(v.Type())
}

func (q *pubRun) mark(s *State, kind string, e *Term) {
	s.toks[Tok{kind, e, nil}] = struct{}{}
}

func has(s *State, kind string, e *Term) bool {
	_, ok := s.toks[Tok{kind, e, nil}]
	return ok
}

// complete judges an entry that is published.
// ref: the address is that of a field that holds references to entries.
func (q *pubRun) ref(addr *Term) {
	if addr.Op == OField {
		q.refs[locKey(addr)] = true
	}
}

func (q *pubRun) complete(s *State, e *Term, i ssa.Instruction, how string, hashes bool) {
	miss := ""
	given := e == q.item
	switch {
	case !given && !has(s, "key", e):
		miss = "key"
	case !given && !has(s, "value", e):
		miss = "value"
	case hashes && !has(s, "conflict", e):
		miss = "conflict hash"
	case hashes && !has(s, "reverse", e):
		miss = "hash"
	}
	q.n++
	if miss != "" {
		if dbg {
			fmt.Println("MISS", miss, e, i.Parent())
			for t := range s.toks {
				fmt.Println("  ", t.kind, t.a, t.b)
			}
		}
		q.bad = append(q.bad, Violation{q.P.instrPos(i), fname(i.Parent()), ruleComplete, "the entry is " + how + " before its " + miss + " has been stored", s.path(40)})
	}
	q.mark(s, "published", e)
}

func (q *pubRun) changed(s *State, e *Term, what string, i ssa.Instruction) {
	if has(s, "published", e) {
		q.bad = append(q.bad, Violation{q.P.instrPos(i), fname(i.Parent()), ruleFrozen, "the " + what + " of the entry is stored after the entry has been published", s.path(14)})
	}
}

// head notes a store to a hash of an entry.
func (q *pubRun) head(s *State, e *Term, what string, i ssa.Instruction) {
	if inBucket(e) || has(s, what, e) && fromZero(i) {
		return
	}
	if what == "reverse" && has(s, "indexed", e) {
		q.mark(s, "reverse", e)
		if !has(s, "published", e) {
			q.complete(s, e, i, "given the hash under which it is found", true)
		}
		return
	}
	q.changed(s, e, map[string]string{"reverse": "hash", "conflict": "conflict hash"}[what], i)
	q.mark(s, what, e)
}

// fromZero: a compare-and-swap that only replaces zero, never a hash that has been stored.
func fromZero(i ssa.Instruction) bool {
	ci, ok := i.(ssa.CallInstruction)
	if !ok {
		return false
	}
	op, ok := cellOpOf(i)
	if !ok || !strings.HasPrefix(op.name, "CompareAndSwap") {
		return false
	}
	for _, a := range ci.Common().Args[1:] {
		c, ok := a.(*ssa.Const)
		return ok && c.Value != nil && c.Value.ExactString() == "0"
	}
	return false
}

// held: entries that can be reached from the object r.
func held(s *State, r *Term) (es []*Term) {
	for t := range s.toks {
		if t.kind == "held" && t.a == r {
			es = append(es, t.b)
		}
	}
	return
}

// keeps: the old content of the field can be reached from the object.
func (q *pubRun) keeps(s *State, r, old *Term) bool {
	if q.x.u.evalEq(s, old, q.x.u.Nil) == 1 {
		return true
	}
	for k, v := range s.mem {
		if rootOf(k) == r && traced(k) && q.x.u.evalEq(s, v, old) == 1 {
			q.ref(k)
			return true
		}
	}
	_, ok := s.toks[Tok{"extends", r, old}]
	return ok
}

func (q *pubRun) run(r *Report, f *ssa.Function, exit func(o *Outcome)) {
	P, eff := q.P, q.eff
	cl := &Client{interesting: func(x *Exec, i ssa.Instruction) bool { return q.touches(i) }}
	to := eff.reachesInstr(q.touches)
	flows := eff.linkFlows()
	cl.noInline = func(g *ssa.Function) bool { return !to[g] && len(flows[g]) == 0 && !smallPanicker(g) }
	cl.interesting = func(x *Exec, i ssa.Instruction) bool {
		ci, ok := i.(ssa.CallInstruction)
		return q.touches(i) || ok && isElistOp(ci, "InsertBefore") && len(flows[i.Parent()]) > 0
	}
	cl.keepRet = func(t *Term) bool { return t.Typ != nil && q.entryType(t.Typ) }
	cl.onStore = func(x *Exec, s *State, addr, v *Term, i ssa.Instruction, ctx *Ctx) {
		if addr.Op == OField {
			e := entryTerm(addr.Args[0])
			switch k := locKey(addr); {
			case q.keys[k]:
				if !inBucket(e) {
					q.changed(s, e, "key", i)
					q.mark(s, "key", e)
				}
			case k == "MapHead."+q.reverse:
				q.head(s, e, "reverse", i)
			case k == "MapHead."+q.conflict:
				q.head(s, e, "conflict", i)
			}
		}
		// references
		a, root := rootOf(addr), entryTerm(v)
		if root == nil || root.Op == OConst || root.Op == ONil || !traced(addr) {
			return
		}
		if a.Op == OAlloc && s.fresh[a] {
			if q.tracked(s, root) && a != root {
				s.toks[Tok{"held", a, root}] = struct{}{}
				q.ref(addr)
			}
			for _, e := range held(s, rootOf(root)) {
				q.ref(addr)
				s.toks[Tok{"held", a, e}] = struct{}{}
			}
			return
		}
		if !q.inMap(addr) {
			return
		}
		t := v.Typ
		if t == nil && addr.Typ != nil {
			t = deref(addr.Typ)
		}
		if t == nil {
			return
		}
		old := x.load(s, addr, t, i, ctx)
		for _, c := range []*Term{root, rootOf(root)} {
			es := held(s, c)
			if len(es) > 0 && !q.keeps(s, c, old) {
				q.bad = append(q.bad, Violation{P.instrPos(i), fname(i.Parent()), ruleRetained, "the reference to the entry replaces the references to earlier entries", s.path(14)})
			}
			for _, e := range es {
				q.ref(addr)
				q.mark(s, "retained", e)
			}
		}
	}
	cl.onMapUpdate = func(x *Exec, s *State, m, k, v *Term, i *ssa.MapUpdate, ctx *Ctx) {
		for _, e := range []*Term{entryTerm(k), entryTerm(v)} {
			if q.tracked(s, e) && q.inMap(m) {
				if m.Op == OLoad {
					q.ref(m.Args[0])
				}
				q.mark(s, "retained", e)
			}
		}
	}
	cl.onCall = func(x *Exec, s *State, c *Call) ([]*Outcome, bool) {
		u := x.u
		if c.method == nil && c.fn != nil {
			if b, ok := c.common.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				return nil, false
			}
			if op, ok := cellOpOf(c.instr); ok && strings.HasPrefix(op.name, "CompareAndSwap") && len(c.args) > 1 {
				// a failed attempt finds the hash stored already
				if a := c.args[0]; a.Op == OField {
					e := entryTerm(a.Args[0])
					for _, w := range []string{"reverse", "conflict"} {
						if locKey(a) == "MapHead."+map[string]string{"reverse": q.reverse, "conflict": q.conflict}[w] && u.evalEq(s, c.args[1], u.int(0)) == 1 {
							outs := x.external(s, c)
							for _, o := range outs {
								if has(o.st, w, e) {
									continue
								}
								q.mark(o.st, w, e)
							}
							return outs, true
						}
					}
				}
			}
		}
		if b, ok := c.common.Value.(*ssa.Builtin); ok && c.method == nil && b.Name() == "append" {
			outs := x.builtin(s, c, "append")
			for _, o := range outs {
				if len(c.args) < 2 || len(o.rets) == 0 {
					continue
				}
				for _, e := range held(o.st, rootOf(x.u.slicePart(c.args[1], 0))) {
					o.st.toks[Tok{"held", o.rets[0], e}] = struct{}{}
					o.st.toks[Tok{"extends", o.rets[0], c.args[0]}] = struct{}{}
				}
			}
			return outs, true
		}
		if slot, indexed := slotSource(c.fn); slot && c.method == nil && c.fn != f {
			outs := x.opaqueModule(s, c)
			for _, o := range outs {
				e := entryTerm(o.rets[0])
				q.mark(o.st, "slot", e)
				if indexed {
					q.mark(o.st, "indexed", e)
				}
			}
			return outs, true
		}
		if k := q.kinds[c.fn]; k != "" && c.fn != f && c.fn.Pkg != f.Pkg {
			outs := x.opaqueModule(s, c)
			if k == "update" && len(c.args) > 1 && c.args[1].Typ != nil && q.tracked(s, entryTerm(c.args[1])) {
				q.complete(s, entryTerm(c.args[1]), c.instr, "handed to the map below", false)
				for _, o := range outs {
					q.mark(o.st, "published", entryTerm(c.args[1]))
				}
			}
			return outs, true
		}
		switch m := x.itemMethod(c); m {
		case "SetValue":
			if e := entryTerm(c.args[0]); has(s, "published", e) {
				q.bad = append(q.bad, Violation{P.instrPos(c.instr), fname(c.instr.Parent()), ruleComplete, "the value of a new entry is stored after the entry has been published", s.path(14)})
			}
			o := x.itemCall(s, c, m)
			for _, q2 := range o {
				q.mark(q2.st, "value", entryTerm(c.args[0]))
			}
			return o, true
		case "":
		default:
			return x.itemCall(s, c, m), true
		}
		ci, isCI := c.instr.(ssa.CallInstruction)
		if !isCI || c.fn == nil || c.method != nil {
			return nil, false
		}
		if isElistOp(ci, "InsertBefore") && len(c.args) > 1 {
			e := entryTerm(c.args[1])
			if inBucket(e) || len(flows[c.instr.Parent()]) == 0 {
				return nil, false
			}
			q.complete(s, e, c.instr, "linked", true)
			o := x.external(s, c)
			for _, w := range o {
				q.mark(w.st, "linked", e)
				w.st.note(P.instrPos(c.instr) + " linked")
			}
			return o, true
		}
		if k, ok := cellWrite(c.common); ok {
			e := entryTerm(c.args[k])
			if e.Op == OAlloc && u.evalEq(s, e, u.Nil) != 1 {
				q.complete(s, e, c.instr, "stored in a table", true)
			}
			return nil, false
		}
		if syncMapStore(c.fn) && q.inMap(c.args[0]) {
			for _, a := range c.args[1:] {
				if e := entryTerm(a); q.tracked(s, e) {
					q.ref(c.args[0])
					q.mark(s, "retained", e)
				}
			}
		}
		return nil, false
	}
	x := newExec(P, eff, cl)
	q.x = x
	st := newState()
	var args []*Term
	q.item = nil
	for i, p := range f.Params {
		a := x.u.sym("param:"+fname(f)+":"+p.Name(), p.Type(), p.Name())
		st.born[a] = true
		if i == 0 {
			st.addFact(eqFact(a, x.u.Nil, true))
		} else if typeIs(p.Type(), "skiplistmap", "MapItem") {
			q.item = a
		}
		args = append(args, a)
	}
	for _, o := range x.run(f, args, nil, st, x.ctx(nil, nil, f)) {
		exit(o)
	}
	x.finish(r)
}

// tracked: an entry made on this path or given by the user.
func (q *pubRun) tracked(s *State, e *Term) bool {
	if e == nil {
		return false
	}
	if e == q.item {
		return true
	}
	return e.Op == OAlloc && e.Typ != nil && q.P.isItemPtr(e.Typ)
}

// traced: the garbage collector follows what is stored at the address.
func traced(addr *Term) bool {
	if addr.Op != OField || addr.Typ == nil {
		return true
	}
	b, ok := deref(addr.Typ).Underlying().(*types.Basic)
	return !ok || b.Kind() == types.UnsafePointer
}

// inMap: the address is that of a field of the map.
func (q *pubRun) inMap(t *Term) bool {
	for t != nil && len(t.Args) > 0 {
		if t.Op == OField && strings.HasPrefix(t.Aux, "Map.") {
			return true
		}
		t = t.Args[0]
	}
	return false
}

func init() {
	register("C08", "On every path of every writing operation, when an entry is linked into the ordered list, stored in a table, or given the hash under which its slot is found, its key, value and both hashes have been stored on that path, and key and hashes are not stored again afterwards.",
		func(P *Prog, eff *Effects, r *Report) { publishCheck(P, eff, r, false) })
	register("C12", "On every path of every writing operation, an entry that was allocated by the operation or given by the caller and is linked into the ordered list is referred to from a field of the map (through ordinary pointers, without dropping the references to earlier entries), unless it is a slot of a pool. No function drops such a reference later, and every pool the map has used stays referred to by the map.",
		func(P *Prog, eff *Effects, r *Report) { publishCheck(P, eff, r, true) })
}

func publishCheck(P *Prog, eff *Effects, r *Report, retained bool) {
	q := newPubRun(P, eff, r)
	if q == nil {
		r.violate("-", "-", "anchor", "fields of the entry head not found", "")
		return
	}
	for _, f := range q.roots() {
		n := 0
		q.bad, q.n = nil, 0
		q.run(r, f, func(o *Outcome) {
			n++
			if !retained {
				return
			}
			for t := range o.st.toks {
				if t.kind != "linked" {
					continue
				}
				good := !q.tracked(o.st, t.a) || has(o.st, "retained", t.a) || has(o.st, "slot", t.a)
				r.obligation(fmt.Sprintf("%s: linked entry %v via %s", fname(f), t.a, o.st.path(6)), good)
				if !good {
					q.bad = append(q.bad, Violation{P.pos(f.Pos()), fname(f), ruleRetained, fmt.Sprintf("%s links an entry that no field of the map refers to", fname(f)), o.st.path(20)})
				}
			}
		})
		r.need("exits of "+fname(f), n)
		if retained {
			r.report(q.bad, ruleRetained)
		} else {
			r.report(q.bad, ruleComplete, ruleFrozen)
			for k := 0; k < q.n; k++ {
				r.obligation(fmt.Sprintf("%s: publication %d", fname(f), k), true)
			}
			r.count("publications", q.n)
		}
	}
	if !retained {
		r.need("publications", r.counts["publications"])
		r.blankSlots(P, eff, q.reverse)
	} else {
		retentionCheck(P, eff, r, q)
	}
}

// blankSlots: functions that hand out slots do not store the hash the slot is wanted for,
// under which it would be found before its content has been stored.
func (r *Report) blankSlots(P *Prog, eff *Effects, reverse string) {
	from := map[*ssa.Function]bool{}
	n := 0
	for _, f := range P.fns {
		if slot, _ := slotSource(f); slot {
			for g := range eff.reachable(f) {
				if P.inMod[g] {
					from[g] = true
				}
			}
		}
	}
	key := "MapHead." + reverse
	var blank func(v ssa.Value, d int) bool
	blank = func(v ssa.Value, d int) bool {
		if d > 6 {
			return false
		}
		switch y := stripConv(v).(type) {
		case *ssa.Const:
			c, ok := constInt(y)
			return ok && c == 0
		case *ssa.UnOp:
			if y.Op == token.MUL {
				if addrKey(y.X) == key {
					return true // the hash of a slot that moves
				}
				if a, ok := y.X.(*ssa.Alloc); ok {
					if s := onlyStore(a); s != nil {
						return blank(s, d+1)
					}
				}
			}
		case *ssa.Call:
			if op, ok := cellOpOf(y); ok && op.kind == "load" {
				return addrKey(op.addr) == key
			}
		case *ssa.Phi:
			for _, e := range y.Edges {
				if e != ssa.Value(y) && !blank(e, d+1) {
					return false
				}
			}
			return true
		case *ssa.Parameter:
			k, any := paramIndex(y), false
			for g := range from {
				for _, cs := range eff.calls[g] {
					if cs.callee == y.Parent() && k < len(cs.args) {
						any = true
						if !blank(cs.args[k], d+1) {
							return false
						}
					}
				}
			}
			return any
		}
		return false
	}
	for _, f := range sortedFns(from) {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				var v ssa.Value
				if st, ok := i.(*ssa.Store); ok && addrKey(st.Addr) == key {
					v = st.Val
				} else if op, ok := cellOpOf(i); ok && op.kind == "mutate" && addrKey(op.addr) == key {
					a := i.(ssa.CallInstruction).Common().Args
					v = a[len(a)-1]
				}
				if v == nil {
					continue
				}
				n++
				ok := blank(v, 0)
				if !ok {
					r.violate(P.instrPos(i), fname(f), ruleComplete, "a slot is given a hash by the function that hands it out, before its key and value have been stored", "")
				}
				r.obligation(fmt.Sprintf("%s: hash stored at %s is zero or that of a moved slot", fname(f), P.instrPos(i)), ok)
			}
		}
	}
	r.count("hashes stored by functions that hand out slots", n)
}
