package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// hashPair: the plain hash and the conflict hash a call asks for.
type hashPair struct{ k, c *Term }

// keyRoot is an exported operation and the hash pairs of the key it is asked for.
type keyRoot struct {
	f    *ssa.Function
	kind string // lookup, update, delete
}

// keyRoots finds the exported operations on one key by name and signature.
func (P *Prog) keyRoots(r *Report) []keyRoot {
	var res []keyRoot
	add := func(pkg *ssa.Package, typ string, names map[string]string) {
		for _, n := range sortedKeys2(names) {
			f := P.method(pkg, typ, n)
			if f == nil {
				r.violate("-", typ+"."+n, "anchor", "operation not found", "")
				continue
			}
			res = append(res, keyRoot{f, names[n]})
		}
	}
	add(P.root, "Map", map[string]string{"Get": "lookup", "GetByHash": "lookup", "LoadItem": "lookup", "LoadItemByHash": "lookup",
		"Set": "update", "StoreItem": "update", "Delete": "delete", "Purge": "delete"})
	if rp := P.rmapPkg(); rp != nil {
		add(rp, "RMap", map[string]string{"Get": "lookup", "Get2": "lookup", "Set": "update", "Set2": "update", "Delete": "delete"})
	}
	return res
}

func (P *Prog) rmapPkg() *ssa.Package {
	for _, p := range P.ssapkgs {
		if strings.HasSuffix(p.Pkg.Path(), "/rmap") {
			return p
		}
	}
	return nil
}

func sortedKeys2(m map[string]string) []string {
	b := map[string]bool{}
	for k := range m {
		b[k] = true
	}
	return sortedKeys(b)
}

func hashOf(u *Univ, key *Term) hashPair {
	t := types.Typ[types.Uint64]
	return hashPair{u.mk(OPCall, "KeyToHash#0", t, key), u.mk(OPCall, "KeyToHash#1", t, key)}
}

// wanted gives the hash pairs an operation called with args asks for.
func (x *Exec) wanted(f *ssa.Function, args []*Term) (ps []hashPair, key *Term) {
	u := x.u
	ps0 := f.Params[1:]
	as := args[1:]
	if len(ps0) >= 2 && isUint64(ps0[0].Type()) && isUint64(ps0[1].Type()) {
		return []hashPair{{as[0], as[1]}}, nil
	}
	if len(ps0) == 0 {
		return nil, nil
	}
	t := ps0[0].Type()
	switch {
	case typeIs(t, "skiplistmap", "MapItem"):
		k := u.mk(OPCall, "Key", nil, as[0])
		return []hashPair{hashOf(u, k)}, k
	case types.IsInterface(t):
		return []hashPair{hashOf(u, as[0])}, as[0]
	}
	return []hashPair{hashOf(u, u.mk(OIface, typeKey(t), t, as[0]))}, nil
}

func isUint64(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint64
}

// headField: address of a field of the MapHead of entry e.
func (x *Exec) headField(e *Term, name string) *Term {
	mh := x.P.root.Type("MapHead").Type()
	st := mh.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return x.u.field(e, mh, i)
		}
	}
	return nil
}

// headRoles finds which fields of MapHead hold the conflict hash, the
// bit-reversed hash and the state, from the exported accessors.
func (P *Prog) headRoles(eff *Effects, r *Report) (conflict, reverse, state string) {
	one := func(m string) string {
		f := P.method(P.root, "MapHead", m)
		if f == nil {
			r.violate("-", "MapHead."+m, "anchor", "accessor not found", "")
			return ""
		}
		ks := eff.readKeys(f)
		for k := range ks {
			if len(ks) == 1 {
				return strings.TrimPrefix(k, "MapHead.")
			}
		}
		r.violate(P.pos(f.Pos()), fname(f), "anchor", "the accessor reads "+strings.Join(sortedKeys(ks), ","), "")
		return ""
	}
	return one("ConflictInHamp"), one("KeyInHmap"), one("IsDeleted")
}

// entryTerm strips conversions off an entry.
func entryTerm(e *Term) *Term {
	for e != nil && (e.Op == OPCall && e.Aux == "ptr" || e.Op == OIface) && len(e.Args) > 0 {
		e = e.Args[0]
	}
	return e
}

// loadsOf: terms that stand for the content of a cell, at any time.
func (x *Exec) loadsOf(s *State, addr *Term) []*Term {
	u := x.u
	seen := map[*Term]bool{}
	var r []*Term
	add := func(t *Term) {
		if t != nil && !seen[t] {
			seen[t] = true
			r = append(r, t)
		}
	}
	if v, ok := s.mem[addr]; ok {
		add(v)
	}
	add(u.mk(OLoad, "", types.Typ[types.Uint64], addr))
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil {
			return
		}
		if t.Op == OLoad && t.Args[0] == addr {
			add(t)
			return
		}
		if t.Op == ORev || t.Op == OBin {
			for _, a := range t.Args {
				walk(a)
			}
		}
	}
	for f := range s.facts {
		if f.op == '=' || f.op == '<' {
			walk(f.a)
			walk(f.b)
		}
	}
	return r
}

// matches: the entry e is known to have the hash pair p in state s.
func (x *Exec) matches(s *State, e *Term, p hashPair, conflict, reverse string) (string, bool) {
	u := x.u
	e = entryTerm(e)
	okR, okC := false, false
	for _, l := range x.loadsOf(s, x.headField(e, reverse)) {
		if u.evalEq(s, l, u.rev(p.k)) == 1 || u.evalEq(s, u.rev(l), p.k) == 1 {
			okR = true
			break
		}
	}
	for _, l := range x.loadsOf(s, x.headField(e, conflict)) {
		if u.evalEq(s, l, p.c) == 1 {
			okC = true
			break
		}
	}
	switch {
	case !okR && !okC:
		return "neither its hash nor its conflict hash", false
	case !okR:
		return "its hash not", false
	case !okC:
		return "its conflict hash not", false
	}
	return "", true
}

// fromCell: e was read from a cell found under a key that contains the pair.
func (x *Exec) fromCell(s *State, e *Term, p hashPair) (types.Type, bool) {
	u := x.u
	e = entryTerm(e)
	for e != nil && (e.Op == OLoad || e.Op == OField && len(e.Args) == 1) {
		e = e.Args[0]
	}
	if e == nil || e.Op != OPCall || e.Aux != "mapget" || len(e.Args) < 2 {
		return nil, false
	}
	key := e.Args[1]
	if key.Op != OStruct {
		return nil, false
	}
	pk, pc := -1, -1
	for i, a := range key.Args {
		if u.evalEq(s, a, p.k) == 1 || u.evalEq(s, a, u.rev(p.k)) == 1 {
			pk = i
		}
		if u.evalEq(s, a, p.c) == 1 && (pk != i || len(key.Args) == 1) {
			pc = i
		}
	}
	if pk < 0 || pc < 0 {
		return nil, false
	}
	return key.Typ, keyPlaces(x.P, key.Typ, pk, pc)
}

func init() {
	register("C01", "At every successful exit of a lookup, and at every value update or deletion of an existing entry by an operation on one key, the entry is known on the path to have the hash and the conflict hash of that key (compared on the path, or found in a table under a key that contains both); tables of entries are only filled under the hashes of the entry.",
		func(P *Prog, eff *Effects, r *Report) {
			conflict, reverse, _ := P.headRoles(eff, r)
			if conflict == "" || reverse == "" {
				return
			}
			link := eff.reaches(func(f *ssa.Function, ci ssa.CallInstruction) bool { return isElistOp(ci, "InsertBefore") })
			seen := map[ssa.Instruction]bool{}
			j := &judge{field: conflict, tables: true,
				lookup: "success only for the entry of the key", update: "only the entry of the key is updated", delete: "only the entry of the key is deleted", good: "the entry of the key",
				check: func(x *Exec, s *State, e *Term, want []hashPair) (string, bool) {
					why := "nothing is known about it"
					for _, p := range want {
						w, ok := x.matches(s, e, p, conflict, reverse)
						if ok {
							return "", true
						}
						why = w
						if _, ok := x.fromCell(s, e, p); ok {
							return "", true
						}
					}
					return why + " is known to be that of the requested key", false
				}}
			for _, kr := range P.keyRoots(r) {
				r.lookupRoot(P, eff, kr, j, conflict, reverse, link, seen)
			}
			// the others, on their own
			n := 0
			for _, mu := range P.entryTables() {
				n++
				if seen[mu] {
					continue
				}
				cl := &Client{onMapUpdate: r.tableRule(P, mu.Parent(), conflict, reverse)}
				cl.interesting = func(x *Exec, i ssa.Instruction) bool {
					_, ok := i.(*ssa.MapUpdate)
					return ok || readsField(i, conflict) || readsField(i, reverse)
				}
				x := newExec(P, eff, cl)
				x.runRoot(mu.Parent())
				for i := range x.visited {
					seen[i] = true
				}
				x.finish(r)
			}
			r.count("places that fill tables of entries", n)
		})
}

// readsField: the instruction takes the address of a field of MapHead that is then read.
func readsField(i ssa.Instruction, name string) bool {
	fa, ok := i.(*ssa.FieldAddr)
	if !ok || !isMapHead(deref(fa.X.Type())) {
		return false
	}
	st, ok := deref(fa.X.Type()).Underlying().(*types.Struct)
	if !ok || st.Field(fa.Field).Name() != name {
		return false
	}
	for _, ref := range *fa.Referrers() {
		switch y := ref.(type) {
		case *ssa.UnOp:
			return true
		case ssa.CallInstruction:
			if sc := y.Common().StaticCallee(); sc != nil && strings.HasPrefix(sc.Name(), "Load") {
				return true
			}
		}
	}
	return false
}

// judge: what must be known about an entry that an operation reports or uses.
type judge struct {
	field                        string // of the header, whose reads matter
	tables                       bool   // the keys of tables matter
	cells                        bool   // what is stored in cells matters
	lookup, update, delete, good string
	check                        func(x *Exec, s *State, e *Term, want []hashPair) (string, bool)
	noInline                     func(f *ssa.Function) bool
	contract                     func(x *Exec, s *State, e *Term) // what a nested lookup guarantees
}

func (r *Report) lookupRoot(P *Prog, eff *Effects, kr keyRoot, j *judge, conflict, reverse string, link map[*ssa.Function]bool, seen map[ssa.Instruction]bool) {
	f := kr.f
	kinds := map[*ssa.Function]string{}
	for _, k := range P.keyRoots(r) {
		kinds[k.f] = k.kind
	}
	var want []hashPair
	var keyArg *Term
	seenUpd := 0
	hashing := map[*ssa.Function]bool{}
	if kh := P.root.Func("KeyToHash"); kh != nil {
		hashing = eff.reachable(kh)
	}
	cl := &Client{}
	cl.interesting = func(x *Exec, i ssa.Instruction) bool {
		if readsField(i, j.field) || hashing[i.Parent()] {
			return true
		}
		switch y := i.(type) {
		case *ssa.Alloc:
			return j.cells && y.Heap && isSampleT(deref(y.Type()))
		case *ssa.TypeAssert:
			return isSampleT(deref(y.AssertedType))
		case *ssa.Lookup, *ssa.MapUpdate:
			return true
		case ssa.CallInstruction:
			if eff.isItemCall(y, "SetValue") || eff.isItemCall(y, "Delete") || eff.isItemCall(y, "Value") {
				return true
			}
			if _, ok := cellWrite(y.Common()); ok && j.cells {
				return true
			}
			if n := y.Common().StaticCallee(); n != nil && n.Name() == "KeyToHash" && n.Pkg == P.root {
				return true
			}
		}
		return false
	}
	checkE := func(x *Exec, s *State, e *Term) (string, bool) { return j.check(x, s, e, want) }
	cl.onCall = func(x *Exec, s *State, c *Call) ([]*Outcome, bool) {
		if o, ok := x.opContract(s, c, f, kinds, conflict, reverse, j); ok {
			return o, true
		}
		if c.fn != nil && c.fn.Name() == "KeyToHash" && c.fn.Pkg == P.root && c.fn.Signature.Recv() == nil && len(c.args) == 1 {
			if x.u.evalEq(s, c.args[0], x.u.Nil) == 1 {
				return x.inline(s, c), true
			}
			p := hashOf(x.u, c.args[0])
			return []*Outcome{{s, []*Term{p.k, p.c}}}, true
		}
		m := x.itemMethod(c)
		if _, isCI := c.instr.(ssa.CallInstruction); isCI && m == "" && j.cells && c.method == nil && c.fn != nil {
			if k, ok := cellWrite(c.common); ok {
				v := entryTerm(c.args[k])
				why, good := checkE(x, s, v)
				if x.u.evalEq(s, v, x.u.Nil) == 1 || rootOf(v).Op == OAlloc {
					good = true
				}
				if !good {
					r.violate(P.instrPos(c.instr), fname(c.instr.Parent()), "cells hold live entries", fname(f)+" stores an entry in a cell although "+why, s.path(15))
				}
				r.obligation(fmt.Sprintf("%s: cell written at %s receives a live entry, a new one or none via %s", fname(f), P.instrPos(c.instr), s.path(6)), good)
			}
		}
		switch m {
		case "SetValue":
			if e := entryTerm(c.args[0]); !s.fresh[rootOf(e)] {
				if _, ok := checkE(x, s, e); ok {
					seenUpd++
					r.obligation(fmt.Sprintf("%s: update at %s acts on %s via %s", fname(f), P.instrPos(c.instr), j.good, s.path(10)), true)
				} else {
					if dbg {
						fmt.Println("UPD", e, "WANT", want[0].k, want[0].c)
						for f := range s.facts {
							fmt.Println("   ", f.a, string(f.op), f.b, f.neg)
						}
					}
					s.toks[Tok{"upd:" + P.instrPos(c.instr), e, nil}] = struct{}{}
				}
			}
			return x.opaqueCall(s, c, "sv"), true
		case "Delete":
			if e := entryTerm(c.args[0]); !s.fresh[rootOf(e)] {
				seenUpd++
				why, ok := checkE(x, s, e)
				if !ok {
					r.violate(P.instrPos(c.instr), fname(c.instr.Parent()), j.delete, fname(f)+" deletes an entry although "+why, s.path(20))
				}
				r.obligation(fmt.Sprintf("%s: deletion at %s acts on %s via %s", fname(f), P.instrPos(c.instr), j.good, s.path(10)), ok)
				if j.cells {
					s.toks[Tok{"deleted", e, nil}] = struct{}{}
				}
			}
			return x.opaqueCall(s, c, "del"), true
		case "":
		default:
			return x.itemCall(s, c, m), true
		}
		if c.fn != nil && P.inMod[c.fn] && c.fn.Parent() == nil && !isRmap(c.fn) && link[c.fn] {
			// the entry is linked: a new one
			for t := range s.toks {
				if strings.HasPrefix(t.kind, "upd:") {
					for _, a := range c.args {
						if entryTerm(a) == t.a {
							delete(s.toks, t)
						}
					}
				}
			}
			if !x.readsConflictBelow(c.fn, j.field) {
				return x.opaqueModule(s, c), true
			}
		}
		return nil, false
	}
	cl.keepRet = func(t *Term) bool {
		return t.Op == OPCall && t.Aux == "Value" || t.Typ != nil && (typeIs(t.Typ, "skiplistmap", "MapItem") || typeIs(t.Typ, "skiplistmap", "HMapEntry") || isSampleT(deref(t.Typ)))
	}
	if j.tables {
		cl.onMapUpdate = r.tableRule(P, f, conflict, reverse)
	}
	cl.onLookup = func(x *Exec, s *State, m, key *Term, i *ssa.Lookup, found bool, v *Term) {
		mt, ok := i.X.Type().Underlying().(*types.Map)
		if !j.tables || !ok || !holdsEntry(mt.Elem()) || key.Op != OStruct {
			return
		}
		for _, p := range want {
			if _, ok := x.fromCell(s, x.u.mk(OPCall, "mapget", nil, m, key), p); ok {
				return
			}
		}
		if len(want) > 0 {
			r.violate(P.instrPos(i), fname(i.Parent()), "tables are asked for the hashes of the requested key", fname(f)+" asks a table of entries for a key that does not consist of the hash and the conflict hash of the requested key, at the places they have in the other keys of the table", s.path(15))
		}
	}
	if j.noInline != nil {
		cl.noInline = j.noInline
	}
	x := newExec(P, eff, cl)
	n := 0
	for pass := 0; pass < 2; pass++ {
		st := newState()
		var args []*Term
		for i, p := range f.Params {
			a := x.u.sym("param:"+fname(f)+":"+p.Name(), p.Type(), p.Name())
			st.born[a] = true
			if i == 0 {
				st.addFact(eqFact(a, x.u.Nil, true))
			}
			args = append(args, a)
		}
		want, keyArg = x.wanted(f, args)
		if keyArg != nil {
			// once with a key and once with nil, which hashes to (0, 0)
			st.addFact(eqFact(keyArg, x.u.Nil, pass == 0))
			if pass == 1 {
				h := hashOf(x.u, keyArg)
				st.addFact(eqFact(h.k, x.u.int(0), false))
				st.addFact(eqFact(h.c, x.u.int(0), false))
				want = []hashPair{{x.u.int(0), x.u.int(0)}}
			}
		} else if pass == 1 {
			break
		}
		for _, o := range x.run(f, args, nil, st, x.ctx(nil, nil, f)) {
			if len(o.rets) == 0 {
				continue
			}
			ok := o.rets[len(o.rets)-1]
			s := o.st
			if ok.isFalse() || !x.u.assume(s, ok, true) {
				continue
			}
			n++
			switch kr.kind {
			case "lookup":
				e := o.rets[0]
				if e.Op == OPCall && e.Aux == "Value" {
					e = e.Args[0]
				}
				why, good := checkE(x, s, e)
				if !good && dbg {
					for k := range s.facts {
						fmt.Println("  fact", k.neg, string(k.op), k.a, k.b)
					}
				}
				if !good {
					r.violate(P.pos(f.Pos()), fname(f), j.lookup, fname(f)+" reports success for "+e.String()+" although "+why, s.path(20))
				}
				r.obligation(fname(f)+": success via "+s.path(12), good)
			case "update":
				for t := range s.toks {
					if strings.HasPrefix(t.kind, "upd:") {
						at := strings.TrimPrefix(t.kind, "upd:")
						why, _ := checkE(x, s, t.a)
						r.violate(at, fname(f), j.update, fname(f)+" replaces the value of an existing entry although "+why, s.path(20))
						r.obligation(fname(f)+": update at "+at, false)
					}
				}
			}
		}
	}
	if kr.kind == "delete" {
		n = seenUpd
		if strings.HasSuffix(fname(f), "RMap).Delete") {
			n++
		}
	}
	r.need("successful exits of "+fname(f), n)
	r.count("operations", 1)
	for i := range x.visited {
		seen[i] = true
	}
	x.finish(r)
}

var dbg = os.Getenv("CHECKER_DEBUG") != ""

func isRmap(f *ssa.Function) bool {
	return f.Pkg != nil && strings.HasSuffix(f.Pkg.Pkg.Path(), "/rmap")
}

// readsConflictBelow: the function compares conflict hashes itself.
func (x *Exec) readsConflictBelow(f *ssa.Function, conflict string) bool {
	for g := range x.eff.reachable(f) {
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				if readsField(i, conflict) {
					return true
				}
			}
		}
	}
	return false
}

// holdsEntry: values of this type lead to an entry.
func holdsEntry(t types.Type) bool {
	if typeIs(deref(t), "sync/atomic", "Value") || isSampleT(deref(t)) || typeIs(t, "skiplistmap", "MapItem") {
		return true
	}
	return false
}

// sameNext: key and value come from the same step of a range loop.
func sameNext(k, v ssa.Value) bool {
	a, ok1 := stripConv(k).(*ssa.Extract)
	b, ok2 := stripConv(v).(*ssa.Extract)
	return ok1 && ok2 && a.Tuple == b.Tuple
}

// opContract replaces a nested operation on one key by what it guarantees.
func (x *Exec) opContract(s *State, c *Call, root *ssa.Function, kinds map[*ssa.Function]string, conflict, reverse string, j *judge) ([]*Outcome, bool) {
	if c.fn == nil || c.fn == root || kinds[c.fn] == "" {
		return nil, false
	}
	if kinds[c.fn] != "lookup" {
		if c.fn.Pkg == root.Pkg {
			return nil, false
		}
		return x.opaqueModule(s, c), true
	}
	ps, key := x.wanted(c.fn, c.args)
	if key != nil && x.u.evalEq(s, key, x.u.Nil) == 1 {
		ps = []hashPair{{x.u.int(0), x.u.int(0)}}
	}
	u := x.u
	miss := s.clone()
	outs := x.opaqueModule(s, c)
	o := outs[0]
	rs := c.sig.Results()
	item := x.newSym(o.st, c.instr, c.ctx, "entry", nil, "entry found at "+x.P.instrPos(c.instr))
	o.st.addFact(eqFact(item, u.Nil, true))
	o.st.addFact(eqFact(u.mk(OLoad, "", types.Typ[types.Uint64], x.headField(item, reverse)), u.rev(ps[0].k), false))
	o.st.addFact(eqFact(u.mk(OLoad, "", types.Typ[types.Uint64], x.headField(item, conflict)), ps[0].c, false))
	if j.contract != nil {
		j.contract(x, o.st, item)
	}
	o.rets[0] = item
	if !typeIs(rs.At(0).Type(), "skiplistmap", "MapItem") {
		o.rets[0] = u.mk(OPCall, "Value", rs.At(0).Type(), item)
	}
	o.rets[len(o.rets)-1] = u.True
	o.st.note(x.P.instrPos(c.instr) + " found")
	mo := x.opaqueModule(miss, c)[0]
	mo.rets[0] = u.zero(rs.At(0).Type())
	mo.rets[len(mo.rets)-1] = u.Fals
	mo.st.note(x.P.instrPos(c.instr) + " not found")
	return []*Outcome{o, mo}, true
}

// tableRule: entries are only stored in a table under a key made of their own hashes.
func (r *Report) tableRule(P *Prog, f *ssa.Function, conflict, reverse string) func(x *Exec, s *State, m, k, v *Term, i *ssa.MapUpdate, ctx *Ctx) {
	return func(x *Exec, s *State, m, k, v *Term, i *ssa.MapUpdate, ctx *Ctx) {
		mt, ok := i.Map.Type().Underlying().(*types.Map)
		if !ok || !holdsEntry(mt.Elem()) {
			return
		}
		key := fmt.Sprintf("%s: table entry stored at %s is stored under its own hashes", fname(f), P.instrPos(i))
		if strings.HasPrefix(k.Desc, "range key") && strings.HasPrefix(v.Desc, "range value") && sameNext(i.Key, i.Value) {
			r.obligation(key, true)
			return
		}
		e := v
		if c, ok := s.mem[v]; ok {
			e = c
		}
		e = entryTerm(e)
		pk, pc := -1, -1
		if k.Op == OStruct {
			for ai, a := range k.Args {
				for _, l := range x.loadsOf(s, x.headField(e, reverse)) {
					if x.u.evalEq(s, a, l) == 1 || x.u.evalEq(s, a, x.u.rev(l)) == 1 {
						pk = ai
					}
				}
				for _, l := range x.loadsOf(s, x.headField(e, conflict)) {
					if x.u.evalEq(s, a, l) == 1 && pk != ai {
						pc = ai
					}
				}
			}
		}
		good := pk >= 0 && pc >= 0
		if good && !keyPlaces(P, k.Typ, pk, pc) {
			r.violate(P.instrPos(i), fname(i.Parent()), "table entries are stored under their own hashes", "the hash and the conflict hash have other places in this key than in the other keys of the table", s.path(15))
		}
		if !good {
			r.violate(P.instrPos(i), fname(i.Parent()), "table entries are stored under their own hashes", "the key stored here is not known to consist of the hash and the conflict hash of the entry stored under it", s.path(15))
		}
		r.obligation(key, good)
	}
}

// entryTables lists the instructions that fill tables of entries.
func (P *Prog) entryTables() (res []*ssa.MapUpdate) {
	for _, f := range P.fns {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if mu, ok := i.(*ssa.MapUpdate); ok {
					if mt, ok := mu.Map.Type().Underlying().(*types.Map); ok && holdsEntry(mt.Elem()) {
						res = append(res, mu)
					}
				}
			}
		}
	}
	return
}

// keyPlaces: all keys of a table have the hash and the conflict hash at the same places.
func keyPlaces(P *Prog, t types.Type, pk, pc int) bool {
	k := typeKey(t)
	if P.keyPlace == nil {
		P.keyPlace = map[string][2]int{}
	}
	if q, ok := P.keyPlace[k]; ok {
		return q == [2]int{pk, pc}
	}
	P.keyPlace[k] = [2]int{pk, pc}
	return true
}
