package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// sharedKeys: the fields of every module struct that a map consists of, i.e.
// that is reachable from the given type through fields, slices and pointers.
func (P *Prog) structsFrom(t types.Type) map[string]bool {
	res := map[string]bool{}
	seen := map[types.Type]bool{}
	var walk func(t types.Type)
	walk = func(t types.Type) {
		t = types.Unalias(t)
		if seen[t] {
			return
		}
		seen[t] = true
		switch u := t.(type) {
		case *types.Named:
			if s, ok := u.Underlying().(*types.Struct); ok {
				if u.Obj().Pkg() == nil || !P.isModPkg(u.Obj().Pkg()) {
					return
				}
				res[u.Obj().Name()] = true
				_ = s
			}
			walk(u.Underlying())
		case *types.Pointer:
			walk(u.Elem())
		case *types.Slice:
			walk(u.Elem())
		case *types.Array:
			walk(u.Elem())
		case *types.Map:
			walk(u.Key())
			walk(u.Elem())
		case *types.Chan:
			walk(u.Elem())
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				walk(u.Field(i).Type())
			}
		}
	}
	walk(t)
	return res
}

// exported methods of a named type that exist in the source.
func (P *Prog) exportedMethods(pkg *ssa.Package, typ string, ptrOnly bool) []*ssa.Function {
	t := pkg.Type(typ)
	if t == nil {
		return nil
	}
	ms := P.prog.MethodSets.MethodSet(types.NewPointer(t.Type()))
	var res []*ssa.Function
	for i := 0; i < ms.Len(); i++ {
		f := P.prog.MethodValue(ms.At(i))
		if f == nil || !ms.At(i).Obj().Exported() || !P.isModFn(f) {
			continue
		}
		res = append(res, f)
	}
	sort.Slice(res, func(i, j int) bool { return res[i].Name() < res[j].Name() })
	return res
}

func (r *Report) pureRoot(P *Prog, eff *Effects, w map[*ssa.Function]map[wkey]prov, root *ssa.Function, rule string, denied func(k string) bool) {
	set := map[string]bool{}
	for k := range w[root] {
		set[k.key] = true
	}
	ks := sortedKeys(set)
	bad := false
	for _, k := range ks {
		if !denied(k) {
			continue
		}
		bad = true
		path, w := eff.path(w, root, k)
		if w == nil {
			r.violate("-", fname(root), rule, "may write "+k, "")
			continue
		}
		r.violate(P.instrPos(w.Instr), fname(w.Instr.Parent()), rule,
			fname(root)+" must not change "+k+", but reaches this write", strings.Join(path, " -> "))
	}
	r.obligation(fname(root)+": writes "+strings.Join(ks, ","), !bad)
}

func init() {
	register("C21", "The transitive write set (field stores, atomic writes, list mutators, copy, map updates over the call graph) of every read operation is disjoint from all fields of entries, list links, buckets, pools, maps and their tables.",
		func(P *Prog, eff *Effects, r *Report) {
			mt := P.root.Type("Map")
			if mt == nil {
				r.violate("-", "-", "anchor", "type Map not found", "")
				return
			}
			denied := P.mapState()
			n := 0
			for _, name := range []string{"Get", "GetByHash", "LoadItem", "LoadItemByHash", "SearchKey", "Range", "RangeItem", "First", "Last", "Len", "FindBucket", "BackBucket"} {
				f := P.method(P.root, "Map", name)
				if f == nil {
					r.violate("-", "Map."+name, "anchor", "read operation not found", "")
					continue
				}
				n++
				r.pureRoot(P, eff, eff.wset, f, "read operation writes nothing", denied)
				r.sharedMaps(P, eff, f)
			}
			for _, f := range P.exportedMethods(P.root, "Map", false) {
				if strings.HasPrefix(f.Name(), "Dump") {
					n++
					r.pureRoot(P, eff, eff.wset, f, "dumps write nothing", denied)
				}
			}
			eff.itemImpl(nil)
			var impls []*ssa.Function
			for f, m := range eff.itemImpls {
				switch m {
				case "Key", "Value", "KeyHash", "Next", "Prev", "PtrMapHead", "PtrListHead", "Offset", "HmapEntryFromListHead":
					if P.inMod[f] {
						impls = append(impls, f)
					}
				}
			}
			for _, name := range []string{"KeyInHmap", "IsIgnored", "IsDummy", "IsDeleted", "ConflictInHamp", "NextWithNil", "PrevtWithNil", "FromListHead"} {
				if f := P.method(P.root, "MapHead", name); f != nil {
					impls = append(impls, f)
				}
			}
			sort.Slice(impls, func(i, j int) bool { return impls[i].String() < impls[j].String() })
			for _, f := range impls {
				n++
				r.pureRoot(P, eff, eff.wset, f, "navigation and item accessors write nothing", denied)
			}
			if P.rmap != nil {
				if f := P.method(P.rmap, "RMap", "Len"); f != nil {
					n++
					r.pureRoot(P, eff, eff.wset, f, "read operation writes nothing", denied)
					r.sharedMaps(P, eff, f)
				}
				// RMap.Get may move items from the dirty map to the read map, but never touches entries
				cutNew := eff.closure(func(f *ssa.Function) bool {
					return f.Pkg == P.root && strings.HasPrefix(f.Name(), "New") && f.Signature.Recv() == nil
				})
				for _, name := range []string{"Get", "Get2"} {
					if f := P.method(P.rmap, "RMap", name); f != nil {
						n++
						r.pureRoot(P, eff, cutNew, f, "read operation never changes entries", func(k string) bool {
							return denied(k) && !strings.HasPrefix(k, "Map.")
						})
						r.sharedMaps(P, eff, f)
					}
				}
			}
			r.need("read operations", n)
		})
}

// sharedMaps: no map that was not made by the operation itself is changed.
func (r *Report) sharedMaps(P *Prog, eff *Effects, f *ssa.Function) {
	bad := false
	for _, g := range sortedFns(eff.reachable(f)) {
		if !P.inMod[g] {
			continue
		}
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				var m ssa.Value
				switch t := i.(type) {
				case *ssa.MapUpdate:
					m = t.Map
				case ssa.CallInstruction:
					if bi, ok := t.Common().Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear") && len(t.Common().Args) > 0 {
						if _, ok := t.Common().Args[0].Type().Underlying().(*types.Map); ok {
							m = t.Common().Args[0]
						}
					}
				}
				if ld, ok := m.(*ssa.UnOp); ok {
					if _, ok := ld.X.(*ssa.Global); ok {
						continue // package-level variables influence no operation (C14)
					}
				}
				if m != nil && !P.freshMap(eff, m, 0) {
					bad = true
					r.violate(P.instrPos(i), fname(g), "read operation never changes entries", fname(f)+" reaches this change of a map that other operations see", "")
				}
			}
		}
	}
	r.obligation(fname(f)+" changes no shared table", !bad)
}

// freshMap: the map was made by this operation.
func (P *Prog) freshMap(eff *Effects, m ssa.Value, d int) bool {
	if d > 8 {
		return false
	}
	all := func(vs []ssa.Value) bool {
		for _, v := range vs {
			if !P.freshMap(eff, v, d+1) {
				return false
			}
		}
		return len(vs) > 0
	}
	switch t := m.(type) {
	case *ssa.MakeMap, *ssa.Alloc:
		return true
	case *ssa.Phi:
		return all(t.Edges)
	case *ssa.ChangeType:
		return P.freshMap(eff, t.X, d+1)
	case *ssa.UnOp:
		return P.freshMap(eff, addrRoot(t.X), d+1) || P.freshMap(eff, t.X, d+1)
	case *ssa.FieldAddr:
		return P.freshMap(eff, t.X, d+1)
	case *ssa.FreeVar:
		return all(eff.bindings(t))
	case *ssa.Parameter:
		var vs []ssa.Value
		for _, g := range P.fns {
			for _, cs := range eff.calls[g] {
				if cs.callee == t.Parent() {
					if k := paramIndex(t); k < len(cs.args) {
						vs = append(vs, cs.args[k])
					} else {
						return false
					}
				}
			}
		}
		return all(vs)
	case *ssa.Call:
		f := t.Call.StaticCallee()
		if f == nil || !P.inMod[f] {
			return false
		}
		var vs []ssa.Value
		for _, b := range f.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 1 {
				vs = append(vs, ret.Results[0])
			}
		}
		return all(vs)
	}
	return false
}

func sortedFns(m map[*ssa.Function]bool) []*ssa.Function {
	var r []*ssa.Function
	for f := range m {
		r = append(r, f)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
