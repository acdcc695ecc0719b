package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Effects: transitive write sets of module functions, by field.

type WriteSite struct {
	Key    string
	Instr  ssa.Instruction
	Local  bool // rooted at an object allocated in the same function
	Root   int
	Direct bool
}

// wkey is a location class a function may write, with the root of the address:
// rootHeap, a parameter index, or freeVar0+index.
type wkey struct {
	key    string
	root   int
	direct bool // the address is the root itself
}

const (
	rootHeap = -1
	freeVar0 = 1000
)

type callSite struct {
	callee *ssa.Function
	instr  ssa.Instruction
	args   []ssa.Value // nil: unknown
	free   []ssa.Value
}

type prov struct {
	site   *WriteSite
	via    *ssa.Function
	viaKey wkey
	at     ssa.Instruction
}

type Effects struct {
	P         *Prog
	direct    map[*ssa.Function][]WriteSite
	callees   map[*ssa.Function][]*ssa.Function
	sites     map[*ssa.Function]map[*ssa.Function]ssa.Instruction
	calls     map[*ssa.Function][]callSite
	wset      map[*ssa.Function]map[wkey]prov
	trans     map[*ssa.Function]map[string]bool
	dyn       map[*ssa.Function]int // calls of unknown function values
	impls     map[string][]*ssa.Function
	itemImpls map[*ssa.Function]string
}

// classify gives the root of an address in f: local, parameter, free variable or heap.
func classify(v ssa.Value) (root int, direct, local bool) {
	if v == nil {
		return rootHeap, false, false
	}
	r := addrRoot(v)
	switch t := r.(type) {
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		return 0, false, true
	case *ssa.Const:
		return 0, false, true // nil
	case *ssa.Parameter:
		for i, p := range t.Parent().Params {
			if p == t {
				return i, stripConv(v) == ssa.Value(t), false
			}
		}
	case *ssa.FreeVar:
		for i, p := range t.Parent().FreeVars {
			if p == t {
				return freeVar0 + i, stripConv(v) == ssa.Value(t), false
			}
		}
	}
	return rootHeap, false, false
}

func newEffects(P *Prog) *Effects {
	e := &Effects{P: P, direct: map[*ssa.Function][]WriteSite{}, callees: map[*ssa.Function][]*ssa.Function{},
		sites: map[*ssa.Function]map[*ssa.Function]ssa.Instruction{}, calls: map[*ssa.Function][]callSite{},
		trans: map[*ssa.Function]map[string]bool{}, dyn: map[*ssa.Function]int{}, impls: map[string][]*ssa.Function{}}
	for _, f := range P.fns {
		e.scan(f)
	}
	e.wset = e.closure(nil)
	for _, f := range P.fns {
		e.trans[f] = map[string]bool{}
		for k := range e.wset[f] {
			e.trans[f][k.key] = true
		}
	}
	return e
}

// closure computes the transitive write sets, not entering functions cut out.
func (e *Effects) closure(cut func(f *ssa.Function) bool) map[*ssa.Function]map[wkey]prov {
	w := map[*ssa.Function]map[wkey]prov{}
	for _, f := range e.P.fns {
		w[f] = map[wkey]prov{}
		for i := range e.direct[f] {
			s := &e.direct[f][i]
			if s.Local {
				continue
			}
			k := wkey{s.Key, s.Root, s.Direct}
			if _, ok := w[f][k]; !ok {
				w[f][k] = prov{site: s}
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for _, f := range e.P.fns {
			for _, c := range e.calls[f] {
				if cut != nil && cut(c.callee) {
					continue
				}
				for k := range w[c.callee] {
					n := k
					if k.root != rootHeap {
						var arg ssa.Value
						if k.root >= freeVar0 {
							if k.root-freeVar0 < len(c.free) {
								arg = c.free[k.root-freeVar0]
							}
						} else if k.root < len(c.args) {
							arg = c.args[k.root]
						}
						r, d, local := classify(arg)
						if local {
							continue
						}
						n.root = r
						n.direct = k.direct && d
						if k.direct && arg != nil {
							if ak := addrKey(arg); ak != "local" && !strings.HasPrefix(ak, "deref:") && strings.HasPrefix(k.key, "deref:") {
								n.key = ak
							}
						}
					}
					if _, ok := w[f][n]; !ok {
						w[f][n] = prov{via: c.callee, viaKey: k, at: c.instr}
						ch = true
					}
				}
			}
		}
	}
	return w
}

// implementers returns the module methods an interface call can reach.
func (e *Effects) implementers(m *types.Func) []*ssa.Function {
	recv := m.Type().(*types.Signature).Recv()
	if recv == nil {
		return nil
	}
	it, ok := recv.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	k := typeKey(recv.Type()) + "." + m.Name()
	if r, ok := e.impls[k]; ok {
		return r
	}
	seen := map[*ssa.Function]bool{}
	var res []*ssa.Function
	for _, p := range e.P.ssapkgs {
		var names []string
		for n := range p.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			t, ok := p.Members[n].(*ssa.Type)
			if !ok {
				continue
			}
			if _, isI := t.Type().Underlying().(*types.Interface); isI {
				continue
			}
			for _, tt := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
				if !types.Implements(tt, it) {
					continue
				}
				sel := e.P.prog.MethodSets.MethodSet(tt).Lookup(m.Pkg(), m.Name())
				if sel == nil {
					continue
				}
				f := e.P.prog.MethodValue(sel)
				if f != nil && !seen[f] && e.P.isModFn(f) {
					seen[f] = true
					res = append(res, f)
				}
				break
			}
		}
	}
	e.impls[k] = res
	return res
}

func addrRoot(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Convert:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.TypeAssert:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.UnOp:
			// load of a local cell with a single stored value
			if a, ok := x.X.(*ssa.Alloc); ok {
				if s := singleStore(a); s != nil {
					v = s
					continue
				}
			}
			return v
		default:
			return v
		}
	}
}

func singleStore(a *ssa.Alloc) ssa.Value {
	var val ssa.Value
	n := 0
	for _, r := range *a.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr == a {
				n++
				val = r.Val
			} else {
				return nil
			}
		case *ssa.UnOp, *ssa.DebugRef:
		default:
			return nil
		}
	}
	if n == 1 {
		return val
	}
	return nil
}

// storedOnce: the variable is stored by one instruction of its function and
// otherwise only read, by the function and by its closures, or its closures
// run in the function only, called or deferred.
func storedOnce(a *ssa.Alloc) bool {
	n, local := 0, true
	var reads func(v ssa.Value) bool
	reads = func(v ssa.Value) bool {
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr != v || r.Val == v {
					return false
				}
				n++
				if v != ssa.Value(a) {
					n++
				}
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.MakeClosure:
				for _, use := range *r.Referrers() {
					switch use := use.(type) {
					case *ssa.DebugRef:
					case *ssa.Call:
						local = local && use.Call.Value == ssa.Value(r) && noArg(&use.Call, r)
					case *ssa.Defer:
						local = local && use.Call.Value == ssa.Value(r) && noArg(&use.Call, r)
					default:
						local = false
					}
				}
				for k, b := range r.Bindings {
					if b == v && !reads(r.Fn.(*ssa.Function).FreeVars[k]) {
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	}
	return reads(a) && (n <= 1 || local)
}

func noArg(c *ssa.CallCommon, v ssa.Value) bool {
	for _, a := range c.Args {
		if a == v {
			return false
		}
	}
	return true
}

func isLocalRoot(v ssa.Value) bool {
	switch x := addrRoot(v).(type) {
	case *ssa.Alloc:
		_ = x
		return true
	case *ssa.MakeSlice, *ssa.MakeMap:
		return true
	}
	return false
}

// addrKey names the location an address points to, by field.
func addrKey(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		st := deref(x.X.Type())
		k, id, f := fieldKey(st, x.Field)
		if id {
			return typeKey(f.Type())
		}
		return k
	case *ssa.IndexAddr:
		return "elem:" + typeKey(deref(x.Type()))
	case *ssa.Convert:
		return addrKey(x.X)
	case *ssa.ChangeType:
		return addrKey(x.X)
	case *ssa.Global:
		return "global:" + x.Name()
	case *ssa.Alloc:
		return "local"
	case *ssa.FreeVar:
		return "freevar"
	case *ssa.UnOp:
		return "deref:" + typeKey(deref(x.Type()))
	}
	return "deref:" + typeKey(deref(v.Type()))
}

var listMutators = map[string]bool{
	"Init": true, "InsertBefore": true, "ReplaceNext": true, "MarkForDelete": true, "Delete": true,
	"Purge": true, "InitAsEmpty": true, "RepaireSliceAfterCopy": true, "Remove": true, "InsertAfter": true,
	"MoveAfter": true, "MoveBefore": true, "PushBack": true, "PushFront": true, "MoveToBack": true, "MoveToFront": true, "Insert": true,
}

func isListPkg(p *types.Package) bool {
	return p != nil && (strings.HasSuffix(p.Path(), "/elist_head") || strings.HasSuffix(p.Path(), "/lista_encabezado"))
}

func (e *Effects) scan(f *ssa.Function) {
	add := func(i ssa.Instruction, addr ssa.Value, key string) {
		r, d, local := classify(addr)
		e.direct[f] = append(e.direct[f], WriteSite{key, i, local, r, d})
	}
	e.sites[f] = map[*ssa.Function]ssa.Instruction{}
	call := func(c *ssa.Function, i ssa.Instruction, args, free []ssa.Value) {
		if c == nil || !e.P.inMod[c] {
			return
		}
		e.calls[f] = append(e.calls[f], callSite{c, i, args, free})
		if _, ok := e.sites[f][c]; !ok {
			e.sites[f][c] = i
			e.callees[f] = append(e.callees[f], c)
		}
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.Store:
				k := addrKey(x.Addr)
				// a whole-struct store writes every field
				e.storeKeys(x.Addr, x.Val.Type(), k, func(k string) { add(i, x.Addr, k) })
			case *ssa.MapUpdate:
				add(i, x.Map, "map:"+typeKey(x.Map.Type()))
			case *ssa.Send:
				add(i, x.Chan, "chan")
			case *ssa.MakeClosure:
				call(x.Fn.(*ssa.Function), i, nil, x.Bindings)
			}
			if ci, ok := i.(ssa.CallInstruction); ok {
				c := ci.Common()
				for _, a := range c.Args {
					if fn, ok := a.(*ssa.Function); ok {
						call(fn, i, nil, nil)
					}
				}
				if c.IsInvoke() {
					for _, m := range e.implementers(c.Method) {
						call(m, i, append([]ssa.Value{c.Value}, c.Args...), nil)
					}
					continue
				}
				switch v := c.Value.(type) {
				case *ssa.Builtin:
					switch v.Name() {
					case "copy":
						add(i, c.Args[0], "elem:"+typeKey(c.Args[0].Type().Underlying().(*types.Slice).Elem()))
					case "clear":
						if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
							add(i, c.Args[0], "map:"+typeKey(c.Args[0].Type()))
						} else {
							add(i, c.Args[0], "elem:"+typeKey(c.Args[0].Type().Underlying().(*types.Slice).Elem()))
						}
					case "delete":
						add(i, c.Args[0], "map:"+typeKey(c.Args[0].Type()))
					}
				default:
					sc := c.StaticCallee()
					if sc == nil {
						e.dyn[f]++
						continue
					}
					if e.P.inMod[sc] {
						var free []ssa.Value
						if mc, ok := v.(*ssa.MakeClosure); ok {
							free = mc.Bindings
						}
						call(sc, i, c.Args, free)
						continue
					}
					e.external(i, sc, c, add)
				}
			}
			// function values stored or returned
			for _, op := range i.Operands(nil) {
				if fn, ok := (*op).(*ssa.Function); ok {
					if ci, isCall := i.(ssa.CallInstruction); isCall && ci.Common().Value == fn {
						continue
					}
					call(fn, i, nil, nil)
				}
			}
		}
	}
}

func (e *Effects) storeKeys(addr ssa.Value, t types.Type, k string, add func(string)) {
	st, ok := t.Underlying().(*types.Struct)
	if !ok || isElist(t) || isLoncha(t) || typeIs(t, "sync", "Mutex") || typeIs(t, "atomic", "Value") {
		if ok && (isElist(t) || isLoncha(t)) {
			add("link")
			return
		}
		add(k)
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		fk, id, f := fieldKey(t, i)
		if id {
			fk = typeKey(f.Type())
		}
		e.storeKeys(addr, f.Type(), fk, add)
	}
}

func calleeName(fn *ssa.Function) (pkg, recv, name string) {
	o := fn.Object()
	if o == nil {
		if fn.Origin() != nil && fn.Origin() != fn {
			return calleeName(fn.Origin())
		}
		return "", "", fn.Name()
	}
	if o.Pkg() != nil {
		pkg = o.Pkg().Path()
	}
	if sig, ok := o.Type().(*types.Signature); ok && sig.Recv() != nil {
		if n := namedOf(sig.Recv().Type()); n != nil {
			recv = n.Obj().Name()
		}
	}
	return pkg, recv, o.Name()
}

func (e *Effects) external(i ssa.Instruction, fn *ssa.Function, c *ssa.CallCommon, add func(ssa.Instruction, ssa.Value, string)) {
	pkg, recv, name := calleeName(fn)
	switch {
	case pkg == "sync/atomic" && recv == "":
		if !strings.HasPrefix(name, "Load") && len(c.Args) > 0 {
			add(i, c.Args[0], addrKey(c.Args[0]))
		}
	case pkg == "sync/atomic":
		if name != "Load" && len(c.Args) > 0 {
			add(i, c.Args[0], addrKey(c.Args[0]))
		}
	case fn.Object() != nil && isListPkg(fn.Object().Pkg()):
		if listMutators[name] && len(c.Args) > 0 {
			for _, a := range c.Args {
				if isElist(a.Type()) || isLoncha(a.Type()) || typeKey(a.Type()) == "unsafe.Pointer" {
					add(i, a, "link")
				}
			}
		} else if (recv == "ModeTraverse" && (name == "Option" || strings.HasPrefix(name, "Set"))) || name == "SharedTrav" {
			add(i, i.(ssa.CallInstruction).Common().Value, "external:travmode")
		}
	case recv == "Mutex" || recv == "RWMutex":
		// lock state is no data
	}
}

// path returns the call path by which f may write key.
func (e *Effects) path(w map[*ssa.Function]map[wkey]prov, f *ssa.Function, key string) ([]string, *WriteSite) {
	for k, p := range w[f] {
		if k.key != key {
			continue
		}
		path := []string{fname(f)}
		for n := 0; n < 100; n++ {
			if p.site != nil {
				return path, p.site
			}
			path = append(path, fname(p.via)+" (called at "+e.P.instrPos(p.at)+")")
			p = w[p.via][p.viaKey]
		}
	}
	return nil, nil
}
