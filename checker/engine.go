package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Client parametrises the interpreter.
type Client struct {
	volatile  bool // every heap load yields a new value (other goroutines interfere)
	summaries bool // recursive functions are summarised by a fixpoint
	// interesting reports whether an instruction matters; functions that cannot reach
	// one are not entered. nil: everything matters.
	interesting func(x *Exec, i ssa.Instruction) bool
	onCall      func(x *Exec, s *State, c *Call) ([]*Outcome, bool)
	onStore     func(x *Exec, s *State, addr, v *Term, i ssa.Instruction, ctx *Ctx)
	onLock      func(x *Exec, s *State, kind string, mu *Term, c *Call) ([]*Outcome, bool)
	onDeref     func(x *Exec, s *State, p *Term, i ssa.Instruction, ctx *Ctx)
	onInstr     func(x *Exec, s *State, i ssa.Instruction, ctx *Ctx)
	redoLoops   bool // the body of a loop is interpreted anew from every wider state
	onBackEdge  func(x *Exec, s *State, ctx *Ctx, from, to *ssa.BasicBlock, phis map[*ssa.Phi]*Term)
	onEnterLoop func(x *Exec, s *State, ctx *Ctx, from, to *ssa.BasicBlock, phis map[*ssa.Phi]*Term)
	onLookup    func(x *Exec, s *State, m, key *Term, i *ssa.Lookup, found bool, v *Term)
	onRecursion func(x *Exec, s *State, c *Call) ([]*Outcome, bool)
	onPrune     func(x *Exec, s *State, c *Call, o *Outcome) // after an opaque module call
	onMapUpdate func(x *Exec, s *State, m, k, v *Term, i *ssa.MapUpdate, ctx *Ctx)
	onGo        func(x *Exec, s *State, c *Call)
	keepParts   func(v *Term) bool                // terms whose phis must not be merged
	keepRet     func(v *Term) bool                // results that keep exits of a function apart
	onBranch    func(x *Exec, s *State, ctx *Ctx) // after a branch condition became known
	onReturn    func(x *Exec, s *State, ctx *Ctx)
	steady      func(addr *Term) bool           // in volatile mode: cells nobody else changes
	constCell   func(x *Exec, addr *Term) *Term // in volatile mode: what a cell always holds
	maxDepth    int
	noInline    func(fn *ssa.Function) bool
}

type Ctx struct {
	id     int
	parent *Ctx
	site   ssa.Instruction
	fn     *ssa.Function
	depth  int
}

func (c *Ctx) chain() string {
	var p []string
	for k := c; k != nil; k = k.parent {
		p = append([]string{fname(k.fn)}, p...)
	}
	return strings.Join(p, " > ")
}

type Outcome struct {
	st   *State
	rets []*Term
}

type Call struct {
	instr  ssa.Instruction
	common *ssa.CallCommon
	fn     *ssa.Function // static or resolved callee
	method *types.Func   // interface method
	fterm  *Term
	args   []*Term // with receiver first for invokes and methods
	ctx    *Ctx    // of the caller
	sig    *types.Signature
	defer_ bool
}

type Exec struct {
	u    *Univ
	P    *Prog
	eff  *Effects
	cl   *Client
	ctxs map[string]*Ctx

	loaded map[*Term]*Term // in volatile mode: what a value was read from

	relevant map[*ssa.Function]bool
	live     map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool
	headers  map[*ssa.BasicBlock]bool
	bodies   map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	rpo      map[*ssa.BasicBlock]int
	pureMemo map[*ssa.Function]int
	scc      map[*ssa.Function]bool
	sums     map[string]*summary
	sumDirty bool

	incomplete []string
	steps      int
	maxSteps   int
	calls      int
	entered    map[*ssa.Function]bool
	visited    map[ssa.Instruction]bool
	opaque     map[string]int
	heapMemo   map[*ssa.Function]bool
	sumUsed    bool
	sumGrow    int
}

func newExec(P *Prog, eff *Effects, cl *Client) *Exec {
	x := &Exec{u: newUniv(P), P: P, eff: eff, cl: cl, ctxs: map[string]*Ctx{}, loaded: map[*Term]*Term{}, live: map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool{},
		headers: map[*ssa.BasicBlock]bool{}, rpo: map[*ssa.BasicBlock]int{}, pureMemo: map[*ssa.Function]int{}, sums: map[string]*summary{},
		entered: map[*ssa.Function]bool{}, visited: map[ssa.Instruction]bool{}, opaque: map[string]int{}, heapMemo: map[*ssa.Function]bool{}, maxSteps: 6000000}
	if cl.maxDepth == 0 {
		cl.maxDepth = 30
	}
	x.computeRelevant()
	x.computeSCC()
	return x
}

func (x *Exec) fail(msg string) {
	for _, m := range x.incomplete {
		if m == msg {
			return
		}
	}
	if len(x.incomplete) < 20 {
		x.incomplete = append(x.incomplete, msg)
	}
}

func smallPanicker(f *ssa.Function) bool {
	n, p := 0, false
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			n++
			if _, ok := i.(*ssa.Panic); ok {
				p = true
			}
		}
	}
	return p && n < 40
}

func (x *Exec) computeRelevant() {
	if x.cl.interesting == nil {
		return
	}
	x.relevant = map[*ssa.Function]bool{}
	for _, f := range x.P.fns {
		if smallPanicker(f) {
			x.relevant[f] = true
		}
	scan:
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if x.cl.interesting(x, i) {
					x.relevant[f] = true
					break scan
				}
			}
		}
	}
	direct := cp(x.relevant)
	for f := range direct {
		if smallPanicker(f) {
			// inlined, but does not make its callers relevant
			hit := false
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					if x.cl.interesting(x, i) {
						hit = true
					}
				}
			}
			if !hit {
				delete(direct, f)
			}
		}
	}
	trans := cp(direct)
	for ch := true; ch; {
		ch = false
		for _, f := range x.P.fns {
			if trans[f] {
				continue
			}
			for _, c := range x.eff.callees[f] {
				if trans[c] {
					trans[f] = true
					ch = true
					break
				}
			}
		}
	}
	for f := range trans {
		x.relevant[f] = true
	}
}

func (x *Exec) isRelevant(f *ssa.Function) bool { return x.relevant == nil || x.relevant[f] }

func (x *Exec) computeSCC() {
	// functions on a call cycle
	x.scc = map[*ssa.Function]bool{}
	idx := map[*ssa.Function]int{}
	low := map[*ssa.Function]int{}
	on := map[*ssa.Function]bool{}
	var st []*ssa.Function
	n := 0
	var dfs func(f *ssa.Function)
	dfs = func(f *ssa.Function) {
		n++
		idx[f], low[f] = n, n
		st = append(st, f)
		on[f] = true
		for _, c := range x.eff.callees[f] {
			if idx[c] == 0 {
				dfs(c)
				if low[c] < low[f] {
					low[f] = low[c]
				}
			} else if on[c] && idx[c] < low[f] {
				low[f] = idx[c]
			}
			if c == f {
				x.scc[f] = true
			}
		}
		if low[f] == idx[f] {
			var comp []*ssa.Function
			for {
				g := st[len(st)-1]
				st = st[:len(st)-1]
				on[g] = false
				comp = append(comp, g)
				if g == f {
					break
				}
			}
			if len(comp) > 1 {
				for _, g := range comp {
					x.scc[g] = true
				}
			}
		}
	}
	for _, f := range x.P.fns {
		if idx[f] == 0 {
			dfs(f)
		}
	}
}

// pure: no writes to memory, no locks, no unknown calls.
func (x *Exec) pure(f *ssa.Function) bool {
	if r, ok := x.pureMemo[f]; ok {
		return r == 1
	}
	r := 1
	seen := map[*ssa.Function]bool{}
	var walk func(g *ssa.Function)
	walk = func(g *ssa.Function) {
		if seen[g] || r == 0 {
			return
		}
		seen[g] = true
		if x.eff.dyn[g] > 0 {
			r = 0
			return
		}
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				switch i.(type) {
				case *ssa.Send, *ssa.Go, *ssa.Select:
					r = 0
					return
				}
				if ci, ok := i.(ssa.CallInstruction); ok {
					if k, _ := lockOp(ci.Common()); k != "" {
						r = 0
						return
					}
				}
			}
		}
		for _, c := range x.eff.callees[g] {
			walk(c)
		}
	}
	if len(x.eff.wset[f]) > 0 {
		r = 0
	}
	walk(f)
	x.pureMemo[f] = r
	return r == 1
}

func (x *Exec) ctx(parent *Ctx, site ssa.Instruction, fn *ssa.Function) *Ctx {
	pid, d := 0, 0
	if parent != nil {
		pid, d = parent.id, parent.depth+1
	}
	k := fmt.Sprintf("%d|%d|%d", pid, x.u.pid(site), x.u.pid(fn))
	if c, ok := x.ctxs[k]; ok {
		return c
	}
	c := &Ctx{id: len(x.ctxs) + 1, parent: parent, site: site, fn: fn, depth: d}
	x.ctxs[k] = c
	return c
}

func (x *Exec) newSym(s *State, i ssa.Instruction, ctx *Ctx, tag string, t types.Type, desc string) *Term {
	cid := 0
	if ctx != nil {
		cid = ctx.id
	}
	return x.u.birth(s, x.u.sym(fmt.Sprintf("%d:%d:%s", cid, x.u.pid(i), tag), t, desc))
}

// ---- function level

type fnInfo struct {
	fn *ssa.Function
}

func (x *Exec) liveness(f *ssa.Function) map[*ssa.BasicBlock]map[ssa.Value]bool {
	if l, ok := x.live[f]; ok {
		return l
	}
	in := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	isVal := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin:
			return false
		}
		return true
	}
	for _, b := range f.Blocks {
		in[b] = map[ssa.Value]bool{}
	}
	for ch := true; ch; {
		ch = false
		for bi := len(f.Blocks) - 1; bi >= 0; bi-- {
			b := f.Blocks[bi]
			cur := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range in[s] {
					if p, ok := v.(*ssa.Phi); ok && p.Block() == s {
						continue
					}
					cur[v] = true
				}
				for pi, p := range s.Preds {
					if p != b {
						continue
					}
					for _, i := range s.Instrs {
						ph, ok := i.(*ssa.Phi)
						if !ok {
							break
						}
						if isVal(ph.Edges[pi]) {
							cur[ph.Edges[pi]] = true
						}
					}
				}
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				i := b.Instrs[k]
				if ph, ok := i.(*ssa.Phi); ok {
					_ = ph
					continue // stays live at entry if used
				}
				if v, ok := i.(ssa.Value); ok {
					delete(cur, v)
				}
				for _, op := range i.Operands(nil) {
					if *op != nil && isVal(*op) {
						cur[*op] = true
					}
				}
			}
			for v := range cur {
				if !in[b][v] {
					in[b][v] = true
					ch = true
				}
			}
		}
	}
	x.live[f] = in
	// loop headers and RPO
	var order []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		order = append(order, b)
	}
	if len(f.Blocks) > 0 {
		dfs(f.Blocks[0])
	}
	for i, b := range order {
		x.rpo[b] = len(order) - i
	}
	for _, b := range f.Blocks {
		for _, p := range b.Preds {
			if seen[p] && x.rpo[p] >= x.rpo[b] {
				x.headers[b] = true
			}
		}
	}
	return in
}

func (x *Exec) isBackEdge(from, to *ssa.BasicBlock) bool {
	return x.headers[to] && x.rpo[from] >= x.rpo[to]
}

type frame struct {
	fn   *ssa.Function
	ctx  *Ctx
	live map[*ssa.BasicBlock]map[ssa.Value]bool
	in   map[*ssa.BasicBlock]map[string]*State
	work map[*ssa.BasicBlock]map[string]bool
	outs map[string]*State // exits by key
	keys []string
}

// run interprets fn from st (whose env is replaced) and returns its exits.
func (x *Exec) run(fn *ssa.Function, args, free []*Term, st *State, ctx *Ctx) []*Outcome {
	x.entered[fn] = true
	fr := &frame{fn: fn, ctx: ctx, live: x.liveness(fn), in: map[*ssa.BasicBlock]map[string]*State{},
		work: map[*ssa.BasicBlock]map[string]bool{}, outs: map[string]*State{}}
	st.frames = append(append([]map[ssa.Value]*Term(nil), st.frames...), st.env)
	st.dstack = append(append([][]deferRec(nil), st.dstack...), st.defers)
	st.env = map[ssa.Value]*Term{}
	st.defers = nil
	for i, p := range fn.Params {
		if i < len(args) {
			st.env[p] = args[i]
		} else {
			st.env[p] = x.newSym(st, fn.Blocks[0].Instrs[0], ctx, "missing"+p.Name(), p.Type(), p.Name())
		}
	}
	for i, v := range fn.FreeVars {
		if i < len(free) {
			st.env[v] = free[i]
		} else {
			st.env[v] = x.newSym(st, fn.Blocks[0].Instrs[0], ctx, "free"+v.Name(), v.Type(), v.Name())
		}
	}
	x.enqueue(fr, fn.Blocks[0], st)
	visits := 0
	for len(fr.work) > 0 {
		var b *ssa.BasicBlock
		for c := range fr.work {
			if b == nil || x.rpo[c] < x.rpo[b] {
				b = c
			}
		}
		var ks []string
		for k := range fr.work[b] {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		delete(fr.work, b)
		for _, k := range ks {
			visits++
			if visits > 60000 || x.steps > x.maxSteps || overdue(0) {
				x.fail("analysis bound exceeded in " + ctx.chain())
				fr.work = nil
				break
			}
			if st := fr.in[b][k]; st != nil {
				x.instrs(fr, b, 0, st.clone())
			}
		}
	}
	var res []*Outcome
	for _, k := range fr.keys {
		s := fr.outs[k]
		s = s.clone()
		s.env = s.frames[len(s.frames)-1]
		s.env = cp(s.env)
		s.frames = s.frames[:len(s.frames)-1]
		s.defers = s.dstack[len(s.dstack)-1]
		s.dstack = s.dstack[:len(s.dstack)-1]
		rets := s.rets
		s.rets = nil
		res = append(res, &Outcome{s, rets})
	}
	return res
}

func (x *Exec) enqueue(fr *frame, b *ssa.BasicBlock, st *State) {
	lv := fr.live[b]
	for v := range st.env {
		if !lv[v] {
			delete(st.env, v)
		}
	}
	key := x.pkey(fr, b, st)
	m := fr.in[b]
	if m == nil {
		m = map[string]*State{}
		fr.in[b] = m
	}
	old, ok := m[key]
	if !ok && len(m) >= 48 {
		// too many partitions: keep only what the client tracks
		key = "!" + st.tokKey() + "|" + st.defKey()
		old, ok = m[key]
		if len(m) > 1000 {
			x.fail("too many states in " + fr.ctx.chain())
			return
		}
	}
	if !ok {
		m[key] = st
	} else {
		if !x.join(old, st, fr.ctx, fmt.Sprintf("%s.%d", fname(fr.fn), b.Index)) {
			return
		}
		if x.cl.redoLoops && x.headers[b] {
			// the states inside the loop came from a narrower state: they are found anew
			for c := range x.loopBody(b) {
				delete(fr.in, c)
				delete(fr.work, c)
			}
			if fr.work[b] == nil {
				fr.work[b] = map[string]bool{}
			}
			for k := range m {
				fr.work[b][k] = true
			}
		}
	}
	if fr.work[b] == nil {
		fr.work[b] = map[string]bool{}
	}
	fr.work[b][key] = true
}

// loopBody: the blocks of the loop of a header, without the header; none if the loop has another entry.
func (x *Exec) loopBody(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	if m, ok := x.bodies[h]; ok {
		return m
	}
	m := map[*ssa.BasicBlock]bool{}
	var add func(b *ssa.BasicBlock)
	add = func(b *ssa.BasicBlock) {
		if b == h || m[b] {
			return
		}
		m[b] = true
		for _, p := range b.Preds {
			add(p)
		}
	}
	for _, p := range h.Preds {
		if x.isBackEdge(p, h) {
			add(p)
		}
	}
	for b := range m {
		if !h.Dominates(b) {
			m = nil
			break
		}
	}
	if x.bodies == nil {
		x.bodies = map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	}
	x.bodies[h] = m
	return m
}

func (x *Exec) pkey(fr *frame, b *ssa.BasicBlock, s *State) string {
	var r []string
	for v, t := range s.env {
		if p, ok := v.(*ssa.Phi); ok && p.Block() == b && x.headers[b] {
			if t.Op == OConst && t.Val.Kind() != constant.Bool {
				continue
			}
		}
		if isKeyConst(t) && !(isIntConst(t) && x.derivedInt(v)) {
			r = append(r, fmt.Sprintf("%s=%s", v.Name(), keyConst(t)))
		} else if x.cl.keepParts != nil && x.cl.keepParts(t) {
			r = append(r, fmt.Sprintf("%s=#%d", v.Name(), t.ID))
		} else {
			for k := range s.toks {
				if (k.a == t || k.b == t) && t.Op != OConst {
					r = append(r, fmt.Sprintf("%s=#%d", v.Name(), t.ID))
					break
				}
			}
		}
	}
	sort.Strings(r)
	return s.tokKey() + "|" + s.defKey() + "|" + s.cellKey() + "|" + strings.Join(r, ";")
}

func (x *Exec) derivedInt(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.BinOp, *ssa.UnOp, *ssa.Convert:
		return true
	}
	return false
}

func (x *Exec) exit(fr *frame, s *State) {
	for k, t := range s.rets {
		if k < fr.fn.Signature.Results().Len() {
			if b, ok := fr.fn.Signature.Results().At(k).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 && t.Op != OConst {
				switch x.u.eval(s, t) {
				case 1:
					s.rets[k] = x.u.True
				case -1:
					s.rets[k] = x.u.Fals
				}
			}
		}
	}
	if x.cl.onReturn != nil {
		x.cl.onReturn(x, s, fr.ctx)
	}
	var r []string
	for _, t := range s.rets {
		if isKeyConst(t) {
			r = append(r, keyConst(t))
		} else if t.Op == OAlloc {
			r = append(r, fmt.Sprintf("new%d", t.ID))
		} else {
			k := "_"
			if x.cl.keepRet != nil && x.cl.keepRet(t) {
				k = fmt.Sprintf("#%d", t.ID)
			}
			for q := range s.toks {
				if q.a == t || q.b == t {
					k = fmt.Sprintf("#%d", t.ID)
				}
			}
			r = append(r, k)
		}
	}
	key := s.tokKey() + "|" + strings.Join(r, ",") + "|" + s.cellKey()
	s.env = map[ssa.Value]*Term{}
	if o, ok := fr.outs[key]; ok {
		x.join(o, s, fr.ctx, fname(fr.fn)+".exit"+key)
		return
	}
	fr.outs[key] = s
	fr.keys = append(fr.keys, key)
}

func (x *Exec) val(s *State, ctx *Ctx, v ssa.Value) *Term {
	switch c := v.(type) {
	case *ssa.Const:
		if c.Value == nil {
			return x.u.zero(c.Type())
		}
		if c.Value.Kind() == constant.Float && isInteger(c.Type()) {
			return x.u.cst(constant.ToInt(c.Value))
		}
		return x.u.cst(c.Value)
	case *ssa.Function:
		return x.u.fn(c)
	case *ssa.Global:
		t := x.u.mk(OGlobal, c.Pkg.Pkg.Path()+"."+c.Name(), c.Type())
		t.Glob = c
		return t
	case *ssa.Builtin:
		return x.u.sym("builtin:"+c.Name(), c.Type(), c.Name())
	}
	if t, ok := s.env[v]; ok {
		return t
	}
	// dead or unreachable definitions
	return x.u.sym(fmt.Sprintf("undef:%d:%d", ctx.id, x.u.pid(v)), v.Type(), vname(v))
}

func (x *Exec) goTo(fr *frame, from, to *ssa.BasicBlock, s *State) {
	pi := -1
	for k, p := range to.Preds {
		if p == from {
			pi = k
			break
		}
	}
	phis := map[*ssa.Phi]*Term{}
	for _, i := range to.Instrs {
		p, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		phis[p] = x.val(s, fr.ctx, p.Edges[pi])
	}
	back := x.isBackEdge(from, to)
	if back && x.cl.onBackEdge != nil {
		x.cl.onBackEdge(x, s, fr.ctx, from, to, phis)
	}
	if !back && x.headers[to] && x.cl.onEnterLoop != nil {
		x.cl.onEnterLoop(x, s, fr.ctx, from, to, phis)
	}
	s.born = cp(s.born)
	for p, t := range phis {
		s.env[p] = t
	}
	if back {
		// merged symbols of the header that get a new value: rename the old one
		m := map[*Term]*Term{}
		pt := fmt.Sprintf("%s.%d", fname(fr.fn), to.Index)
		for v := range fr.live[to] {
			ps, ok := x.u.tab[fmt.Sprintf("%d|phi:%d:%s:%s", OSym, fr.ctx.id, pt, vname(v))]
			if !ok {
				continue
			}
			if s.env[v] != ps {
				m[ps] = nil
			}
		}
		for k, v := range s.mem {
			ps, ok := x.u.tab[fmt.Sprintf("%d|phi:%d:%s:mem%d", OSym, fr.ctx.id, pt, k.ID)]
			if ok && v != ps {
				m[ps] = nil
			}
		}
		for ps := range m {
			old := x.u.mk(OSym, "old:"+ps.Aux, ps.Typ)
			if old.Desc == "" {
				old.Desc = "earlier " + ps.Desc
			}
			m[ps] = old
			for f := range s.facts {
				if f.a.mentions(old.ID) || f.b != nil && f.b.mentions(old.ID) {
					delete(s.facts, f)
				}
			}
		}
		if len(m) > 0 {
			x.u.rename(s, m)
		}
	}
	x.enqueue(fr, to, s)
}

func (x *Exec) instrs(fr *frame, b *ssa.BasicBlock, k int, s *State) {
	for ; k < len(b.Instrs); k++ {
		i := b.Instrs[k]
		x.steps++
		if x.steps > x.maxSteps || overdue(x.steps) {
			x.fail("analysis bound exceeded in " + fr.ctx.chain())
			return
		}
		x.visited[i] = true
		if x.cl.onInstr != nil {
			x.cl.onInstr(x, s, i, fr.ctx)
		}
		switch t := i.(type) {
		case *ssa.Phi:
			continue
		case *ssa.If:
			c := x.val(s, fr.ctx, t.Cond)
			e := x.u.eval(s, c)
			pos := x.P.instrPos(t)
			if e >= 0 {
				n := s
				if e == 0 {
					n = s.clone()
				}
				if x.u.assume(n, c, true) {
					if e == 0 {
						n.note(pos + " true")
						if x.cl.onBranch != nil {
							x.cl.onBranch(x, n, fr.ctx)
						}
					}
					x.goTo(fr, b, b.Succs[0], n)
				}
			}
			if e <= 0 {
				if x.u.assume(s, c, false) {
					if e == 0 {
						s.note(pos + " false")
						if x.cl.onBranch != nil {
							x.cl.onBranch(x, s, fr.ctx)
						}
					}
					x.goTo(fr, b, b.Succs[1], s)
				}
			}
			return
		case *ssa.Jump:
			x.goTo(fr, b, b.Succs[0], s)
			return
		case *ssa.Return:
			s.rets = nil
			for _, r := range t.Results {
				s.rets = append(s.rets, x.val(s, fr.ctx, r))
			}
			x.exit(fr, s)
			return
		case *ssa.Panic:
			return
		}
		outs := x.instr(fr, s, i)
		if len(outs) == 0 {
			return
		}
		if len(outs) == 1 {
			s = outs[0]
			continue
		}
		for _, o := range outs {
			x.instrs(fr, b, k+1, o)
		}
		return
	}
}

func stripConv(v ssa.Value) ssa.Value {
	for {
		switch c := v.(type) {
		case *ssa.Convert:
			v = c.X
		case *ssa.ChangeType:
			v = c.X
		default:
			return v
		}
	}
}

// overdue: a check that cannot give its answer in time says so.
func overdue(steps int) bool {
	if steps&1023 == 0 && !late && time.Since(started) > 450*time.Second {
		late = true
	}
	return late
}

var (
	started = time.Now()
	late    bool
)

func order(op token.Token) bool {
	return op == token.LSS || op == token.LEQ || op == token.GTR || op == token.GEQ
}

// reinterpreted: an unsigned number of unknown size that is looked at as a signed one, whose order is another.
func (x *Exec) reinterpreted(a *Term, t types.Type) bool {
	info := func(t types.Type) (types.BasicInfo, int64) {
		if t == nil {
			return 0, 0
		}
		b, ok := t.Underlying().(*types.Basic)
		if !ok || b.Info()&types.IsInteger == 0 {
			return 0, 0
		}
		return b.Info(), x.P.sizes.Sizeof(b)
	}
	ti, ts := info(t)
	if ti == 0 || ti&types.IsUnsigned != 0 {
		return false
	}
	switch a.Op {
	case OLoad:
		if at := a.Args[0].Typ; at != nil {
			if p, ok := at.Underlying().(*types.Pointer); ok {
				if pi, _ := info(p.Elem()); pi != 0 {
					return pi&types.IsUnsigned != 0 && x.P.sizes.Sizeof(p.Elem()) >= ts
				}
			}
		}
	case OSym, OPCall, OFieldVal:
	default:
		return false
	}
	ai, as := info(a.Typ)
	return ai&types.IsUnsigned != 0 && as >= ts
}

func isPtrLike(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Signature, *types.Map, *types.Chan:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Interface:
		return true
	}
	return false
}

func (x *Exec) deref(s *State, p *Term, i ssa.Instruction, ctx *Ctx) {
	if x.cl.onDeref != nil {
		x.cl.onDeref(x, s, p, i, ctx)
	}
}

// instr interprets one instruction; usually one successor state.
func (x *Exec) instr(fr *frame, s *State, i ssa.Instruction) []*State {
	u := x.u
	ctx := fr.ctx
	val := func(v ssa.Value) *Term { return x.val(s, ctx, v) }
	one := func(t *Term) []*State {
		s.env[i.(ssa.Value)] = t
		return []*State{s}
	}
	switch t := i.(type) {
	case *ssa.DebugRef:
		return []*State{s}
	case *ssa.Alloc:
		a := u.mk(OAlloc, fmt.Sprintf("%d:%d", ctx.id, u.pid(i)), t.Type())
		if a.Desc == "" {
			a.Desc = t.Comment + " at " + x.P.instrPos(i)
		}
		if storedOnce(t) {
			u.once[a] = true
		}
		u.birth(s, a)
		for k := range s.mem {
			if rootOf(k) == a {
				delete(s.mem, k)
			}
		}
		s.fresh[a] = true
		return one(a)
	case *ssa.BinOp:
		if order(t.Op) && (x.reinterpreted(val(t.X), t.X.Type()) || x.reinterpreted(val(t.Y), t.Y.Type())) {
			return one(x.newSym(s, i, ctx, "order", types.Typ[types.Bool], "order of unsigned numbers taken as signed"))
		}
		return one(u.bin(t.Op, val(t.X), val(t.Y), binType(t)))
	case *ssa.UnOp:
		a := val(t.X)
		switch t.Op {
		case token.MUL:
			x.deref(s, a, i, ctx)
			return one(x.load(s, a, t.Type(), i, ctx))
		case token.NOT:
			return one(u.not(a))
		case token.ARROW:
			v := x.newSym(s, i, ctx, "recv", t.Type(), "received value")
			if t.CommaOk {
				ok := x.newSym(s, i, ctx, "recvok", types.Typ[types.Bool], "receive ok")
				return one(u.mk(OTuple, "", nil, v, ok))
			}
			return one(v)
		case token.SUB:
			if isIntConst(a) {
				return one(u.cst(u.wrap(constant.UnaryOp(token.SUB, a.Val, 0), t.Type())))
			}
		case token.XOR:
			if isIntConst(a) {
				return one(u.cst(u.wrap(constant.UnaryOp(token.XOR, a.Val, 0), t.Type())))
			}
		}
		return one(u.mk(OUn, t.Op.String(), t.Type(), a))
	case *ssa.ChangeType:
		return one(val(t.X))
	case *ssa.ChangeInterface:
		return one(val(t.X))
	case *ssa.MultiConvert:
		return one(val(t.X))
	case *ssa.SliceToArrayPointer:
		return one(u.slicePart(val(t.X), 0))
	case *ssa.Convert:
		return one(x.convert(s, val(t.X), t))
	case *ssa.MakeInterface:
		a := val(t.X)
		if isPtrLike(t.X.Type()) {
			if a.Op == ONil {
				return one(u.mk(OIface, typeKey(t.X.Type()), t.X.Type(), a))
			}
			if a.Typ == nil {
				a.Typ = t.X.Type()
			}
			return one(a)
		}
		if a.Op == OPCall && a.Aux == "unbox:"+typeKey(t.X.Type()) && len(a.Args) == 1 {
			return one(a.Args[0]) // boxing what was just unboxed
		}
		return one(u.mk(OIface, typeKey(t.X.Type()), t.X.Type(), a))
	case *ssa.TypeAssert:
		return x.typeAssert(fr, s, t)
	case *ssa.Extract:
		a := val(t.Tuple)
		if a.Op == OTuple && t.Index < len(a.Args) {
			return one(a.Args[t.Index])
		}
		return one(u.mk(OFieldVal, fmt.Sprintf("x%d", t.Index), t.Type(), a))
	case *ssa.Field:
		return one(u.fieldVal(val(t.X), t.X.Type(), t.Field))
	case *ssa.FieldAddr:
		a := val(t.X)
		x.deref(s, a, i, ctx)
		if a.Op == ONil || u.evalEq(s, a, u.Nil) == 1 {
			return nil // panics
		}
		f := u.field(a, deref(t.X.Type()), t.Field)
		return one(f)
	case *ssa.Index:
		return one(u.mk(OPCall, "index", t.Type(), val(t.X), val(t.Index)))
	case *ssa.IndexAddr:
		b := val(t.X)
		if _, ok := t.X.Type().Underlying().(*types.Slice); ok {
			b = u.slicePart(b, 0)
		} else {
			x.deref(s, b, i, ctx)
		}
		return one(u.elem(b, val(t.Index), t.Type()))
	case *ssa.Lookup:
		return x.lookup(fr, s, t)
	case *ssa.MakeChan, *ssa.MakeMap:
		a := u.mk(OAlloc, fmt.Sprintf("%d:%d", ctx.id, u.pid(i)), i.(ssa.Value).Type())
		if a.Desc == "" {
			a.Desc = "at " + x.P.instrPos(i)
		}
		u.birth(s, a)
		s.fresh[a] = true
		return one(a)
	case *ssa.MakeSlice:
		a := u.mk(OAlloc, fmt.Sprintf("%d:%d", ctx.id, u.pid(i)), types.NewPointer(t.Type().Underlying().(*types.Slice).Elem()))
		if a.Desc == "" {
			a.Desc = "slice at " + x.P.instrPos(i)
		}
		u.birth(s, a)
		for k := range s.mem {
			if rootOf(k) == a {
				delete(s.mem, k)
			}
		}
		s.fresh[a] = true
		return one(u.mk(OStruct, "slice", t.Type(), a, val(t.Len), val(t.Cap)))
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range t.Bindings {
			bs = append(bs, val(b))
		}
		f := t.Fn.(*ssa.Function)
		c := u.mk(OClosure, fmt.Sprint(u.pid(f)), t.Type(), bs...)
		c.Fn = f
		return one(c)
	case *ssa.Range:
		return one(u.mk(OPCall, "range", nil, val(t.X)))
	case *ssa.Next:
		return one(u.mk(OTuple, "", nil,
			x.newSym(s, i, ctx, "ok", types.Typ[types.Bool], "range has next"),
			x.newSym(s, i, ctx, "k", t.Type().(*types.Tuple).At(1).Type(), "range key"),
			x.newSym(s, i, ctx, "v", t.Type().(*types.Tuple).At(2).Type(), "range value")))
	case *ssa.Select:
		var as []*Term
		tp := t.Type().(*types.Tuple)
		for k := 0; k < tp.Len(); k++ {
			as = append(as, x.newSym(s, i, ctx, fmt.Sprintf("sel%d", k), tp.At(k).Type(), "select"))
		}
		for _, sc := range t.States {
			if sc.Send != nil {
				x.escapeVal(s, val(sc.Send), i, ctx)
			}
		}
		return one(u.mk(OTuple, "", nil, as...))
	case *ssa.Slice:
		return one(x.slice(s, t, val))
	case *ssa.MapUpdate:
		if x.cl.onMapUpdate != nil {
			x.cl.onMapUpdate(x, s, val(t.Map), val(t.Key), val(t.Value), t, ctx)
		}
		x.escape(s, val(t.Value))
		k := u.mk(OPCall, "mapcell", nil, val(t.Map), val(t.Key))
		s.mem[k] = val(t.Value)
		return []*State{s}
	case *ssa.Store:
		a := val(t.Addr)
		x.deref(s, a, i, ctx)
		x.store(s, a, val(t.Val), t.Val.Type(), i, ctx)
		return []*State{s}
	case *ssa.Send:
		x.escapeVal(s, val(t.X), i, ctx)
		return []*State{s}
	case *ssa.Go:
		c := x.mkCall(s, ctx, i, &t.Call)
		if x.cl.onGo != nil {
			x.cl.onGo(x, s, c)
		}
		for _, a := range c.args {
			x.escapeVal(s, a, i, ctx)
		}
		if c.fterm != nil {
			x.escapeVal(s, c.fterm, i, ctx)
		}
		return []*State{s}
	case *ssa.Defer:
		c := x.mkCall(s, ctx, i, &t.Call)
		s.defers = append(s.defers, deferRec{t, c.fterm, c.args, &t.Call})
		if len(s.defers) > 16 {
			x.fail("defer in a loop in " + ctx.chain())
			return nil
		}
		return []*State{s}
	case *ssa.RunDefers:
		sts := []*State{s}
		for n := len(s.defers) - 1; n >= 0; n-- {
			var next []*State
			for _, st := range sts {
				if len(st.defers) == 0 {
					next = append(next, st)
					continue
				}
				d := st.defers[len(st.defers)-1]
				st.defers = append([]deferRec(nil), st.defers[:len(st.defers)-1]...)
				c := x.callOf(ctx, d.instr, d.call, d.fn, d.args)
				c.defer_ = true
				for _, o := range x.call(st, c) {
					next = append(next, o.st)
				}
			}
			sts = next
		}
		return sts
	case *ssa.Call:
		c := x.mkCall(s, ctx, i, &t.Call)
		outs := x.call(s, c)
		var sts []*State
		for _, o := range outs {
			o.st.env[t] = x.tuple(o.rets, c.sig)
			sts = append(sts, o.st)
		}
		return sts
	}
	x.fail(fmt.Sprintf("unhandled instruction %T in %s", i, fname(fr.fn)))
	if v, ok := i.(ssa.Value); ok {
		return one(x.newSym(s, i, ctx, "?", v.Type(), "?"))
	}
	return []*State{s}
}

func binType(t *ssa.BinOp) types.Type {
	switch t.Op {
	case token.EQL, token.NEQ, token.LSS, token.GTR, token.LEQ, token.GEQ:
		return t.X.Type()
	}
	return t.Type()
}

func (x *Exec) tuple(rets []*Term, sig *types.Signature) *Term {
	if len(rets) == 1 {
		return rets[0]
	}
	return x.u.mk(OTuple, "", nil, rets...)
}

// escapeVal: a value leaves to unknown code; cells bound by closures may change.
func (x *Exec) escapeVal(s *State, v *Term, i ssa.Instruction, ctx *Ctx) {
	x.escape(s, v)
	if v.Op == OClosure || v.Op == OStruct {
		for bi, b := range v.Args {
			if b.Op == OAlloc && v.Op == OClosure && !closureWrites(v.Fn, bi) {
				continue
			}
			if b.Op == OAlloc && v.Op == OClosure {
				var typ types.Type
				if b.Typ != nil {
					typ = deref(b.Typ)
				}
				delete(s.mem, b)
				s.mem[b] = x.newSym(s, i, ctx, fmt.Sprintf("esc%d", b.ID), typ, "shared "+b.Desc)
			} else {
				x.escapeVal(s, b, i, ctx)
			}
		}
	}
}

func (x *Exec) convert(s *State, a *Term, t *ssa.Convert) *Term {
	from, to := t.X.Type().Underlying(), t.Type().Underlying()
	fb, fok := from.(*types.Basic)
	tb, tok := to.(*types.Basic)
	if fok && tok && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
		if isIntConst(a) {
			return x.u.cst(x.u.wrap(a.Val, t.Type()))
		}
		if x.P.sizes.Sizeof(fb) == x.P.sizes.Sizeof(tb) {
			return a
		}
		aux := typeKey(tb)
		if x.P.sizes.Sizeof(fb) < x.P.sizes.Sizeof(tb) && fb.Info()&types.IsUnsigned != 0 {
			aux += " of unsigned"
		}
		return x.u.mk(OConv, aux, t.Type(), a)
	}
	if fok && tok && (fb.Info()&types.IsString != 0 || tb.Info()&types.IsString != 0) {
		return x.u.mk(OConv, typeKey(t.Type()), t.Type(), a)
	}
	if (fok && fb.Info()&types.IsString != 0) || (tok && tb.Info()&types.IsString != 0) {
		return x.u.mk(OConv, typeKey(t.Type()), t.Type(), a)
	}
	if fok && tok && (fb.Info()&types.IsFloat != 0 || tb.Info()&types.IsFloat != 0) {
		return x.u.mk(OConv, typeKey(t.Type()), t.Type(), a)
	}
	// pointer conversions keep the address
	if tb != nil && tb.Kind() == types.UnsafePointer {
		// uintptr -> pointer: base - constant is container arithmetic
		if a.Op == OBin && a.Aux == "+" && isIntConst(a.Args[1]) {
			if n, ok := isInt(a.Args[1]); ok && n < 0 {
				return x.u.container(a.Args[0], x.u.int(-n))
			}
			// wrapped negative uintptr
			neg := x.u.wrap(constant.UnaryOp(token.SUB, a.Args[1].Val, 0), types.Typ[types.Uintptr])
			if n, ok := constant.Int64Val(neg); ok && n < 1<<20 {
				return x.u.container(a.Args[0], x.u.int(n))
			}
		}
		if a.Op == OBin && a.Aux == "-" {
			return x.u.container(a.Args[0], a.Args[1])
		}
	}
	if fok && fb.Kind() == types.UnsafePointer {
		if p, ok := t.Type().Underlying().(*types.Pointer); ok && a.Typ == nil {
			_ = p
			a.Typ = t.Type()
		}
	}
	return a
}

func (x *Exec) slice(s *State, t *ssa.Slice, val func(ssa.Value) *Term) *Term {
	u := x.u
	a := val(t.X)
	lo := u.int(0)
	if t.Low != nil {
		lo = val(t.Low)
	}
	var data, l, c *Term
	switch tt := t.X.Type().Underlying().(type) {
	case *types.Slice:
		data, l, c = u.slicePart(a, 0), u.slicePart(a, 1), u.slicePart(a, 2)
	case *types.Pointer:
		n := u.int(tt.Elem().Underlying().(*types.Array).Len())
		data, l, c = a, n, n
	default: // string
		h := u.Nil
		if t.High != nil {
			h = val(t.High)
		}
		return u.mk(OPCall, "substr", t.Type(), a, lo, h)
	}
	hi := l
	if t.High != nil {
		hi = val(t.High)
	}
	mx := c
	if t.Max != nil {
		mx = val(t.Max)
	}
	it := types.Typ[types.Int]
	var et types.Type
	if st, ok := t.Type().Underlying().(*types.Slice); ok {
		et = types.NewPointer(st.Elem())
	}
	return u.mk(OStruct, "slice", t.Type(), u.elem(data, lo, et), u.bin(token.SUB, hi, lo, it), u.bin(token.SUB, mx, lo, it))
}

func (x *Exec) lookup(fr *frame, s *State, t *ssa.Lookup) []*State {
	u := x.u
	m, k := x.val(s, fr.ctx, t.X), x.val(s, fr.ctx, t.Index)
	if _, ok := t.X.Type().Underlying().(*types.Map); !ok {
		s.env[t] = u.mk(OPCall, "strindex", t.Type(), m, k)
		return []*State{s}
	}
	vt := t.X.Type().Underlying().(*types.Map).Elem()
	cell := u.mk(OPCall, "mapcell", nil, m, k)
	v, known := s.mem[cell]
	if !known {
		v = u.mk(OPCall, "mapget", vt, m, k)
	}
	okc := u.mk(OPCall, "maphas", types.Typ[types.Bool], m, k)
	var res []*State
	if m.Op != ONil {
		f := s.clone()
		if u.assume(f, okc, true) {
			if x.cl.onLookup != nil {
				x.cl.onLookup(x, f, m, k, t, true, v)
			}
			if t.CommaOk {
				f.env[t] = u.mk(OTuple, "", nil, v, u.True)
			} else {
				f.env[t] = v
			}
			f.note(x.P.instrPos(t) + " found")
			res = append(res, f)
		}
	}
	if !known && u.assume(s, okc, false) {
		z := u.zero(vt)
		if x.cl.onLookup != nil {
			x.cl.onLookup(x, s, m, k, t, false, z)
		}
		if t.CommaOk {
			s.env[t] = u.mk(OTuple, "", nil, z, u.Fals)
		} else {
			s.env[t] = z
		}
		s.note(x.P.instrPos(t) + " missing")
		res = append(res, s)
	}
	return res
}

func (x *Exec) typeAssert(fr *frame, s *State, t *ssa.TypeAssert) []*State {
	u := x.u
	a := x.val(s, fr.ctx, t.X)
	conv := func(a *Term) *Term {
		if a.Op == OIface {
			if _, isI := t.AssertedType.Underlying().(*types.Interface); !isI {
				return a.Args[0]
			}
		}
		if _, isI := t.AssertedType.Underlying().(*types.Interface); !isI && !isPtrLike(t.AssertedType) {
			return u.mk(OPCall, "unbox:"+typeKey(t.AssertedType), t.AssertedType, a)
		}
		return a
	}
	dyn := 0 // does the assertion hold?
	if _, isI := t.AssertedType.Underlying().(*types.Interface); !isI {
		if a.Op == OIface {
			if a.Aux == typeKey(t.AssertedType) {
				dyn = 1
			} else {
				dyn = -1
			}
		} else if a.Op == OAlloc && a.Typ != nil && isPtrLike(t.AssertedType) {
			if types.Identical(a.Typ, t.AssertedType) {
				dyn = 1
			} else {
				dyn = -1
			}
		} else if a.Op == OConst {
			dyn = -1
		}
	}
	if a.Op == ONil {
		dyn = -1
	}
	if !t.CommaOk {
		if dyn == -1 {
			if x.cl.onDeref != nil && a.Op == ONil {
				x.cl.onDeref(x, s, a, t, fr.ctx)
			}
			return nil // panics
		}
		s.env[t] = conv(a)
		return []*State{s}
	}
	var res []*State
	cond := u.mk(OPCall, "istype:"+typeKey(t.AssertedType), types.Typ[types.Bool], a)
	if dyn >= 0 {
		f := s
		if dyn == 0 {
			f = s.clone()
		}
		if u.assume(f, cond, true) && u.assume(f, u.bin(token.EQL, a, u.Nil, nil), false) || a.Op == OIface {
			f.env[t] = u.mk(OTuple, "", nil, conv(a), u.True)
			f.note(x.P.instrPos(t) + " is " + typeKey(t.AssertedType))
			res = append(res, f)
			// asserting to a pointer type may still give a nil pointer
			if isPtrLike(t.AssertedType) {
				if _, isI := t.AssertedType.Underlying().(*types.Interface); !isI && a.Op != OIface {
					f.env[t] = u.mk(OTuple, "", nil, u.mk(OPCall, "ptr", t.AssertedType, a), u.True)
					if a.Op == OAlloc || a.Op == OField || !x.maybeTypedNil(a) {
						f.env[t] = u.mk(OTuple, "", nil, a, u.True)
					}
				}
			}
		}
	}
	if dyn <= 0 {
		if u.assume(s, cond, false) && (!x.alwaysImplements(t.X.Type(), t.AssertedType) || u.assume(s, u.bin(token.EQL, a, u.Nil, nil), true)) {
			s.env[t] = u.mk(OTuple, "", nil, u.zero(t.AssertedType), u.Fals)
			s.note(x.P.instrPos(t) + " is not " + typeKey(t.AssertedType))
			res = append(res, s)
		}
	}
	return res
}

// alwaysImplements: every type of the module that implements the (module's own) interface from implements the interface to.
func (x *Exec) alwaysImplements(from, to types.Type) bool {
	n, ok := from.(*types.Named)
	a, ok1 := from.Underlying().(*types.Interface)
	b, ok2 := to.Underlying().(*types.Interface)
	if !ok || !ok1 || !ok2 || a.NumMethods() == 0 || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), x.P.mod) {
		return false
	}
	found := false
	for _, p := range x.P.ssapkgs {
		for _, m := range p.Members {
			mt, ok := m.(*ssa.Type)
			if !ok || types.IsInterface(mt.Type()) {
				continue
			}
			if p := types.NewPointer(mt.Type()); types.Implements(p, a) {
				found = true
				if !types.Implements(p, b) {
					return false
				}
			}
		}
	}
	return found
}

// maybeTypedNil: values read from an atomic.Value can be typed nil pointers.
func (x *Exec) maybeTypedNil(a *Term) bool {
	return a.Op == OLoad || a.Op == OPCall && a.Aux == "mapget"
}

// closureWrites reports whether a closure may change the cell of its i-th binding.
func closureWrites(f *ssa.Function, i int) bool {
	if f == nil || i >= len(f.FreeVars) {
		return true
	}
	for _, r := range *f.FreeVars[i].Referrers() {
		switch t := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef, *ssa.FieldAddr, *ssa.IndexAddr:
			_ = t
		case *ssa.MakeClosure:
			for k, b := range t.Bindings {
				if b == f.FreeVars[i] && closureWrites(t.Fn.(*ssa.Function), k) {
					return true
				}
			}
		default:
			return true
		}
	}
	return false
}
