package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Terms are hash-consed symbolic values. Equal pointers mean equal values.
type Op uint8

const (
	OConst Op = iota
	ONil
	OSym
	OAlloc
	OGlobal
	OFunc
	OClosure
	OField
	OElem
	OLoad
	OBin
	OUn
	OConv
	ORev
	OPCall
	OStruct
	OIface
	OTuple
	OContainer
	OPtrAdd
	OFieldVal
)

type Term struct {
	ID   int
	Op   Op
	Aux  string
	Args []*Term
	Val  constant.Value
	Fn   *ssa.Function
	Glob *ssa.Global
	Typ  types.Type // static type of the first construction, informative
	Desc string     // where a symbol comes from
	syms []int      // ids of all symbols/allocs below, sorted
}

type Univ struct {
	P    *Prog
	tab  map[string]*Term
	all  []*Term
	Nil  *Term
	True *Term
	Fals *Term
	ptrs map[any]int
	once map[*Term]bool // variables that nobody else changes, see storedOnce
}

func newUniv(P *Prog) *Univ {
	u := &Univ{P: P, tab: map[string]*Term{}, ptrs: map[any]int{}, once: map[*Term]bool{}}
	u.Nil = u.mk(ONil, "", nil)
	u.True = u.cst(constant.MakeBool(true))
	u.Fals = u.cst(constant.MakeBool(false))
	return u
}

func (u *Univ) pid(x any) int {
	if i, ok := u.ptrs[x]; ok {
		return i
	}
	i := len(u.ptrs) + 1
	u.ptrs[x] = i
	return i
}

func (u *Univ) mk(op Op, aux string, typ types.Type, args ...*Term) *Term {
	var b strings.Builder
	fmt.Fprintf(&b, "%d|%s", op, aux)
	for _, a := range args {
		fmt.Fprintf(&b, "|%d", a.ID)
	}
	k := b.String()
	if t, ok := u.tab[k]; ok {
		return t
	}
	t := &Term{ID: len(u.all) + 1, Op: op, Aux: aux, Args: append([]*Term(nil), args...), Typ: typ}
	set := map[int]bool{}
	for _, a := range args {
		for _, s := range a.syms {
			set[s] = true
		}
	}
	if op == OSym || op == OAlloc {
		set[t.ID] = true
	}
	for s := range set {
		t.syms = append(t.syms, s)
	}
	sort.Ints(t.syms)
	u.tab[k] = t
	u.all = append(u.all, t)
	return t
}

func (t *Term) mentions(id int) bool {
	i := sort.SearchInts(t.syms, id)
	return i < len(t.syms) && t.syms[i] == id
}

func (u *Univ) cst(v constant.Value) *Term {
	t := u.mk(OConst, v.ExactString()+fmt.Sprint(v.Kind()), nil)
	t.Val = v
	return t
}

func (u *Univ) int(i int64) *Term { return u.cst(constant.MakeInt64(i)) }

func (u *Univ) boolT(b bool) *Term {
	if b {
		return u.True
	}
	return u.Fals
}

func (u *Univ) sym(key string, typ types.Type, desc string) *Term {
	t := u.mk(OSym, key, typ)
	if t.Desc == "" {
		t.Desc = desc
	}
	return t
}

func (u *Univ) fn(f *ssa.Function) *Term {
	t := u.mk(OFunc, fmt.Sprint(u.pid(f)), f.Signature)
	t.Fn = f
	return t
}

func isInt(t *Term) (int64, bool) {
	if t.Op == OConst && t.Val.Kind() == constant.Int {
		return constant.Int64Val(t.Val)
	}
	return 0, false
}

func isIntConst(t *Term) bool { return t.Op == OConst && t.Val.Kind() == constant.Int }

func (t *Term) isTrue() bool {
	return t.Op == OConst && t.Val.Kind() == constant.Bool && constant.BoolVal(t.Val)
}
func (t *Term) isFalse() bool {
	return t.Op == OConst && t.Val.Kind() == constant.Bool && !constant.BoolVal(t.Val)
}

// ---- types

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func namedOf(t types.Type) *types.Named {
	if t == nil {
		return nil
	}
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	n, _ := t.(*types.Named)
	return n
}

func typeIs(t types.Type, pkgSuffix, name string) bool {
	n := namedOf(t)
	if n == nil || n.Obj().Name() != name {
		return false
	}
	p := n.Obj().Pkg()
	if p == nil {
		return pkgSuffix == ""
	}
	return p.Path() == pkgSuffix || strings.HasSuffix(p.Path(), "/"+pkgSuffix)
}

func isElist(t types.Type) bool   { return typeIs(t, "elist_head", "ListHead") }
func isLoncha(t types.Type) bool  { return typeIs(t, "lista_encabezado", "ListHead") }
func isMapHead(t types.Type) bool { return typeIs(t, "skiplistmap", "MapHead") }
func isSampleT(t types.Type) bool { return typeIs(t, "skiplistmap", "SampleItem") }
func isEntryLike(t types.Type) bool {
	if isElist(t) || isMapHead(t) {
		return true
	}
	n := namedOf(t)
	if n == nil {
		return false
	}
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Embedded() && isMapHead(s.Field(i).Type()) {
			return true
		}
	}
	return false
}

// isSliceMirror: struct{unsafe.Pointer; int[; int]}, possibly through one embedded struct
func isSliceMirror(s *types.Struct) bool {
	if s.NumFields() != 3 && s.NumFields() != 2 {
		return false
	}
	isB := func(i int, k types.BasicKind) bool {
		b, ok := s.Field(i).Type().Underlying().(*types.Basic)
		return ok && b.Kind() == k
	}
	return isB(0, types.UnsafePointer) && isB(1, types.Int) && (s.NumFields() == 2 || isB(2, types.Int))
}

// fieldKey names a field independent of the access path. identity is true for
// embedded entry heads, whose address stands for the entry itself.
func fieldKey(st types.Type, idx int) (key string, identity bool, f *types.Var) {
	s := st.Underlying().(*types.Struct)
	f = s.Field(idx)
	if f.Embedded() && (isMapHead(f.Type()) || isElist(f.Type())) {
		if _, isPtr := f.Type().(*types.Pointer); !isPtr {
			return "", true, f
		}
	}
	if isSliceMirror(s) {
		return [...]string{"slice.data", "slice.len", "slice.cap"}[idx], false, f
	}
	if ss, ok := f.Type().Underlying().(*types.Struct); ok && f.Embedded() && isSliceMirror(ss) && s.NumFields() == 1 {
		return "", true, f
	}
	if n := namedOf(st); n != nil {
		return n.Obj().Name() + "." + f.Name(), false, f
	}
	return "struct." + f.Name(), false, f
}

func typeKey(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// ---- constructors with simplification

func (u *Univ) field(base *Term, st types.Type, idx int) *Term {
	key, id, f := fieldKey(st, idx)
	if id {
		return base
	}
	if base.Op == OContainer && u.P != nil {
		// &container(x, off).f == x if f is at off
		if off, ok := isInt(base.Args[1]); ok {
			if s, ok := st.Underlying().(*types.Struct); ok && off == u.offset(s, idx) {
				return base.Args[0]
			}
		}
	}
	t := u.mk(OField, key, types.NewPointer(f.Type()), base)
	return t
}

func (u *Univ) offset(s *types.Struct, idx int) int64 {
	var fs []*types.Var
	for i := 0; i < s.NumFields(); i++ {
		fs = append(fs, s.Field(i))
	}
	return u.P.sizes.Offsetsof(fs)[idx]
}

func (u *Univ) elem(base, i *Term, typ types.Type) *Term {
	if n, ok := isInt(i); ok && n == 0 {
		return base
	}
	if base.Op == OElem {
		return u.mk(OElem, "", typ, base.Args[0], u.bin(token.ADD, base.Args[1], i, types.Typ[types.Int]))
	}
	return u.mk(OElem, "", typ, base, i)
}

// container: address arithmetic head - off
func (u *Univ) container(x, off *Term) *Term {
	if x.Typ != nil && (isEntryLike(x.Typ) || typeIs(x.Typ, "skiplistmap", "HMapEntry") || typeIs(x.Typ, "skiplistmap", "MapItem")) {
		return x
	}
	if n, ok := isInt(off); ok {
		if n == 0 {
			return x
		}
		if x.Op == OField {
			if n2 := namedOf(x.Args[0].Typ); n2 != nil {
				if s, ok := n2.Underlying().(*types.Struct); ok {
					for i := 0; i < s.NumFields(); i++ {
						if k, id, _ := fieldKey(n2, i); !id && k == x.Aux && u.offset(s, i) == n {
							return x.Args[0]
						}
					}
				}
			}
			// the base type may be unknown: trust the key's type name
			if st := u.typeOfKey(x.Aux); st != nil {
				s := st.Underlying().(*types.Struct)
				for i := 0; i < s.NumFields(); i++ {
					if k, id, _ := fieldKey(st, i); !id && k == x.Aux && u.offset(s, i) == n {
						return x.Args[0]
					}
				}
			}
		}
	}
	return u.mk(OContainer, "", nil, x, off)
}

func (u *Univ) typeOfKey(key string) types.Type {
	name := key
	if i := strings.Index(key, "."); i >= 0 {
		name = key[:i]
	}
	for _, p := range u.P.ssapkgs {
		if t := p.Type(name); t != nil {
			if _, ok := t.Type().Underlying().(*types.Struct); ok {
				return t.Type()
			}
		}
	}
	return nil
}

func (u *Univ) rev(x *Term) *Term {
	if x.Op == ORev {
		return x.Args[0]
	}
	if n, ok := constant.Uint64Val(constOf(x)); ok && isIntConst(x) {
		var r uint64
		for i := 0; i < 64; i++ {
			r |= (n >> i & 1) << (63 - i)
		}
		return u.cst(constant.MakeUint64(r))
	}
	return u.mk(ORev, "", types.Typ[types.Uint64], x)
}

func constOf(x *Term) constant.Value {
	if x.Op == OConst && x.Val.Kind() == constant.Int {
		return x.Val
	}
	return constant.MakeInt64(-1)
}

func (u *Univ) not(t *Term) *Term {
	if t.isTrue() {
		return u.Fals
	}
	if t.isFalse() {
		return u.True
	}
	if t.Op == OUn && t.Aux == "!" {
		return t.Args[0]
	}
	return u.mk(OUn, "!", types.Typ[types.Bool], t)
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (u *Univ) wrap(v constant.Value, t types.Type) constant.Value {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || v.Kind() != constant.Int {
		return v
	}
	bits := uint(u.P.sizes.Sizeof(b) * 8)
	if b.Info()&types.IsUntyped != 0 {
		return v
	}
	mod := constant.Shift(constant.MakeInt64(1), token.SHL, bits)
	// v mod 2^bits, non-negative
	q := constant.BinaryOp(v, token.AND, constant.BinaryOp(mod, token.SUB, constant.MakeInt64(1)))
	if b.Info()&types.IsUnsigned == 0 {
		half := constant.Shift(constant.MakeInt64(1), token.SHL, bits-1)
		if constant.Compare(q, token.GEQ, half) {
			q = constant.BinaryOp(q, token.SUB, mod)
		}
	}
	return q
}

func (u *Univ) distinct(a, b *Term) bool {
	addr := func(t *Term) bool {
		switch t.Op {
		case OAlloc, OGlobal, OFunc, OClosure, OStruct, OIface:
			return true
		case OField:
			return true
		case OElem:
			return true
		}
		return false
	}
	if a == b {
		return false
	}
	if a.Op == OConst && b.Op == OConst {
		return true
	}
	if a.Op == ONil {
		a, b = b, a
	}
	if b.Op == ONil {
		if a.Op == OStruct && a.Aux == "slice" {
			return false
		}
		return addr(a) || a.Op == OConst
	}
	root := func(t *Term) *Term {
		for t.Op == OField || t.Op == OElem {
			t = t.Args[0]
		}
		return t
	}
	if a.Op == OGlobal && b.Op == OGlobal || a.Op == OAlloc && b.Op == OAlloc {
		return true
	}
	ra, rb := root(a), root(b)
	if (ra.Op == OAlloc || ra.Op == OGlobal) && (rb.Op == OAlloc || rb.Op == OGlobal) && ra != rb {
		return true
	}
	return false
}

// bin builds binary operations. Comparisons are normalised to "==" and "<".
func (u *Univ) bin(op token.Token, a, b *Term, t types.Type) *Term {
	switch op {
	case token.NEQ:
		return u.not(u.bin(token.EQL, a, b, t))
	case token.GTR:
		return u.bin(token.LSS, b, a, t)
	case token.LEQ:
		return u.not(u.bin(token.LSS, b, a, t))
	case token.GEQ:
		return u.not(u.bin(token.LSS, a, b, t))
	case token.EQL:
		if a == b {
			return u.True
		}
		if u.distinct(a, b) {
			return u.Fals
		}
		if a.Op == OStruct && a.Aux == "slice" && b.Op == ONil {
			return u.bin(token.EQL, a.Args[0], u.Nil, t)
		}
		if b.Op == OStruct && b.Aux == "slice" && a.Op == ONil {
			return u.bin(token.EQL, b.Args[0], u.Nil, t)
		}
		for i := 0; i < 2; i++ {
			if a.isTrue() {
				return b
			}
			if a.isFalse() {
				return u.not(b)
			}
			a, b = b, a
		}
		// rev(x) == rev(y)
		if a.Op == ORev && b.Op == ORev {
			return u.bin(token.EQL, a.Args[0], b.Args[0], t)
		}
		if a.Op == ORev && b.Op == OConst {
			return u.bin(token.EQL, a.Args[0], u.rev(b), t)
		}
		if b.Op == ORev && a.Op == OConst {
			return u.bin(token.EQL, b.Args[0], u.rev(a), t)
		}
		// canonical form for equalities with one reversed side: keep rev at the
		// side of the smaller base term so that h == rev(r) and rev(h) == r agree
		if a.Op == ORev && b.Op != ORev && b.ID < a.Args[0].ID {
			a, b = u.rev(b), a.Args[0]
		} else if b.Op == ORev && a.Op != ORev && a.ID < b.Args[0].ID {
			a, b = b.Args[0], u.rev(a)
		}
		// (x ^ y) == 0, (x - y) == 0
		if n, ok := isInt(b); ok && n == 0 && a.Op == OBin && (a.Aux == "^" || a.Aux == "-") {
			return u.bin(token.EQL, a.Args[0], a.Args[1], t)
		}
		if n, ok := isInt(a); ok && n == 0 && b.Op == OBin && (b.Aux == "^" || b.Aux == "-") {
			return u.bin(token.EQL, b.Args[0], b.Args[1], t)
		}
		// (x & c) == c, c a power of two  ->  !((x & c) == 0)
		for i := 0; i < 2; i++ {
			if isIntConst(b) && a.Op == OBin && a.Aux == "&" && a.Args[1] == b {
				if v, ok := constant.Uint64Val(b.Val); ok && v != 0 && v&(v-1) == 0 {
					return u.not(u.bin(token.EQL, a, u.int(0), t))
				}
			}
			a, b = b, a
		}
		if a.ID > b.ID {
			a, b = b, a
		}
		return u.mk(OBin, "==", types.Typ[types.Bool], a, b)
	case token.LSS:
		if a == b {
			return u.Fals
		}
		if isIntConst(a) && isIntConst(b) {
			return u.boolT(constant.Compare(a.Val, token.LSS, b.Val))
		}
		if t != nil && isUnsigned(t) {
			if n, ok := isInt(a); ok && n == 0 {
				return u.not(u.bin(token.EQL, b, a, t))
			}
			if n, ok := isInt(b); ok && n == 0 {
				return u.Fals
			}
			if n, ok := isInt(b); ok && n == 1 {
				return u.bin(token.EQL, a, u.int(0), t)
			}
		}
		return u.mk(OBin, "<", types.Typ[types.Bool], a, b)
	}
	if isIntConst(a) && isIntConst(b) && t != nil {
		switch op {
		case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR, token.AND_NOT:
			return u.cst(u.wrap(constant.BinaryOp(a.Val, op, b.Val), t))
		case token.QUO:
			if constant.Sign(b.Val) != 0 {
				return u.cst(u.wrap(constant.BinaryOp(a.Val, token.QUO_ASSIGN, b.Val), t))
			}
		case token.REM:
			if constant.Sign(b.Val) != 0 {
				return u.cst(u.wrap(constant.BinaryOp(a.Val, op, b.Val), t))
			}
		case token.SHL, token.SHR:
			if n, ok := constant.Uint64Val(b.Val); ok && n < 1024 {
				return u.cst(u.wrap(constant.Shift(a.Val, op, uint(n)), t))
			}
		}
	}
	switch op {
	case token.ADD:
		if n, ok := isInt(b); ok && n == 0 {
			return a
		}
		if n, ok := isInt(a); ok && n == 0 {
			return b
		}
		// (x + c1) + c2, (x - c1) + c2
		if isIntConst(a) && !isIntConst(b) {
			a, b = b, a
		}
		if isIntConst(b) && a.Op == OBin && a.Aux == "+" && isIntConst(a.Args[1]) && t != nil {
			return u.bin(token.ADD, a.Args[0], u.cst(u.wrap(constant.BinaryOp(a.Args[1].Val, token.ADD, b.Val), t)), t)
		}
		if !isIntConst(b) && a.ID > b.ID && t != nil && isInteger(t) {
			a, b = b, a
		}
	case token.SUB:
		if a == b {
			return u.int(0)
		}
		if isIntConst(b) && t != nil && isInteger(t) {
			return u.bin(token.ADD, a, u.cst(u.wrap(constant.UnaryOp(token.SUB, b.Val, 0), t)), t)
		}
		// (x + y) - x
		if a.Op == OBin && a.Aux == "+" {
			if a.Args[0] == b {
				return a.Args[1]
			}
			if a.Args[1] == b {
				return a.Args[0]
			}
		}
	case token.AND, token.OR, token.XOR, token.MUL:
		if op == token.XOR && a == b {
			return u.int(0)
		}
		if (op == token.AND || op == token.OR) && a == b {
			return a
		}
		if isIntConst(a) {
			a, b = b, a
		}
		if n, ok := isInt(b); ok {
			if n == 0 {
				if op == token.AND || op == token.MUL {
					return u.int(0)
				}
				return a
			}
			if n == 1 && op == token.MUL {
				return a
			}
		}
		// (x | c) & d
		if op == token.AND && isIntConst(b) && a.Op == OBin && a.Aux == "|" && isIntConst(a.Args[1]) {
			m := constant.BinaryOp(a.Args[1].Val, token.AND, b.Val)
			if constant.Compare(m, token.EQL, b.Val) {
				return b
			}
			if constant.Sign(m) == 0 {
				return u.bin(token.AND, a.Args[0], b, t)
			}
		}
		if op == token.AND && isIntConst(b) && a.Op == OBin && a.Aux == "&^" && isIntConst(a.Args[1]) {
			m := constant.BinaryOp(b.Val, token.AND_NOT, a.Args[1].Val)
			return u.bin(token.AND, a.Args[0], u.cst(m), t)
		}
		if !isIntConst(b) && a.ID > b.ID {
			a, b = b, a
		}
	}
	return u.mk(OBin, op.String(), t, a, b)
}

func (u *Univ) zero(t types.Type) *Term {
	switch x := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case x.Info()&types.IsBoolean != 0:
			return u.Fals
		case x.Info()&types.IsInteger != 0:
			return u.int(0)
		case x.Info()&types.IsString != 0:
			return u.cst(constant.MakeString(""))
		case x.Info()&types.IsFloat != 0:
			return u.cst(constant.MakeFloat64(0))
		}
		return u.Nil
	case *types.Slice:
		return u.mk(OStruct, "slice", t, u.Nil, u.int(0), u.int(0))
	case *types.Struct:
		return u.structOf(t, func(i int, f *types.Var) *Term { return u.zero(f.Type()) })
	case *types.Array:
		return u.mk(OStruct, "zeroarray:"+typeKey(t), t)
	}
	return u.Nil
}

func (u *Univ) structOf(t types.Type, get func(i int, f *types.Var) *Term) *Term {
	s := t.Underlying().(*types.Struct)
	var as []*Term
	for i := 0; i < s.NumFields(); i++ {
		as = append(as, get(i, s.Field(i)))
	}
	return u.mk(OStruct, typeKey(t), t, as...)
}

// subst replaces terms below t.
func (u *Univ) subst(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.Args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	ch := false
	as := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		as[i] = u.subst(a, m, memo)
		if as[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		r = u.rebuild(t, as)
	}
	memo[t] = r
	return r
}

func (u *Univ) rebuild(t *Term, as []*Term) *Term {
	switch t.Op {
	case OBin:
		switch t.Aux {
		case "==":
			return u.bin(token.EQL, as[0], as[1], nil)
		case "<":
			return u.bin(token.LSS, as[0], as[1], nil)
		}
		for _, op := range []token.Token{token.ADD, token.SUB, token.AND, token.OR, token.XOR, token.MUL} {
			if op.String() == t.Aux {
				return u.bin(op, as[0], as[1], t.Typ)
			}
		}
	case OUn:
		if t.Aux == "!" {
			return u.not(as[0])
		}
	case ORev:
		return u.rev(as[0])
	case OElem:
		return u.elem(as[0], as[1], t.Typ)
	case OContainer:
		return u.container(as[0], as[1])
	}
	r := u.mk(t.Op, t.Aux, t.Typ, as...)
	r.Fn, r.Glob = t.Fn, t.Glob
	if r.Desc == "" {
		r.Desc = t.Desc
	}
	return r
}

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if d > 6 {
		return "…"
	}
	as := func() string {
		var s []string
		for _, a := range t.Args {
			s = append(s, a.str(d+1))
		}
		return strings.Join(s, ", ")
	}
	switch t.Op {
	case OConst:
		return t.Val.String()
	case ONil:
		return "nil"
	case OSym:
		return "‹" + t.Desc + "›"
	case OAlloc:
		return "new‹" + t.Desc + "›"
	case OGlobal:
		return "&" + t.Glob.Name()
	case OFunc:
		return fname(t.Fn)
	case OClosure:
		return fname(t.Fn) + "{" + as() + "}"
	case OField:
		return t.Args[0].str(d+1) + "." + t.Aux[strings.LastIndex(t.Aux, ".")+1:]
	case OElem:
		return t.Args[0].str(d+1) + "[" + t.Args[1].str(d+1) + "]"
	case OLoad:
		return "*" + t.Args[0].str(d+1)
	case OBin:
		return "(" + t.Args[0].str(d+1) + t.Aux + t.Args[1].str(d+1) + ")"
	case OUn:
		return t.Aux + t.Args[0].str(d+1)
	case ORev:
		return "rev(" + as() + ")"
	case OPCall:
		return t.Aux + "(" + as() + ")"
	case OContainer:
		return "containerOf(" + as() + ")"
	}
	return fmt.Sprintf("op%d:%s(%s)", t.Op, t.Aux, as())
}
