package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/types"
	"math/big"
	"strings"
)

type Value struct {
	T types.Type
	L []*Term
}

type leafKind int

const (
	lkScalar leafKind = iota
	lkRef             // pointer / slice base / map / chan
	lkOff
	lkLen
	lkCap
	lkArr // string content
	lkIface
	lkFunc
	lkErr
)

type leafInfo struct {
	sort *Sort
	kind leafKind
	path string
	lift int // array nesting
}

const (
	oldLimitBits = 40
	lenBits      = 47
)

var (
	oldHi      = maxU(oldLimitBits) // refs of pre-existing objects: [1, 2^40)
	firstFresh = new(big.Int).Add(pow2(oldLimitBits), bigOne)
	freshLo    = pow2(oldLimitBits)                 // first fresh ref
	viewBase   = new(big.Int).Lsh(bigOne, 60)       // pseudo refs (views)
	refMax     = new(big.Int).Sub(viewBase, bigOne) // any real ref
	lenHi      = pow2(lenBits)
	byteArr    = arrSort(bvSort(64), bvSort(8))
)

var leafCache = map[types.Type][]leafInfo{}

type unsupported struct{ msg string }

func unsup(f string, a ...any) { panic(unsupported{fmt.Sprintf(f, a...)}) }

func namedIs(t types.Type, pkg, name string) bool {
	t = types.Unalias(t)
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	return n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg && n.Obj().Name() == name
}

func isBigInt(t types.Type) bool { return namedIs(t, "math/big", "Int") }

func leaves(t types.Type) []leafInfo {
	if l, ok := leafCache[t]; ok {
		return l
	}
	l := leaves0(t)
	leafCache[t] = l
	return l
}

func leaves0(t types.Type) []leafInfo {
	b64 := bvSort(64)
	if isBigInt(t) {
		return []leafInfo{{intSort, lkScalar, "val", 0}}
	}
	if namedIs(t, "sync", "Mutex") || namedIs(t, "sync", "RWMutex") {
		return []leafInfo{{bvSort(8), lkScalar, "lock", 0}}
	}
	if isContainer(t) {
		return []leafInfo{{b64, lkRef, "content", 0}}
	}
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" {
		return []leafInfo{{b64, lkScalar, "opaque", 0}}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return []leafInfo{{boolSort, lkScalar, "", 0}}
		case u.Info()&types.IsString != 0:
			return []leafInfo{{byteArr, lkArr, "arr", 0}, {b64, lkOff, "off", 0}, {b64, lkLen, "len", 0}}
		case u.Info()&types.IsInteger != 0:
			return []leafInfo{{bvSort(intWidth(u)), lkScalar, "", 0}}
		case u.Info()&types.IsFloat != 0:
			return []leafInfo{{b64, lkScalar, "float", 0}}
		case u.Kind() == types.UnsafePointer:
			return []leafInfo{{b64, lkScalar, "uptr", 0}}
		case u.Kind() == types.UntypedNil:
			return []leafInfo{{b64, lkScalar, "nil", 0}}
		case u.Info()&types.IsComplex != 0:
			return []leafInfo{{b64, lkScalar, "cplx", 0}}
		}
	case *types.Pointer:
		return []leafInfo{{b64, lkRef, "ref", 0}}
	case *types.Map, *types.Chan:
		return []leafInfo{{b64, lkRef, "ref", 0}}
	case *types.Signature:
		return []leafInfo{{b64, lkFunc, "fn", 0}}
	case *types.Interface:
		if types.Identical(t, tError) {
			return []leafInfo{{b64, lkErr, "err", 0}}
		}
		return []leafInfo{{b64, lkIface, "id", 0}}
	case *types.Slice:
		return []leafInfo{{b64, lkRef, "ref", 0}, {b64, lkOff, "off", 0}, {b64, lkLen, "len", 0}, {b64, lkCap, "cap", 0}}
	case *types.Array:
		var out []leafInfo
		for _, l := range leaves(u.Elem()) {
			out = append(out, leafInfo{arrSort(b64, l.sort), l.kind, "[]" + l.path, l.lift + 1})
		}
		return out
	case *types.Struct:
		var out []leafInfo
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			for _, l := range leaves(f.Type()) {
				l.path = f.Name() + "." + l.path
				out = append(out, l)
			}
		}
		return out
	case *types.Tuple:
		var out []leafInfo
		for i := 0; i < u.Len(); i++ {
			out = append(out, leaves(u.At(i).Type())...)
		}
		return out
	}
	unsup("type %s", t)
	return nil
}

func intWidth(u *types.Basic) int {
	switch u.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}
func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isIface(t types.Type) bool { _, ok := t.Underlying().(*types.Interface); return ok }

func zeroTerm(s *Sort) *Term {
	switch s.K {
	case SBool:
		return tFalse
	case SBV:
		return bv(s.W, 0)
	case SInt:
		return intc(bigZero)
	case SArr:
		return karr(s, zeroTerm(s.Elem))
	}
	return mk(OVar, s, nil, nil, "zero_"+s.Name, 0, 0)
}

func zeroValue(t types.Type) Value {
	ls := leaves(t)
	v := Value{T: t, L: make([]*Term, len(ls))}
	for i, l := range ls {
		v.L[i] = zeroTerm(l.sort)
	}
	return v
}

func bounds(k leafKind) (lo, hi *big.Int) {
	switch k {
	case lkRef:
		return bigZero, refMax
	case lkOff, lkLen, lkCap:
		return bigZero, lenHi
	}
	return nil, nil
}

// annotate attaches type-invariant bounds to the base terms a loaded value is made of.
func annotate(t *Term, li leafInfo, refHi *big.Int) {
	if li.lift > 0 {
		return
	}
	switch t.Op {
	case OIte:
		annotate(t.Args[1], li, refHi)
		annotate(t.Args[2], li, refHi)
	case OSelect, OVar, OUF:
		if t.hi != nil || t.Sort.K != SBV || t.Sort.W != 64 {
			return
		}
		lo, hi := bounds(li.kind)
		if hi == nil {
			return
		}
		if li.kind == lkRef && refHi != nil {
			hi = refHi
		}
		t.lo, t.hi = lo, hi
		t.rngDone = false
	}
}

// freshValue makes an unconstrained value of type t with type invariants.
func freshValue(prefix string, t types.Type, refHi *big.Int) (Value, []*Term) {
	ls := leaves(t)
	v := Value{T: t, L: make([]*Term, len(ls))}
	for i, l := range ls {
		n := prefix
		if l.path != "" {
			n += "." + l.path
		}
		x := freshVar(n, l.sort)
		annotate(x, l, refHi)
		v.L[i] = x
	}
	return v, typeFacts(v)
}

// typeFacts returns relational invariants of slices/strings inside v (unlifted ones).
func typeFacts(v Value) []*Term {
	var out []*Term
	ls := leaves(v.T)
	for i := 0; i < len(ls); i++ {
		if ls[i].lift > 0 {
			continue
		}
		if ls[i].kind == lkCap && i >= 3 {
			ref, off, ln, cp := v.L[i-3], v.L[i-2], v.L[i-1], v.L[i]
			out = append(out, ule(ln, cp), imp(eq(ref, bv(64, 0)), and(eq(cp, bv(64, 0)), eq(off, bv(64, 0)))))
		}
	}
	return out
}

// field access on struct values
func fieldRange(st *types.Struct, i int) (int, int) {
	o := 0
	for j := 0; j < i; j++ {
		o += len(leaves(st.Field(j).Type()))
	}
	return o, o + len(leaves(st.Field(i).Type()))
}

func (v Value) field(i int) Value {
	st := v.T.Underlying().(*types.Struct)
	a, b := fieldRange(st, i)
	return Value{st.Field(i).Type(), v.L[a:b:b]}
}

func (v Value) setField(i int, w Value) Value {
	st := v.T.Underlying().(*types.Struct)
	a, b := fieldRange(st, i)
	L := append([]*Term{}, v.L...)
	copy(L[a:b], w.L)
	return Value{v.T, L}
}

func (v Value) index(i *Term) Value {
	et := v.T.Underlying().(*types.Array).Elem()
	L := make([]*Term, len(v.L))
	for j, a := range v.L {
		L[j] = sel(a, i)
	}
	return Value{et, L}
}

func (v Value) setIndex(i *Term, w Value) Value {
	L := make([]*Term, len(v.L))
	for j, a := range v.L {
		L[j] = store(a, i, w.L[j])
	}
	return Value{v.T, L}
}

func (v Value) term() *Term {
	if len(v.L) != 1 {
		panic(unsupported{fmt.Sprintf("scalar expected, have %s", v.T)})
	}
	return v.L[0]
}

func (v Value) at(t types.Type) Value { return Value{t, v.L} }

func mkv(t types.Type, l ...*Term) Value { return Value{t, l} }

func tupleVal(vs []Value) Value {
	var vars []*types.Var
	var L []*Term
	for _, v := range vs {
		vars = append(vars, types.NewVar(0, nil, "", v.T))
		L = append(L, v.L...)
	}
	return Value{types.NewTuple(vars...), L}
}

func (v Value) split() []Value {
	tu, ok := v.T.(*types.Tuple)
	if !ok {
		return []Value{v}
	}
	var out []Value
	o := 0
	for i := 0; i < tu.Len(); i++ {
		t := tu.At(i).Type()
		n := len(leaves(t))
		out = append(out, Value{t, v.L[o : o+n]})
		o += n
	}
	return out
}

var tBool = types.Typ[types.Bool]
var tInt = types.Typ[types.Int]
var tUint64 = types.Typ[types.Uint64]
var tByte = types.Typ[types.Uint8]
var tString = types.Typ[types.String]
var tBytes = types.NewSlice(types.Typ[types.Uint8])
var tError = types.Universe.Lookup("error").Type()

func boolV(t *Term) Value { return Value{tBool, []*Term{t}} }

func constValue(t types.Type, c constant.Value) Value {
	if t == nil {
		unsup("constant without type")
	}
	u := t.Underlying()
	if b, ok := u.(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return Value{t, []*Term{boolT(constant.BoolVal(c))}}
		case b.Info()&types.IsString != 0:
			return strConst(t, constant.StringVal(c))
		case b.Info()&types.IsInteger != 0 || b.Kind() == types.UntypedRune:
			x := constant.ToInt(c)
			bi, ok := constant.Val(x).(*big.Int)
			if !ok {
				i, _ := constant.Int64Val(x)
				bi = big.NewInt(i)
			}
			w := 64
			if b.Info()&types.IsUntyped == 0 {
				w = intWidth(b)
			}
			return Value{t, []*Term{bvBig(w, bi)}}
		case b.Info()&types.IsFloat != 0:
			return Value{t, []*Term{uf("fconst_"+c.ExactString(), bvSort(64))}}
		}
	}
	unsup("constant of type %s", t)
	return Value{}
}

var strConsts = map[string]*Term{}

func strConst(t types.Type, s string) Value {
	a, ok := strConsts[s]
	if !ok {
		a = karr(byteArr, bv(8, 0))
		if len(s) <= 512 {
			for i := 0; i < len(s); i++ {
				if s[i] != 0 {
					a = store(a, bv(64, int64(i)), bv(8, int64(s[i])))
				}
			}
		} else {
			a = freshVar("bigstr", byteArr)
		}
		strConsts[s] = a
	}
	return Value{t, []*Term{a, bv(64, 0), bv(64, int64(len(s)))}}
}

// ---------- heap ----------

type HNode struct {
	kind  int // 0 base, 1 store, 2 frame, 3 ite
	prev  *HNode
	class string
	ls    []leafInfo // element leaf infos
	cs    []*Sort
	// store
	ref  *Term
	cont []*Term
	// base / frame
	name  string
	refHi *big.Int
	// frame
	refs []*Term
	mark *Term        // refs >= mark are in the region (nil: none)
	lset map[int]bool // leaves affected (nil = all)
	// ite
	c    *Term
	a, b *HNode
	memo map[*Term][]*Term
}

func contSorts(ls []leafInfo) []*Sort {
	out := make([]*Sort, len(ls))
	for i, l := range ls {
		out[i] = arrSort(bvSort(64), l.sort)
	}
	return out
}

func (h *HNode) read(ref *Term) []*Term {
	if h.memo == nil {
		h.memo = map[*Term][]*Term{}
	}
	if r, ok := h.memo[ref]; ok {
		return r
	}
	r := h.read0(ref)
	h.memo[ref] = r
	return r
}

func (h *HNode) ufs(ref *Term) []*Term {
	out := make([]*Term, len(h.cs))
	for i, s := range h.cs {
		out[i] = uf(fmt.Sprintf("%s$%s$%d", h.name, h.class, i), s, ref)
		if i < len(h.ls) && h.ls[i].lift == 0 && out[i].hi == nil {
			lo, hi := bounds(h.ls[i].kind)
			if h.ls[i].kind == lkRef && h.refHi != nil {
				hi = h.refHi
				if _, rh := rng(ref); h.kind == 0 && rh.Cmp(oldHi) > 0 {
					hi = refMax // object created by a callee
				}
			}
			out[i].lo, out[i].hi = lo, hi
		}
	}
	return out
}

func (h *HNode) read0(ref *Term) []*Term {
	if ref.Op == OIte && h.kind != 0 {
		return iteList(ref.Args[0], h.read(ref.Args[1]), h.read(ref.Args[2]))
	}
	switch h.kind {
	case 0:
		return h.ufs(ref)
	case 1:
		c := eq(h.ref, ref)
		if c == tTrue {
			return h.cont
		}
		if c == tFalse {
			return h.prev.read(ref)
		}
		return iteList(c, h.cont, h.prev.read(ref))
	case 2:
		var cs []*Term
		for _, r := range h.refs {
			cs = append(cs, eq(r, ref))
		}
		if h.mark != nil {
			cs = append(cs, ule(h.mark, ref))
		}
		c := or(cs...)
		if c == tFalse {
			return h.prev.read(ref)
		}
		nw := h.ufs(ref)
		if h.lset != nil || c != tTrue {
			old := h.prev.read(ref)
			for i := range nw {
				if h.lset != nil && !h.lset[i] {
					nw[i] = old[i]
				} else {
					nw[i] = ite(c, nw[i], old[i])
				}
			}
		}
		return nw
	case 3:
		return iteList(h.c, h.a.read(ref), h.b.read(ref))
	}
	panic("heap kind")
}

func iteList(c *Term, a, b []*Term) []*Term {
	out := make([]*Term, len(a))
	for i := range a {
		out[i] = ite(c, a[i], b[i])
	}
	return out
}

func className(t types.Type) string {
	return strings.ReplaceAll(types.TypeString(t, func(p *types.Package) string { return p.Path() }), "|", "!")
}

// canonical element class: byte and uint8 coincide through types.TypeString
func classOf(t types.Type) string {
	s := className(types.Unalias(t))
	if s == "byte" {
		return "uint8"
	}
	return s
}

// ---------- interface / closure / view tables ----------

type Closure struct {
	lit     *ast.FuncLit
	frame   *Frame
	fn      *types.Func // named function or method value
	recv    *Value
	special string
}

type Loc struct {
	kind  int // 0 var, 1 heap, 2 global, 3 map element
	key   ckey
	obj   types.Object
	class types.Type // element type for heap
	ref   *Term
	idx   *Term
	whole bool // heap root is an array object: value is the whole content
	mapT  types.Type
	mkey  Value
	steps []Step
	T     types.Type
}

type Step struct {
	field int
	idx   *Term // nil for field step
}

func (l *Loc) sub(s Step, t types.Type) *Loc {
	n := *l
	n.steps = append(append([]Step{}, l.steps...), s)
	n.T = t
	return &n
}

// heapClass names the heap region of values of type t.  Named types share the
// region of their underlying type (pointers convert between them), except structs.
func heapClass(t types.Type) string {
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok && !isBigInt(t) {
		switch n.Underlying().(type) {
		case *types.Struct, *types.Interface:
		default:
			return classOf(n.Underlying())
		}
	}
	return classOf(t)
}
