package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"unsafe"
)

// ---------- sorts ----------

type SK int

const (
	SBool SK = iota
	SBV
	SInt
	SArr
	SU
)

type Sort struct {
	K    SK
	W    int
	Idx  *Sort
	Elem *Sort
	Name string
}

var (
	boolSort = &Sort{K: SBool}
	intSort  = &Sort{K: SInt}
	seqSort  = &Sort{K: SU, Name: "BSeq"}
	bvSorts  = map[int]*Sort{}
	arrSorts = map[[2]*Sort]*Sort{}
	uSorts   = map[string]*Sort{"BSeq": seqSort}
)

func bvSort(w int) *Sort {
	s, ok := bvSorts[w]
	if !ok {
		s = &Sort{K: SBV, W: w}
		bvSorts[w] = s
	}
	return s
}

func arrSort(idx, el *Sort) *Sort {
	k := [2]*Sort{idx, el}
	s, ok := arrSorts[k]
	if !ok {
		s = &Sort{K: SArr, Idx: idx, Elem: el}
		arrSorts[k] = s
	}
	return s
}

func (s *Sort) String() string {
	switch s.K {
	case SBool:
		return "Bool"
	case SInt:
		return "Int"
	case SBV:
		return fmt.Sprintf("(_ BitVec %d)", s.W)
	case SArr:
		return fmt.Sprintf("(Array %s %s)", s.Idx, s.Elem)
	}
	return s.Name
}

// ---------- terms ----------

type Op int

const (
	OConst Op = iota
	OTrue
	OFalse
	OVar
	OBound // bound variable of a quantifier
	OUF
	ONot
	OAnd
	OOr
	OEq
	OIte
	OForall // args[0]=bound var, args[1]=body  (range is inside body as implication)
	OAdd    // n-ary linear sum (bv)
	OMulC   // const * term
	OMul
	OUdiv
	OUrem
	OSdiv
	OSrem
	OBAnd
	OBOr
	OBXor
	OBNot
	OShl
	OLshr
	OAshr
	OUlt
	OUle
	OSlt
	OSle
	OExtract // hi lo in I1,I2
	OConcat
	OZext // to sort width
	OSext
	OSelect
	OStore // arr idx val
	OACopy // dst dlo n src slo : k in [dlo,dlo+n) -> src[k-dlo+slo] else dst[k]
	OKArr  // constant array, args[0]=elem
	OIAdd  // Int add
	OISub
	OIMul
	OILt
	OILe
	OIDiv
	OIMod
	OBv2Nat
	OInt2Bv
)

type Term struct {
	Op       Op
	Sort     *Sort
	Args     []*Term
	Val      *big.Int
	Name     string
	I1       int
	I2       int
	id       int
	hasBound bool
	hasQ     bool
	// unsigned bounds for variables
	lo, hi   *big.Int
	rngDone  bool
	rlo, rhi *big.Int
}

var (
	termTab  = map[string]*Term{}
	termList []*Term
	tTrue    *Term
	tFalse   *Term
)

var mkBuf []byte

func mk(op Op, s *Sort, args []*Term, val *big.Int, name string, i1, i2 int) *Term {
	kb := mkBuf[:0]
	kb = strconv.AppendInt(kb, int64(op), 32)
	kb = append(kb, '|')
	kb = strconv.AppendUint(kb, uint64(uintptr(unsafe.Pointer(s))), 32)
	for _, a := range args {
		kb = append(kb, ',')
		kb = strconv.AppendInt(kb, int64(a.id), 32)
	}
	if val != nil {
		kb = append(kb, '#')
		kb = val.Append(kb, 62)
	}
	if name != "" {
		kb = append(kb, '@')
		kb = append(kb, name...)
	}
	if i1 != 0 || i2 != 0 {
		kb = append(kb, ':')
		kb = strconv.AppendInt(kb, int64(i1), 32)
		kb = append(kb, ':')
		kb = strconv.AppendInt(kb, int64(i2), 32)
	}
	mkBuf = kb
	if t, ok := termTab[string(kb)]; ok {
		return t
	}
	k := string(kb)
	t := &Term{Op: op, Sort: s, Args: args, Val: val, Name: name, I1: i1, I2: i2, id: len(termList)}
	if op == OBound {
		t.hasBound = true
	}
	if op == OForall {
		t.hasQ = true
		// bound var removed: hasBound only if body has others; conservative compute
		t.hasBound = hasOtherBound(args[1], args[0])
	} else {
		for _, a := range args {
			if a.hasBound {
				t.hasBound = true
			}
			if a.hasQ {
				t.hasQ = true
			}
		}
	}
	termList = append(termList, t)
	termTab[k] = t
	return t
}

func hasOtherBound(t, b *Term) bool {
	seen := map[*Term]bool{}
	inner := map[*Term]bool{b: true}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if !t.hasBound || seen[t] {
			return false
		}
		seen[t] = true
		if t.Op == OBound {
			return !inner[t]
		}
		if t.Op == OForall {
			inner[t.Args[0]] = true // bound variables are unique
		}
		for _, a := range t.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func init() {
	tTrue = mk(OTrue, boolSort, nil, nil, "", 0, 0)
	tFalse = mk(OFalse, boolSort, nil, nil, "", 0, 0)
}

func (t *Term) isConst() bool { return t.Op == OConst || t.Op == OTrue || t.Op == OFalse }

var bigOne = big.NewInt(1)
var bigZero = big.NewInt(0)

// pow2 and maxU: shared values, never modified
func pow2(w int) *big.Int {
	if w >= 0 && w < len(pow2Tab) {
		return pow2Tab[w]
	}
	return new(big.Int).Lsh(bigOne, uint(w))
}
func maxU(w int) *big.Int {
	if w >= 0 && w < len(maxUTab) {
		return maxUTab[w]
	}
	return new(big.Int).Sub(pow2(w), bigOne)
}

var pow2Tab, maxUTab = func() (p, m [130]*big.Int) {
	for i := range p {
		p[i] = new(big.Int).Lsh(big.NewInt(1), uint(i))
		m[i] = new(big.Int).Sub(p[i], big.NewInt(1))
	}
	return
}()

func bvBig(w int, v *big.Int) *Term {
	x := new(big.Int).And(v, maxU(w)) // And on negative big.Int is two's complement
	return mk(OConst, bvSort(w), nil, x, "", 0, 0)
}
func bv(w int, v int64) *Term   { return bvBig(w, big.NewInt(v)) }
func bvu(w int, v uint64) *Term { return bvBig(w, new(big.Int).SetUint64(v)) }
func intc(v *big.Int) *Term     { return mk(OConst, intSort, nil, new(big.Int).Set(v), "", 0, 0) }
func boolT(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

var freshCtr int

func freshVar(prefix string, s *Sort) *Term {
	freshCtr++
	return mk(OVar, s, nil, nil, fmt.Sprintf("%s!%d", sanitize(prefix), freshCtr), 0, 0)
}

func freshBounded(prefix string, w int, lo, hi *big.Int) *Term {
	t := freshVar(prefix, bvSort(w))
	t.lo, t.hi = lo, hi
	return t
}

func freshBound() *Term {
	freshCtr++
	return mk(OBound, bvSort(64), nil, nil, fmt.Sprintf("k?%d", freshCtr), 0, 0)
}

func sanitize(s string) string {
	var b strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' || c == '$' || c == '!' {
			b.WriteRune(c)
		} else {
			b.WriteByte('_')
		}
	}
	return b.String()
}

func uf(name string, s *Sort, args ...*Term) *Term {
	return mk(OUF, s, args, nil, sanitize(name), 0, 0)
}

func signed(v *big.Int, w int) *big.Int {
	if v.Bit(w-1) == 1 {
		return new(big.Int).Sub(v, pow2(w))
	}
	return v
}

// ---------- boolean ----------

func not(a *Term) *Term {
	switch a.Op {
	case OTrue:
		return tFalse
	case OFalse:
		return tTrue
	case ONot:
		return a.Args[0]
	case OUlt:
		return ule(a.Args[1], a.Args[0])
	case OUle:
		return ult(a.Args[1], a.Args[0])
	case OSlt:
		return sle(a.Args[1], a.Args[0])
	case OSle:
		return slt(a.Args[1], a.Args[0])
	}
	return mk(ONot, boolSort, []*Term{a}, nil, "", 0, 0)
}

func and(xs ...*Term) *Term { return nary(OAnd, tTrue, tFalse, xs) }
func or(xs ...*Term) *Term  { return nary(OOr, tFalse, tTrue, xs) }
func imp(a, b *Term) *Term  { return or(not(a), b) }

func nary(op Op, unit, zero *Term, xs []*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == unit || seen[x] {
			return true
		}
		if x == zero {
			return false
		}
		if x.Op == op {
			for _, y := range x.Args {
				if !add(y) {
					return false
				}
			}
			return true
		}
		if seen[not(x)] {
			return false
		}
		seen[x] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return mk(op, boolSort, out, nil, "", 0, 0)
}

func ite(c, a, b *Term) *Term {
	if c == tTrue || a == b {
		return a
	}
	if c == tFalse {
		return b
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("ite sorts %s %s", a.Sort, b.Sort))
	}
	if a.Sort == boolSort {
		if a == tTrue {
			return or(c, b)
		}
		if a == tFalse {
			return and(not(c), b)
		}
		if b == tTrue {
			return or(not(c), a)
		}
		if b == tFalse {
			return and(c, a)
		}
	}
	if c.Op == ONot {
		return ite(c.Args[0], b, a)
	}
	if a.Op == OIte && a.Args[0] == c {
		a = a.Args[1]
	}
	if b.Op == OIte && b.Args[0] == c {
		b = b.Args[2]
	}
	if a == b {
		return a
	}
	return mk(OIte, a.Sort, []*Term{c, a, b}, nil, "", 0, 0)
}

func eq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("eq sorts %s %s: %s = %s", a.Sort, b.Sort, a.Short(), b.Short()))
	}
	if a.Op == OConst && b.Op == OConst {
		return boolT(a.Val.Cmp(b.Val) == 0)
	}
	if a.Sort == boolSort {
		if a == tTrue {
			return b
		}
		if b == tTrue {
			return a
		}
		if a == tFalse {
			return not(b)
		}
		if b == tFalse {
			return not(a)
		}
	}
	if a.Sort.K == SBV {
		w := a.Sort.W
		// linear difference
		fa, ca := linear(a)
		fb, cb := linear(b)
		if len(fa) > 0 || len(fb) > 0 {
			d := map[*Term]*big.Int{}
			for t, c := range fa {
				d[t] = c
			}
			for t, c := range fb {
				v, ok := d[t]
				if !ok {
					v = bigZero
				}
				v = new(big.Int).Sub(v, c)
				v.And(v, maxU(w))
				if v.Sign() == 0 {
					delete(d, t)
				} else {
					d[t] = v
				}
			}
			dc := new(big.Int).Sub(ca, cb)
			dc.And(dc, maxU(w))
			if len(d) == 0 {
				return boolT(dc.Sign() == 0)
			}
		}
		alo, ahi := rng(a)
		blo, bhi := rng(b)
		if ahi.Cmp(blo) < 0 || bhi.Cmp(alo) < 0 {
			return tFalse
		}
		if a.Op == OConst {
			a, b = b, a
		}
		if b.Op == OConst {
			switch a.Op {
			case OIte:
				if a.Args[1].Op == OConst || a.Args[2].Op == OConst {
					return ite(a.Args[0], eq(a.Args[1], b), eq(a.Args[2], b))
				}
			case OZext:
				n := a.Args[0].Sort.W
				if b.Val.BitLen() > n {
					return tFalse
				}
				return eq(a.Args[0], bvBig(n, b.Val))
			case OAdd:
				// x + c1 == c2  ->  x == c2-c1
				if ca.Sign() != 0 {
					return eq(bvadd(a, bvBig(w, new(big.Int).Neg(ca))), bvBig(w, new(big.Int).Sub(b.Val, ca)))
				}
			}
		}
		if a.Op == OZext && b.Op == OZext && a.Args[0].Sort == b.Args[0].Sort {
			return eq(a.Args[0], b.Args[0])
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(OEq, boolSort, []*Term{a, b}, nil, "", 0, 0)
}

func forall(b, body *Term) *Term {
	if body == tTrue || body == tFalse {
		return body
	}
	if !body.hasBound {
		return body
	}
	return mk(OForall, boolSort, []*Term{b, body}, nil, "", 0, 0)
}

// ---------- bit-vectors ----------

func linear(t *Term) (map[*Term]*big.Int, *big.Int) {
	m := map[*Term]*big.Int{}
	c := new(big.Int)
	w := t.Sort.W
	var rec func(t *Term, k *big.Int)
	rec = func(t *Term, k *big.Int) {
		switch t.Op {
		case OConst:
			c.Add(c, new(big.Int).Mul(k, t.Val))
		case OAdd:
			for _, a := range t.Args {
				rec(a, k)
			}
		case OMulC:
			rec(t.Args[0], new(big.Int).Mul(k, t.Val))
		default:
			v, ok := m[t]
			if !ok {
				v = bigZero
			}
			m[t] = new(big.Int).Add(v, k)
		}
	}
	rec(t, bigOne)
	c.And(c, maxU(w))
	for k, v := range m {
		v = new(big.Int).And(v, maxU(w))
		if v.Sign() == 0 {
			delete(m, k)
		} else {
			m[k] = v
		}
	}
	return m, c
}

func fromLinear(w int, m map[*Term]*big.Int, c *big.Int) *Term {
	keys := make([]*Term, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].id < keys[j].id })
	var args []*Term
	for _, k := range keys {
		v := m[k]
		if v.Cmp(bigOne) == 0 {
			args = append(args, k)
		} else {
			args = append(args, mk(OMulC, bvSort(w), []*Term{k}, v, "", 0, 0))
		}
	}
	if c.Sign() != 0 || len(args) == 0 {
		args = append(args, bvBig(w, c))
	}
	if len(args) == 1 {
		return args[0]
	}
	return mk(OAdd, bvSort(w), args, nil, "", 0, 0)
}

func bvadd(a, b *Term) *Term {
	if a.Sort != b.Sort {
		panic("bvadd sorts")
	}
	if a.Sort.K == SInt {
		return iadd(a, b)
	}
	key := [2]*Term{a, b}
	if r, ok := addTab[key]; ok {
		return r
	}
	r := bvadd1(a, b)
	addTab[key] = r
	return r
}

var addTab = map[[2]*Term]*Term{}

func bvadd1(a, b *Term) *Term {
	w := a.Sort.W
	ma, ca := linear(a)
	mb, cb := linear(b)
	for t, c := range mb {
		v, ok := ma[t]
		if !ok {
			v = bigZero
		}
		v = new(big.Int).Add(v, c)
		v.And(v, maxU(w))
		if v.Sign() == 0 {
			delete(ma, t)
		} else {
			ma[t] = v
		}
	}
	ca.Add(ca, cb)
	ca.And(ca, maxU(w))
	return fromLinear(w, ma, ca)
}

func mulc(k *big.Int, a *Term) *Term {
	w := a.Sort.W
	ma, ca := linear(a)
	r := map[*Term]*big.Int{}
	for t, c := range ma {
		v := new(big.Int).Mul(c, k)
		v.And(v, maxU(w))
		if v.Sign() != 0 {
			r[t] = v
		}
	}
	ca.Mul(ca, k)
	ca.And(ca, maxU(w))
	return fromLinear(w, r, ca)
}

func bvneg(a *Term) *Term    { return mulc(big.NewInt(-1), a) }
func bvsub(a, b *Term) *Term { return bvadd(a, bvneg(b)) }

func bvmul(a, b *Term) *Term {
	if a.Op == OConst {
		return mulc(a.Val, b)
	}
	if b.Op == OConst {
		return mulc(b.Val, a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(OMul, a.Sort, []*Term{a, b}, nil, "", 0, 0)
}

func bvudiv(a, b *Term) *Term {
	if b.Op == OConst && b.Val.Sign() != 0 {
		if a.Op == OConst {
			return bvBig(a.Sort.W, new(big.Int).Div(a.Val, b.Val))
		}
		if b.Val.Cmp(bigOne) == 0 {
			return a
		}
		if k := log2(b.Val); k >= 0 {
			return lshr(a, bv(a.Sort.W, int64(k)))
		}
		_, hi := rng(a)
		if hi.Cmp(b.Val) < 0 {
			return bv(a.Sort.W, 0)
		}
	}
	return mk(OUdiv, a.Sort, []*Term{a, b}, nil, "", 0, 0)
}

func log2(v *big.Int) int {
	n := v.BitLen()
	if n == 0 {
		return -1
	}
	if new(big.Int).Lsh(bigOne, uint(n-1)).Cmp(v) == 0 {
		return n - 1
	}
	return -1
}

func bvurem(a, b *Term) *Term {
	if b.Op == OConst && b.Val.Sign() != 0 {
		if a.Op == OConst {
			return bvBig(a.Sort.W, new(big.Int).Mod(a.Val, b.Val))
		}
		if k := log2(b.Val); k >= 0 {
			return bvand(a, bvBig(a.Sort.W, maxU(k)))
		}
		_, hi := rng(a)
		if hi.Cmp(b.Val) < 0 {
			return a
		}
		// a - b*(a/b)
		return bvsub(a, mulc(b.Val, bvudiv(a, b)))
	}
	return mk(OUrem, a.Sort, []*Term{a, b}, nil, "", 0, 0)
}

func nonneg(t *Term) bool {
	_, hi := rng(t)
	return hi.Bit(t.Sort.W-1) == 0
}

func bvsdiv(a, b *Term) *Term {
	if nonneg(a) && nonneg(b) {
		return bvudiv(a, b)
	}
	if a.Op == OConst && b.Op == OConst && b.Val.Sign() != 0 {
		w := a.Sort.W
		return bvBig(w, new(big.Int).Quo(signed(a.Val, w), signed(b.Val, w)))
	}
	return mk(OSdiv, a.Sort, []*Term{a, b}, nil, "", 0, 0)
}

func bvsrem(a, b *Term) *Term {
	if nonneg(a) && nonneg(b) {
		return bvurem(a, b)
	}
	if a.Op == OConst && b.Op == OConst && b.Val.Sign() != 0 {
		w := a.Sort.W
		return bvBig(w, new(big.Int).Rem(signed(a.Val, w), signed(b.Val, w)))
	}
	return mk(OSrem, a.Sort, []*Term{a, b}, nil, "", 0, 0)
}

func bvbin(op Op, a, b *Term) *Term {
	if a.id > b.id {
		a, b = b, a
	}
	return mk(op, a.Sort, []*Term{a, b}, nil, "", 0, 0)
}

func bvand(a, b *Term) *Term {
	w := a.Sort.W
	if a.Op == OConst && b.Op == OConst {
		return bvBig(w, new(big.Int).And(a.Val, b.Val))
	}
	if a.Op == OConst {
		a, b = b, a
	}
	if a == b {
		return a
	}
	if b.Op == OConst {
		if b.Val.Sign() == 0 {
			return b
		}
		if b.Val.Cmp(maxU(w)) == 0 {
			return a
		}
		if a.Op == OBAnd && a.Args[1].Op == OConst {
			return bvand(a.Args[0], bvBig(w, new(big.Int).And(a.Args[1].Val, b.Val)))
		}
		if a.Op == OBAnd && a.Args[0].Op == OConst {
			return bvand(a.Args[1], bvBig(w, new(big.Int).And(a.Args[0].Val, b.Val)))
		}
		// mask 2^k-1
		k := log2(new(big.Int).Add(b.Val, bigOne))
		if k >= 0 {
			_, hi := rng(a)
			if hi.Cmp(b.Val) <= 0 {
				return a
			}
			return zext(w, extract(k-1, 0, a))
		}
	}
	return bvbin(OBAnd, a, b)
}

func bvor(a, b *Term) *Term {
	w := a.Sort.W
	if a.Op == OConst && b.Op == OConst {
		return bvBig(w, new(big.Int).Or(a.Val, b.Val))
	}
	if a.Op == OConst {
		a, b = b, a
	}
	if a == b {
		return a
	}
	if b.Op == OConst {
		if b.Val.Sign() == 0 {
			return a
		}
		if b.Val.Cmp(maxU(w)) == 0 {
			return b
		}
	}
	return bvbin(OBOr, a, b)
}

func bvxor(a, b *Term) *Term {
	w := a.Sort.W
	if a.Op == OConst && b.Op == OConst {
		return bvBig(w, new(big.Int).Xor(a.Val, b.Val))
	}
	if a.Op == OConst {
		a, b = b, a
	}
	if a == b {
		return bv(w, 0)
	}
	if b.Op == OConst && b.Val.Sign() == 0 {
		return a
	}
	if b.Op == OConst && b.Val.Cmp(maxU(w)) == 0 {
		return bvnot(a)
	}
	return bvbin(OBXor, a, b)
}

func bvnot(a *Term) *Term {
	if a.Op == OConst {
		return bvBig(a.Sort.W, new(big.Int).Not(a.Val))
	}
	if a.Op == OBNot {
		return a.Args[0]
	}
	return mk(OBNot, a.Sort, []*Term{a}, nil, "", 0, 0)
}

func shl(a, b *Term) *Term {
	w := a.Sort.W
	if b.Op == OConst {
		if b.Val.Cmp(big.NewInt(int64(w))) >= 0 {
			return bv(w, 0)
		}
		n := uint(b.Val.Uint64())
		if n == 0 {
			return a
		}
		if a.Op == OConst {
			return bvBig(w, new(big.Int).Lsh(a.Val, n))
		}
		return mulc(pow2(int(n)), a)
	}
	return mk(OShl, a.Sort, []*Term{a, b}, nil, "", 0, 0)
}

func lshr(a, b *Term) *Term {
	w := a.Sort.W
	if b.Op == OConst {
		if b.Val.Cmp(big.NewInt(int64(w))) >= 0 {
			return bv(w, 0)
		}
		n := int(b.Val.Uint64())
		if n == 0 {
			return a
		}
		if a.Op == OConst {
			return bvBig(w, new(big.Int).Rsh(a.Val, uint(n)))
		}
		return zext(w, extract(w-1, n, a))
	}
	return mk(OLshr, a.Sort, []*Term{a, b}, nil, "", 0, 0)
}

func ashr(a, b *Term) *Term {
	w := a.Sort.W
	if nonneg(a) {
		return lshr(a, b)
	}
	if b.Op == OConst && a.Op == OConst {
		n := uint(w)
		if b.Val.Cmp(big.NewInt(int64(w))) < 0 {
			n = uint(b.Val.Uint64())
		}
		return bvBig(w, new(big.Int).Rsh(signed(a.Val, w), n))
	}
	if b.Op == OConst && b.Val.Sign() == 0 {
		return a
	}
	return mk(OAshr, a.Sort, []*Term{a, b}, nil, "", 0, 0)
}

func ult(a, b *Term) *Term {
	if a == b {
		return tFalse
	}
	if a.Sort.K == SInt {
		return ilt(a, b)
	}
	alo, ahi := rng(a)
	blo, bhi := rng(b)
	if ahi.Cmp(blo) < 0 {
		return tTrue
	}
	if alo.Cmp(bhi) >= 0 {
		return tFalse
	}
	if a.Op == OZext && b.Op == OZext && a.Args[0].Sort == b.Args[0].Sort {
		return ult(a.Args[0], b.Args[0])
	}
	if b.Op == OConst && b.Val.Cmp(bigOne) == 0 {
		return eq(a, bv(a.Sort.W, 0))
	}
	if a.Op == OIte && b.Op == OConst && (a.Args[1].Op == OConst || a.Args[2].Op == OConst) {
		return ite(a.Args[0], ult(a.Args[1], b), ult(a.Args[2], b))
	}
	if b.Op == OIte && a.Op == OConst && (b.Args[1].Op == OConst || b.Args[2].Op == OConst) {
		return ite(b.Args[0], ult(a, b.Args[1]), ult(a, b.Args[2]))
	}
	return mk(OUlt, boolSort, []*Term{a, b}, nil, "", 0, 0)
}

func ule(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.Sort.K == SInt {
		return ile(a, b)
	}
	alo, ahi := rng(a)
	blo, bhi := rng(b)
	if ahi.Cmp(blo) <= 0 {
		return tTrue
	}
	if alo.Cmp(bhi) > 0 {
		return tFalse
	}
	if a.Op == OZext && b.Op == OZext && a.Args[0].Sort == b.Args[0].Sort {
		return ule(a.Args[0], b.Args[0])
	}
	if b.Op == OConst && b.Val.Sign() == 0 {
		return eq(a, b)
	}
	if a.Op == OIte && b.Op == OConst && (a.Args[1].Op == OConst || a.Args[2].Op == OConst) {
		return ite(a.Args[0], ule(a.Args[1], b), ule(a.Args[2], b))
	}
	if b.Op == OIte && a.Op == OConst && (b.Args[1].Op == OConst || b.Args[2].Op == OConst) {
		return ite(b.Args[0], ule(a, b.Args[1]), ule(a, b.Args[2]))
	}
	return mk(OUle, boolSort, []*Term{a, b}, nil, "", 0, 0)
}

func isIntMin(t *Term) bool { return t.Op == OConst && t.Val.Cmp(pow2(t.Sort.W-1)) == 0 }

func slt(a, b *Term) *Term {
	if a == b {
		return tFalse
	}
	if a.Sort.K == SInt {
		return ilt(a, b)
	}
	w := a.Sort.W
	if a.Op == OConst && b.Op == OConst {
		return boolT(signed(a.Val, w).Cmp(signed(b.Val, w)) < 0)
	}
	na, nb := nonneg(a), nonneg(b)
	if na && nb {
		return ult(a, b)
	}
	if na && b.Op == OConst { // b negative const
		return tFalse
	}
	if nb && a.Op == OConst {
		return tTrue
	}
	return mk(OSlt, boolSort, []*Term{a, b}, nil, "", 0, 0)
}

func sle(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.Sort.K == SInt {
		return ile(a, b)
	}
	w := a.Sort.W
	if a.Op == OConst && b.Op == OConst {
		return boolT(signed(a.Val, w).Cmp(signed(b.Val, w)) <= 0)
	}
	na, nb := nonneg(a), nonneg(b)
	if na && nb {
		return ule(a, b)
	}
	if na && b.Op == OConst {
		return tFalse
	}
	if nb && a.Op == OConst {
		return tTrue
	}
	return mk(OSle, boolSort, []*Term{a, b}, nil, "", 0, 0)
}

func extract(hi, lo int, a *Term) *Term {
	w := a.Sort.W
	if lo == 0 && hi == w-1 {
		return a
	}
	n := hi - lo + 1
	switch a.Op {
	case OConst:
		return bvBig(n, new(big.Int).Rsh(a.Val, uint(lo)))
	case OZext:
		m := a.Args[0].Sort.W
		if lo >= m {
			return bv(n, 0)
		}
		if hi < m {
			return extract(hi, lo, a.Args[0])
		}
		return zext(n, extract(m-1, lo, a.Args[0]))
	case OSext:
		m := a.Args[0].Sort.W
		if hi < m {
			return extract(hi, lo, a.Args[0])
		}
	case OExtract:
		return extract(hi+a.I2, lo+a.I2, a.Args[0])
	case OConcat:
		lw := a.Args[1].Sort.W
		if hi < lw {
			return extract(hi, lo, a.Args[1])
		}
		if lo >= lw {
			return extract(hi-lw, lo-lw, a.Args[0])
		}
	case OBAnd:
		return bvand(extract(hi, lo, a.Args[0]), extract(hi, lo, a.Args[1]))
	case OBOr:
		return bvor(extract(hi, lo, a.Args[0]), extract(hi, lo, a.Args[1]))
	case OBXor:
		return bvxor(extract(hi, lo, a.Args[0]), extract(hi, lo, a.Args[1]))
	case OIte:
		return ite(a.Args[0], extract(hi, lo, a.Args[1]), extract(hi, lo, a.Args[2]))
	case OAdd:
		if lo == 0 {
			r := bv(n, 0)
			for _, x := range a.Args {
				r = bvadd(r, extract(hi, 0, x))
			}
			return r
		}
	case OMulC:
		if lo == 0 {
			return mulc(a.Val, extract(hi, 0, a.Args[0]))
		}
		if k := log2(a.Val); k >= 0 {
			if lo >= k {
				return extract(hi-k, lo-k, a.Args[0])
			}
			if hi < k {
				return bv(n, 0)
			}
		}
	}
	if lo == 0 {
		// nothing
	} else {
		_, h := rng(a)
		if h.BitLen() <= lo {
			return bv(n, 0)
		}
	}
	return mk(OExtract, bvSort(n), []*Term{a}, nil, "", hi, lo)
}

func zext(w int, a *Term) *Term {
	if a.Sort.W == w {
		return a
	}
	if a.Sort.W > w {
		panic("zext narrow")
	}
	if a.Op == OConst {
		return bvBig(w, a.Val)
	}
	if a.Op == OZext {
		return zext(w, a.Args[0])
	}
	if a.Op == OExtract && a.I2 == 0 {
		// zext(extract(k-1..0, x)) where x fits
		x := a.Args[0]
		_, hi := rng(x)
		if hi.BitLen() <= a.Sort.W {
			if x.Sort.W == w {
				return x
			}
			if x.Sort.W < w {
				return zext(w, x)
			}
		}
	}
	return mk(OZext, bvSort(w), []*Term{a}, nil, "", 0, 0)
}

func sext(w int, a *Term) *Term {
	if a.Sort.W == w {
		return a
	}
	if a.Op == OConst {
		return bvBig(w, signed(a.Val, a.Sort.W))
	}
	if nonneg(a) {
		return zext(w, a)
	}
	if a.Op == OSext {
		return sext(w, a.Args[0])
	}
	return mk(OSext, bvSort(w), []*Term{a}, nil, "", 0, 0)
}

func concat(a, b *Term) *Term {
	w := a.Sort.W + b.Sort.W
	if a.Op == OConst && b.Op == OConst {
		return bvBig(w, new(big.Int).Or(new(big.Int).Lsh(a.Val, uint(b.Sort.W)), b.Val))
	}
	if a.Op == OConst && a.Val.Sign() == 0 {
		return zext(w, b)
	}
	if a.Op == OExtract && b.Op == OExtract && a.Args[0] == b.Args[0] && a.I2 == b.I1+1 {
		return extract(a.I1, b.I2, a.Args[0])
	}
	return mk(OConcat, bvSort(w), []*Term{a, b}, nil, "", 0, 0)
}

// unsigned range
func rng(t *Term) (*big.Int, *big.Int) {
	if t.rngDone {
		return t.rlo, t.rhi
	}
	w := t.Sort.W
	lo, hi := bigZero, maxU(w)
	switch t.Op {
	case OConst:
		lo, hi = t.Val, t.Val
	case OVar, OUF, OSelect:
		if t.hi != nil {
			lo, hi = t.lo, t.hi
		}
	case OZext:
		lo, hi = rng(t.Args[0])
	case OExtract:
		l0, h := rng(t.Args[0])
		if h.BitLen() <= t.I1+1 {
			lo = new(big.Int).Rsh(l0, uint(t.I2))
			hi = new(big.Int).Rsh(h, uint(t.I2))
		}
	case OIte:
		l1, h1 := rng(t.Args[1])
		l2, h2 := rng(t.Args[2])
		lo, hi = l1, h1
		if l2.Cmp(lo) < 0 {
			lo = l2
		}
		if h2.Cmp(hi) > 0 {
			hi = h2
		}
	case OAdd:
		l, h := new(big.Int), new(big.Int)
		for _, a := range t.Args {
			al, ah := rng(a)
			l.Add(l, al)
			h.Add(h, ah)
		}
		if h.Cmp(maxU(w)) <= 0 {
			lo, hi = l, h
		} else if l.Cmp(pow2(w)) >= 0 && h.Cmp(new(big.Int).Add(pow2(w), maxU(w))) <= 0 {
			lo = l.Sub(l, pow2(w))
			hi = h.Sub(h, pow2(w))
		}
	case OMulC:
		al, ah := rng(t.Args[0])
		h := new(big.Int).Mul(ah, t.Val)
		if h.Cmp(maxU(w)) <= 0 {
			lo, hi = new(big.Int).Mul(al, t.Val), h
		}
	case OMul:
		al, ah := rng(t.Args[0])
		bl, bh := rng(t.Args[1])
		h := new(big.Int).Mul(ah, bh)
		if h.Cmp(maxU(w)) <= 0 {
			lo, hi = new(big.Int).Mul(al, bl), h
		}
	case OBAnd:
		_, h1 := rng(t.Args[0])
		_, h2 := rng(t.Args[1])
		hi = h1
		if h2.Cmp(hi) < 0 {
			hi = h2
		}
	case OBOr, OBXor:
		_, h1 := rng(t.Args[0])
		_, h2 := rng(t.Args[1])
		n := h1.BitLen()
		if h2.BitLen() > n {
			n = h2.BitLen()
		}
		hi = maxU(n)
	case OUdiv:
		if t.Args[1].Op == OConst && t.Args[1].Val.Sign() > 0 {
			l, h := rng(t.Args[0])
			lo, hi = new(big.Int).Div(l, t.Args[1].Val), new(big.Int).Div(h, t.Args[1].Val)
		}
	case OLshr:
		_, hi = rng(t.Args[0])
	case OConcat:
		al, ah := rng(t.Args[0])
		bl, bh := rng(t.Args[1])
		n := uint(t.Args[1].Sort.W)
		lo = new(big.Int).Add(new(big.Int).Lsh(al, n), bl)
		hi = new(big.Int).Add(new(big.Int).Lsh(ah, n), bh)
	}
	t.rlo, t.rhi = lo, hi
	t.rngDone = true
	return lo, hi
}

// ---------- arrays ----------

var selMemo = map[[2]int]*Term{}

func sel(a, i *Term) *Term {
	if a.Sort.K != SArr || a.Sort.Idx != i.Sort {
		panic(fmt.Sprintf("select sort mismatch %s [%s]", a.Sort, i.Sort))
	}
	k := [2]int{a.id, i.id}
	if r, ok := selMemo[k]; ok {
		return r
	}
	r := sel0(a, i)
	selMemo[k] = r
	return r
}

// A constant table read at an unknown index: an if-chain over runs of equal
// or consecutive entries instead of one over all entries.
type tabRun struct {
	lo, hi int64
	val    *big.Int
	slope  int64
}

type constTab struct {
	runs []tabRun
	def  *big.Int
}

var tabMemo = map[int]*constTab{}

func constTable(a *Term) *constTab {
	if t, ok := tabMemo[a.id]; ok {
		return t
	}
	var res *constTab
	defer func() { tabMemo[a.id] = res }()
	if a.Sort.Elem.K != SBV || a.Sort.Idx.K != SBV {
		return nil
	}
	m := map[int64]*big.Int{}
	n := 0
	top := int64(-1)
	x := a
	for x.Op == OStore {
		k, e := x.Args[1], x.Args[2]
		if k.Op != OConst || e.Op != OConst || !k.Val.IsInt64() || k.Val.Int64() > 4096 {
			return nil
		}
		j := k.Val.Int64()
		if _, ok := m[j]; !ok {
			m[j] = e.Val
		}
		if j > top {
			top = j
		}
		n++
		x = x.Args[0]
	}
	if n < 12 || x.Op != OKArr || x.Args[0].Op != OConst {
		return nil
	}
	get := func(j int64) *big.Int {
		if e, ok := m[j]; ok {
			return e
		}
		return x.Args[0].Val
	}
	t := &constTab{}
	cnt := map[string]int{}
	for j := int64(0); j <= top; {
		r := tabRun{lo: j, hi: j, val: get(j)}
		for r.hi < top && get(r.hi+1).Cmp(r.val) == 0 {
			r.hi++
		}
		if r.hi == j {
			r.slope = 1
			for r.hi < top && get(r.hi+1).Cmp(new(big.Int).Add(get(r.hi), bigOne)) == 0 {
				// leave the next entry to a run of equal ones
				if r.hi+2 <= top && get(r.hi+2).Cmp(get(r.hi+1)) == 0 {
					break
				}
				r.hi++
			}
		} else {
			cnt[r.val.String()] += int(r.hi - r.lo + 1)
		}
		t.runs = append(t.runs, r)
		j = r.hi + 1
	}
	if len(t.runs) > n/3 {
		return nil
	}
	// entries past the end have the value of the base array
	t.def = x.Args[0].Val
	if top+1 < int64(1)<<16 {
		t.runs = append(t.runs, tabRun{lo: top + 1, hi: -1, val: t.def})
	}
	best := 0
	def := t.def
	for _, r := range t.runs {
		if r.slope == 0 && cnt[r.val.String()] > best {
			best, def = cnt[r.val.String()], r.val
		}
	}
	var keep []tabRun
	for _, r := range t.runs {
		if r.slope == 0 && r.val.Cmp(def) == 0 {
			continue
		}
		keep = append(keep, r)
	}
	t.runs, t.def = keep, def
	res = t
	return res
}

func (t *constTab) at(el *Sort, i *Term) *Term {
	r := bvBig(el.W, t.def)
	if i.Op == OZext && i.Args[0].Sort.W >= 8 {
		i = i.Args[0]
	}
	w := i.Sort.W
	top := int64(1)<<62 - 1
	if w < 62 {
		top = int64(1)<<uint(w) - 1
	}
	for j := len(t.runs) - 1; j >= 0; j-- {
		x := t.runs[j]
		if x.lo > top {
			continue
		}
		c := ule(bv(w, x.lo), i)
		if x.hi >= 0 && x.hi < top {
			c = and(c, ule(i, bv(w, x.hi)))
		}
		v := bvBig(el.W, x.val)
		if x.slope == 1 && x.hi > x.lo {
			v = bvadd(resize(bvsub(i, bv(w, x.lo)), el.W, false), v)
		}
		r = ite(c, v, r)
	}
	return r
}

func sel0(a, i *Term) *Term {
	if a.Op == OStore && i.Op != OConst {
		if t := constTable(a); t != nil {
			return t.at(a.Sort.Elem, i)
		}
	}
	for {
		switch a.Op {
		case OStore:
			c := eq(a.Args[1], i)
			if c == tTrue {
				return a.Args[2]
			}
			if c == tFalse {
				a = a.Args[0]
				continue
			}
			return ite(c, a.Args[2], sel(a.Args[0], i))
		case OACopy:
			dst, dlo, n, src, slo := a.Args[0], a.Args[1], a.Args[2], a.Args[3], a.Args[4]
			rel := bvsub(i, dlo)
			c := ult(rel, n)
			if c == tFalse {
				a = dst
				continue
			}
			sv := sel(src, bvadd(rel, slo))
			if c == tTrue {
				return sv
			}
			return ite(c, sv, sel(dst, i))
		case OKArr:
			return a.Args[0]
		case OIte:
			return ite(a.Args[0], sel(a.Args[1], i), sel(a.Args[2], i))
		}
		break
	}
	// constant-false after partial descent: rebuild
	t := mk(OSelect, a.Sort.Elem, []*Term{a, i}, nil, "", 0, 0)
	if a.hi != nil && t.hi == nil && t.Sort.K == SBV {
		t.lo, t.hi = a.lo, a.hi
	}
	return t
}

func store(a, i, v *Term) *Term {
	if a.Sort.Elem != v.Sort {
		panic(fmt.Sprintf("store sort mismatch %s <- %s", a.Sort, v.Sort))
	}
	if a.Op == OStore && a.Args[1] == i {
		a = a.Args[0]
	}
	if v.Op == OSelect && v.Args[0] == a && v.Args[1] == i {
		return a
	}
	return mk(OStore, a.Sort, []*Term{a, i, v}, nil, "", 0, 0)
}

func karr(s *Sort, v *Term) *Term {
	if s.Elem != v.Sort {
		panic("karr sort")
	}
	return mk(OKArr, s, []*Term{v}, nil, "", 0, 0)
}

func acopy(dst, dlo, n, src, slo *Term) *Term {
	if n.Op == OConst && n.Val.Sign() == 0 {
		return dst
	}
	if dst.Sort != src.Sort {
		panic(fmt.Sprintf("acopy sorts %s %s", dst.Sort, src.Sort))
	}
	if dst == src && dlo == slo {
		return dst
	}
	if n.Op == OConst && n.Val.Cmp(big.NewInt(4)) <= 0 {
		m := int(n.Val.Int64())
		r := dst
		for j := 0; j < m; j++ {
			r = store(r, bvadd(dlo, bv(64, int64(j))), sel(src, bvadd(slo, bv(64, int64(j)))))
		}
		return r
	}
	return mk(OACopy, dst.Sort, []*Term{dst, dlo, n, src, slo}, nil, "", 0, 0)
}

// ---------- Int ----------

func iadd(a, b *Term) *Term {
	if a.Op == OConst && b.Op == OConst {
		return intc(new(big.Int).Add(a.Val, b.Val))
	}
	if a.Op == OConst && a.Val.Sign() == 0 {
		return b
	}
	if b.Op == OConst && b.Val.Sign() == 0 {
		return a
	}
	return mk(OIAdd, intSort, []*Term{a, b}, nil, "", 0, 0)
}
func isub(a, b *Term) *Term {
	if a.Op == OConst && b.Op == OConst {
		return intc(new(big.Int).Sub(a.Val, b.Val))
	}
	if a == b {
		return intc(bigZero)
	}
	if b.Op == OConst && b.Val.Sign() == 0 {
		return a
	}
	return mk(OISub, intSort, []*Term{a, b}, nil, "", 0, 0)
}
func imul(a, b *Term) *Term {
	if a.Op == OConst && b.Op == OConst {
		return intc(new(big.Int).Mul(a.Val, b.Val))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(OIMul, intSort, []*Term{a, b}, nil, "", 0, 0)
}
func idiv(a, b *Term) *Term { // euclidean (SMT div)
	if a.Op == OConst && b.Op == OConst && b.Val.Sign() != 0 {
		q, _ := new(big.Int).DivMod(a.Val, b.Val, new(big.Int))
		return intc(q)
	}
	return mk(OIDiv, intSort, []*Term{a, b}, nil, "", 0, 0)
}
func imod(a, b *Term) *Term {
	if a.Op == OConst && b.Op == OConst && b.Val.Sign() != 0 {
		return intc(new(big.Int).Mod(a.Val, b.Val))
	}
	return mk(OIMod, intSort, []*Term{a, b}, nil, "", 0, 0)
}
func ilt(a, b *Term) *Term {
	if a.Op == OConst && b.Op == OConst {
		return boolT(a.Val.Cmp(b.Val) < 0)
	}
	if a == b {
		return tFalse
	}
	return mk(OILt, boolSort, []*Term{a, b}, nil, "", 0, 0)
}
func ile(a, b *Term) *Term {
	if a.Op == OConst && b.Op == OConst {
		return boolT(a.Val.Cmp(b.Val) <= 0)
	}
	if a == b {
		return tTrue
	}
	return mk(OILe, boolSort, []*Term{a, b}, nil, "", 0, 0)
}
func bv2nat(a *Term) *Term {
	if a.Op == OConst {
		return intc(a.Val)
	}
	if a.Op == OInt2Bv {
		// caller must make sure of range; keep mod form
		return imod(a.Args[0], intc(pow2(a.Sort.W)))
	}
	return mk(OBv2Nat, intSort, []*Term{a}, nil, "", 0, 0)
}
func bv2int(a *Term) *Term { // signed
	if nonneg(a) {
		return bv2nat(a)
	}
	if a.Op == OConst {
		return intc(signed(a.Val, a.Sort.W))
	}
	return ite(slt(a, bv(a.Sort.W, 0)), isub(bv2nat(a), intc(pow2(a.Sort.W))), bv2nat(a))
}
func int2bv(w int, a *Term) *Term {
	if a.Op == OConst {
		return bvBig(w, a.Val)
	}
	if a.Op == OBv2Nat && a.Args[0].Sort.W == w {
		return a.Args[0]
	}
	if a.Op == OBv2Nat && a.Args[0].Sort.W < w {
		return zext(w, a.Args[0])
	}
	return mk(OInt2Bv, bvSort(w), []*Term{a}, nil, "", 0, 0)
}

// ---------- substitution ----------

func rebuild(t *Term, args []*Term) *Term {
	switch t.Op {
	case ONot:
		return not(args[0])
	case OAnd:
		return and(args...)
	case OOr:
		return or(args...)
	case OEq:
		return eq(args[0], args[1])
	case OIte:
		return ite(args[0], args[1], args[2])
	case OForall:
		return forall(args[0], args[1])
	case OAdd:
		r := args[0]
		for _, a := range args[1:] {
			r = bvadd(r, a)
		}
		return r
	case OMulC:
		return mulc(t.Val, args[0])
	case OMul:
		return bvmul(args[0], args[1])
	case OUdiv:
		return bvudiv(args[0], args[1])
	case OUrem:
		return bvurem(args[0], args[1])
	case OSdiv:
		return bvsdiv(args[0], args[1])
	case OSrem:
		return bvsrem(args[0], args[1])
	case OBAnd:
		return bvand(args[0], args[1])
	case OBOr:
		return bvor(args[0], args[1])
	case OBXor:
		return bvxor(args[0], args[1])
	case OBNot:
		return bvnot(args[0])
	case OShl:
		return shl(args[0], args[1])
	case OLshr:
		return lshr(args[0], args[1])
	case OAshr:
		return ashr(args[0], args[1])
	case OUlt:
		return ult(args[0], args[1])
	case OUle:
		return ule(args[0], args[1])
	case OSlt:
		return slt(args[0], args[1])
	case OSle:
		return sle(args[0], args[1])
	case OExtract:
		return extract(t.I1, t.I2, args[0])
	case OConcat:
		return concat(args[0], args[1])
	case OZext:
		return zext(t.Sort.W, args[0])
	case OSext:
		return sext(t.Sort.W, args[0])
	case OSelect:
		return sel(args[0], args[1])
	case OStore:
		return store(args[0], args[1], args[2])
	case OACopy:
		return acopy(args[0], args[1], args[2], args[3], args[4])
	case OKArr:
		return karr(t.Sort, args[0])
	case OIAdd:
		return iadd(args[0], args[1])
	case OISub:
		return isub(args[0], args[1])
	case OIMul:
		return imul(args[0], args[1])
	case OIDiv:
		return idiv(args[0], args[1])
	case OIMod:
		return imod(args[0], args[1])
	case OILt:
		return ilt(args[0], args[1])
	case OILe:
		return ile(args[0], args[1])
	case OBv2Nat:
		return bv2nat(args[0])
	case OInt2Bv:
		return int2bv(t.Sort.W, args[0])
	case OUF:
		r := mk(OUF, t.Sort, args, nil, t.Name, 0, 0)
		if t.hi != nil && r.hi == nil {
			r.lo, r.hi = t.lo, t.hi
		}
		return r
	}
	return mk(t.Op, t.Sort, args, t.Val, t.Name, t.I1, t.I2)
}

// subst replaces terms per map m (bottom-up, memoised).
func subst(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.Args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	changed := false
	args := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		args[i] = subst(a, m, memo)
		if args[i] != a {
			changed = true
		}
	}
	r := t
	if changed {
		r = rebuild(t, args)
	}
	memo[t] = r
	return r
}

// substBound substitutes a bound variable (skips subterms without bound vars).
func substBound(t, b, v *Term, memo map[*Term]*Term) *Term {
	if t == b {
		return v
	}
	if !t.hasBound || len(t.Args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	changed := false
	args := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		args[i] = substBound(a, b, v, memo)
		if args[i] != a {
			changed = true
		}
	}
	r := t
	if changed {
		r = rebuild(t, args)
	}
	memo[t] = r
	return r
}

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite", OAdd: "bvadd", OMul: "bvmul", OUdiv: "bvudiv", OUrem: "bvurem", OSdiv: "bvsdiv", OSrem: "bvsrem",
	OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OConcat: "concat", OSelect: "select", OStore: "store",
	OIAdd: "+", OISub: "-", OIMul: "*", OILt: "<", OILe: "<=", OIDiv: "div", OIMod: "mod", OBv2Nat: "bv2nat", OForall: "forall", OACopy: "acopy", OKArr: "karr", OMulC: "mulc", OExtract: "extract", OZext: "zext", OSext: "sext", OInt2Bv: "int2bv"}

func (t *Term) Short() string { return t.str(6) }
func (t *Term) str(d int) string {
	switch t.Op {
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OConst:
		if t.Sort.K == SBV && t.Sort.W >= 16 {
			s := signed(t.Val, t.Sort.W)
			if s.Sign() < 0 && s.BitLen() < 20 {
				return s.String()
			}
		}
		return t.Val.String()
	case OVar, OBound:
		return t.Name
	}
	n := t.Name
	if n == "" {
		n = opNames[t.Op]
	}
	if t.Op == OMulC {
		n = "*" + signed(t.Val, t.Sort.W).String()
	}
	if t.Op == OExtract {
		n = fmt.Sprintf("ext[%d:%d]", t.I1, t.I2)
	}
	if d == 0 {
		return "(" + n + " ...)"
	}
	var b strings.Builder
	b.WriteString("(" + n)
	for _, a := range t.Args {
		b.WriteString(" " + a.str(d-1))
	}
	b.WriteString(")")
	return b.String()
}
