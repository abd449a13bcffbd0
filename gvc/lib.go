package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"math/big"
	"strings"
)

type libFn func(v *V, a []Value, st *State, c *Ctx, e *ast.CallExpr, k KV)

var libModels map[string]libFn

func intV(t *Term) Value { return mkv(tInt, t) }

func void() Value { return Value{types.NewTuple(), nil} }

func (v *V) bytesOf(st *State, s Value) (arr, off, ln *Term) {
	if isString(s.T) {
		return s.L[0], s.L[1], s.L[2]
	}
	return v.readCont(st, elemOf(s.T), s.L[0])[0], s.L[1], s.L[2]
}

func errConst(t string) *Term {
	return tabID()
}

func init() {
	m := map[string]libFn{}
	libModels = m
	// bytes
	m["bytes.Equal"] = func(v *V, a []Value, st *State, c *Ctx, e *ast.CallExpr, k KV) {
		xa, xo, xl := v.bytesOf(st, a[0])
		ya, yo, yl := v.bytesOf(st, a[1])
		k(st, boolV(seqEq(xa, xo, xl, ya, yo, yl)))
	}
	cmp := func(v *V, a []Value, st *State, c *Ctx, e *ast.CallExpr, k KV) {
		xa, xo, xl := v.bytesOf(st, a[0])
		ya, yo, yl := v.bytesOf(st, a[1])
		k(st, intV(v.seqCompare(st, c, xa, xo, xl, ya, yo, yl)))
	}
	m["bytes.Compare"] = cmp
	m["strings.Compare"] = cmp
	hasPrefix := func(v *V, a []Value, st *State, c *Ctx, e *ast.CallExpr, k KV) {
		xa, xo, xl := v.bytesOf(st, a[0])
		ya, yo, yl := v.bytesOf(st, a[1])
		k(st, boolV(and(ule(yl, xl), seqEq(xa, xo, yl, ya, yo, yl))))
	}
	m["bytes.HasPrefix"] = hasPrefix
	m["strings.HasPrefix"] = hasPrefix
	m["strings.TrimPrefix"] = func(v *V, a []Value, st *State, c *Ctx, e *ast.CallExpr, k KV) {
		xa, xo, xl := v.bytesOf(st, a[0])
		ya, yo, yl := v.bytesOf(st, a[1])
		h := and(ule(yl, xl), seqEq(xa, xo, yl, ya, yo, yl))
		v.branch(st, h, func(st *State) {
			k(st, Value{tString, []*Term{xa, bvadd(xo, yl), bvsub(xl, yl)}})
		}, func(st *State) { k(st, a[0]) })
	}
	m["runtime.KeepAlive"] = func(v *V, a []Value, st *State, c *Ctx, e *ast.CallExpr, k KV) { k(st, void()) }

	// encoding/binary
	for _, be := range []bool{true, false} {
		be := be
		n := "littleEndian"
		if be {
			n = "bigEndian"
		}
		for _, w := range []int{2, 4, 8} {
			w := w
			m[fmt.Sprintf("encoding/binary.%s.Uint%d", n, w*8)] = func(v *V, a []Value, st *State, c *Ctx, e *ast.CallExpr, k KV) {
				s := a[1]
				v.check(st, c, ule(bv(64, int64(w)), s.L[2]), "index out of range", e.Pos(), func(st *State) {
					var r *Term
					for i := 0; i < w; i++ {
						j := i
						if !be {
							j = w - 1 - i
						}
						b := v.read(st, v.elemLoc(s, bv(64, int64(j)))).term()
						if r == nil {
							r = b
						} else {
							r = concat(r, b)
						}
					}
					k(st, mkv(uintT(w*8), r))
				})
			}
			put := func(v *V, st *State, s Value, x *Term) {
				for i := 0; i < w; i++ {
					j := i
					if be {
						j = w - 1 - i
					}
					v.write(st, v.elemLoc(s, bv(64, int64(i))), mkv(tByte, extract(8*j+7, 8*j, x)))
				}
			}
			m[fmt.Sprintf("encoding/binary.%s.PutUint%d", n, w*8)] = func(v *V, a []Value, st *State, c *Ctx, e *ast.CallExpr, k KV) {
				s, x := a[1], a[2].term()
				v.check(st, c, ule(bv(64, int64(w)), s.L[2]), "index out of range", e.Pos(), func(st *State) {
					put(v, st, s, x)
					k(st, void())
				})
			}
		}
	}

	// math/bits
	for _, w := range []int{8, 16, 32, 64} {
		w := w
		un := func(f func(x *Term) *Term) libFn {
			return func(v *V, a []Value, st *State, c *Ctx, e *ast.CallExpr, k KV) { k(st, intV(f(a[0].term()))) }
		}
		names := []string{fmt.Sprint(w)}
		if w == 64 {
			names = append(names, "")
		}
		for _, n := range names {
			m["math/bits.Len"+n] = un(func(x *Term) *Term { return bitLen(x) })
			m["math/bits.LeadingZeros"+n] = un(func(x *Term) *Term { return bvsub(bv(64, int64(w)), bitLen(x)) })
			m["math/bits.TrailingZeros"+n] = un(func(x *Term) *Term {
				r := bv(64, int64(w))
				for i := w - 1; i >= 0; i-- {
					r = ite(eq(extract(i, i, x), bv(1, 1)), bv(64, int64(i)), r)
				}
				return r
			})
			m["math/bits.OnesCount"+n] = un(func(x *Term) *Term {
				r := bv(64, 0)
				for i := 0; i < w; i++ {
					r = bvadd(r, zext(64, extract(i, i, x)))
				}
				return r
			})
		}
	}
	m["math/bits.Add64"] = func(v *V, a []Value, st *State, c *Ctx, e *ast.CallExpr, k KV) {
		x, y, cy := a[0].term(), a[1].term(), a[2].term()
		s := bvadd(zext(66, x), bvadd(zext(66, y), zext(66, cy)))
		k(st, tupleVal([]Value{mkv(tUint64, extract(63, 0, s)), mkv(tUint64, zext(64, extract(64, 64, s)))}))
	}
	m["math/bits.Sub64"] = func(v *V, a []Value, st *State, c *Ctx, e *ast.CallExpr, k KV) {
		x, y, b := a[0].term(), a[1].term(), a[2].term()
		s := bvsub(zext(66, x), bvadd(zext(66, y), zext(66, b)))
		k(st, tupleVal([]Value{mkv(tUint64, extract(63, 0, s)), mkv(tUint64, zext(64, extract(64, 64, s)))}))
	}
	m["math/bits.Mul64"] = func(v *V, a []Value, st *State, c *Ctx, e *ast.CallExpr, k KV) {
		p := bvmul(zext(128, a[0].term()), zext(128, a[1].term()))
		k(st, tupleVal([]Value{mkv(tUint64, extract(127, 64, p)), mkv(tUint64, extract(63, 0, p))}))
	}

	// errors, fmt
	newErr := func(v *V, a []Value, st *State, c *Ctx, e *ast.CallExpr, k KV) {
		k(st, mkv(tError, errAt(v, e)))
	}
	m["errors.New"] = newErr
	m["fmt.Errorf"] = newErr
	m["errors.Is"] = func(v *V, a []Value, st *State, c *Ctx, e *ast.CallExpr, k KV) {
		k(st, boolV(or(eq(a[0].term(), a[1].term()), uf("errorsIs", boolSort, a[0].term(), a[1].term()))))
	}
	anyStr := func(v *V, a []Value, st *State, c *Ctx, e *ast.CallExpr, k KV) {
		if v.quant > 0 {
			v.fail(e.Pos(), "string formatting under a quantifier")
		}
		x, f := freshValue("str", tString, nil)
		for _, t := range f {
			st.add(t, false)
		}
		k(st, x)
	}
	m["fmt.Sprintf"] = anyStr
	m["fmt.Sprint"] = anyStr
	m["fmt.Sprintln"] = anyStr
	m["strconv.Itoa"] = anyStr
	m["strconv.Quote"] = anyStr
	for _, n := range []string{"Printf", "Print", "Println"} {
		m["fmt."+n] = func(v *V, a []Value, st *State, c *Ctx, e *ast.CallExpr, k KV) {
			k(st, tupleVal([]Value{intV(bv(64, 0)), zeroValue(tError)}))
		}
	}

	// sync
	lock := func(op string) libFn {
		return func(v *V, a []Value, st *State, c *Ctx, e *ast.CallExpr, k KV) {
			v.check(st, c, not(eq(a[0].term(), bv(64, 0))), "nil pointer dereference", e.Pos(), func(st *State) {
				l := v.ptrLoc(a[0])
				x := v.read(st, l)
				s := x.L[0]
				full := bv(8, 255)
				set := func(st *State, t *Term) { v.write(st, l, Value{x.T, []*Term{t}}); k(st, void()) }
				switch op {
				case "Lock":
					v.check(st, c, eq(s, bv(8, 0)), "self-deadlock: Lock of a mutex this goroutine already holds", e.Pos(), func(st *State) { set(st, full) })
				case "Unlock":
					v.check(st, c, eq(s, full), "Unlock of unlocked mutex", e.Pos(), func(st *State) { set(st, bv(8, 0)) })
				case "RLock":
					v.check(st, c, not(eq(s, full)), "self-deadlock: RLock of a mutex this goroutine holds for writing", e.Pos(), func(st *State) {
						st.add(ult(s, bv(8, 200)), false)
						set(st, bvadd(s, bv(8, 1)))
					})
				case "RUnlock":
					v.check(st, c, and(not(eq(s, bv(8, 0))), not(eq(s, full))), "RUnlock of unlocked mutex", e.Pos(), func(st *State) { set(st, bvsub(s, bv(8, 1))) })
				}
			})
		}
	}
	for _, t := range []string{"Mutex", "RWMutex"} {
		for _, op := range []string{"Lock", "Unlock", "RLock", "RUnlock"} {
			m["sync."+t+"."+op] = lock(op)
		}
	}
	for _, t := range []string{"Uint64", "Int64", "Uint32", "Int32"} {
		t := t
		m["sync/atomic.Load"+t] = func(v *V, a []Value, st *State, c *Ctx, e *ast.CallExpr, k KV) {
			k(st, v.read(st, v.ptrLoc(a[0])))
		}
		m["sync/atomic.Store"+t] = func(v *V, a []Value, st *State, c *Ctx, e *ast.CallExpr, k KV) {
			v.write(st, v.ptrLoc(a[0]), a[1])
			k(st, void())
		}
		m["sync/atomic.Add"+t] = func(v *V, a []Value, st *State, c *Ctx, e *ast.CallExpr, k KV) {
			l := v.ptrLoc(a[0])
			x := v.read(st, l)
			r := mkv(x.T, bvadd(x.term(), a[1].term()))
			v.write(st, l, r)
			k(st, r)
		}
		m["sync/atomic.CompareAndSwap"+t] = func(v *V, a []Value, st *State, c *Ctx, e *ast.CallExpr, k KV) {
			l := v.ptrLoc(a[0])
			x := v.read(st, l)
			ok := eq(x.term(), a[1].term())
			v.write(st, l, mkv(x.T, ite(ok, a[2].term(), x.term())))
			k(st, boolV(ok))
		}
	}

	contModels(m)

	// math/big
	bigModels(m)

	// sort.Search: by its documented contract on a monotone predicate it returns the
	// smallest index satisfying it; without monotonicity only the local facts hold.
	m["internal/bytealg.MakeNoZero"] = func(v *V, a []Value, st *State, c *Ctx, e *ast.CallExpr, k KV) {
		n := a[0].term()
		ref := v.allocSlice(st, tByte, zeroCont(tByte))
		k(st, Value{tBytes, []*Term{ref, bv(64, 0), n, n}})
	}
	m["internal/bytealg.IndexByte"] = func(v *V, a []Value, st *State, c *Ctx, e *ast.CallExpr, k KV) {
		xa, xo, xl := v.bytesOf(st, a[0])
		b := a[1].term()
		if v.quant > 0 {
			v.fail(e.Pos(), "IndexByte under a quantifier")
		}
		i := freshBounded("ixb", 64, bigZero, lenHi)
		found := freshVar("found", boolSort)
		kk := freshBound()
		st.add(imp(found, and(ult(i, xl), eq(sel(xa, bvadd(xo, i)), b))), false)
		st.add(imp(not(found), eq(i, xl)), false)
		st.add(forall(kk, imp(ult(kk, i), not(eq(sel(xa, bvadd(xo, kk)), b)))), false)
		k(st, intV(ite(found, i, bv(64, -1))))
	}
	m["bytes.IndexByte"] = m["internal/bytealg.IndexByte"]
	// time and randomness: arbitrary values
	m["time.Now"] = func(v *V, a []Value, st *State, c *Ctx, e *ast.CallExpr, k KV) {
		f := calleeObj(c.fr.pkg.Info, e.Fun).(*types.Func)
		x, fs := freshValue("now", f.Type().(*types.Signature).Results().At(0).Type(), refMax)
		for _, t := range fs {
			st.add(t, false)
		}
		k(st, x)
	}
}

var errSites = map[string]*Term{}

// a new non-nil error value (identity per call site)
// plainErrs: errors made by errors.New or fmt.Errorf: their dynamic type is
// private to the standard library
var plainErrs = map[string]bool{}

func plainErrInit(vi *varInit) bool {
	if vi == nil || vi.n != 1 {
		return false
	}
	call, ok := vi.expr.(*ast.CallExpr)
	if !ok {
		return false
	}
	se, ok := call.Fun.(*ast.SelectorExpr)
	if !ok {
		return false
	}
	f, ok := vi.pkg.Info.Uses[se.Sel].(*types.Func)
	return ok && (f.FullName() == "errors.New" || f.FullName() == "fmt.Errorf")
}

func errAt(v *V, e ast.Node) *Term {
	key := fmt.Sprint(e.Pos())
	t, ok := errSites[key]
	if !ok {
		t = tabID()
		errSites[key] = t
		plainErrs[t.Val.String()] = true
	}
	return t
}

func uintT(w int) types.Type {
	switch w {
	case 8:
		return types.Typ[types.Uint8]
	case 16:
		return types.Typ[types.Uint16]
	case 32:
		return types.Typ[types.Uint32]
	}
	return tUint64
}

func bitLen(x *Term) *Term {
	w := x.Sort.W
	r := bv(64, 0)
	for i := 0; i < w; i++ {
		r = ite(eq(extract(i, i, x), bv(1, 1)), bv(64, int64(i+1)), r)
	}
	return r
}

// ---------- math/big ----------

func (v *V) bigRead(st *State, p Value) *Term { return v.read(st, v.ptrLoc(p)).L[0] }
func (v *V) bigWrite(st *State, p Value, t *Term) {
	l := v.ptrLoc(p)
	v.write(st, l, Value{l.T, []*Term{t}})
}

func bigModels(m map[string]libFn) {
	chk := func(v *V, ps []Value, st *State, c *Ctx, e *ast.CallExpr, k K) {
		var cs []*Term
		for _, p := range ps {
			if _, ok := p.T.Underlying().(*types.Pointer); ok {
				cs = append(cs, not(eq(p.term(), bv(64, 0))))
			}
		}
		v.check(st, c, and(cs...), "nil pointer dereference", e.Pos(), k)
	}
	absT := func(x *Term) *Term { return ite(ilt(x, intc(bigZero)), isub(intc(bigZero), x), x) }
	bin := func(f func(x, y *Term) *Term) libFn {
		return func(v *V, a []Value, st *State, c *Ctx, e *ast.CallExpr, k KV) {
			chk(v, a, st, c, e, func(st *State) {
				v.bigWrite(st, a[0], f(v.bigRead(st, a[1]), v.bigRead(st, a[2])))
				k(st, a[0])
			})
		}
	}
	un := func(f func(x *Term) *Term) libFn {
		return func(v *V, a []Value, st *State, c *Ctx, e *ast.CallExpr, k KV) {
			chk(v, a, st, c, e, func(st *State) {
				v.bigWrite(st, a[0], f(v.bigRead(st, a[1])))
				k(st, a[0])
			})
		}
	}
	get := func(t types.Type, f func(x *Term) *Term) libFn {
		return func(v *V, a []Value, st *State, c *Ctx, e *ast.CallExpr, k KV) {
			chk(v, a[:1], st, c, e, func(st *State) { k(st, mkv(t, f(v.bigRead(st, a[0])))) })
		}
	}
	b := "math/big.Int."
	m["math/big.NewInt"] = func(v *V, a []Value, st *State, c *Ctx, e *ast.CallExpr, k KV) {
		f := calleeObj(c.fr.pkg.Info, e.Fun).(*types.Func)
		pt := f.Type().(*types.Signature).Results().At(0).Type()
		ref := v.newObj(st, Value{pt.Underlying().(*types.Pointer).Elem(), []*Term{bv2int(a[0].term())}})
		k(st, mkv(pt, ref))
	}
	m[b+"Add"] = bin(iadd)
	m[b+"Sub"] = bin(isub)
	m[b+"Mul"] = bin(imul)
	m[b+"Set"] = un(func(x *Term) *Term { return x })
	m[b+"Neg"] = un(func(x *Term) *Term { return isub(intc(bigZero), x) })
	m[b+"Abs"] = un(absT)
	m[b+"SetUint64"] = func(v *V, a []Value, st *State, c *Ctx, e *ast.CallExpr, k KV) {
		chk(v, a[:1], st, c, e, func(st *State) { v.bigWrite(st, a[0], bv2nat(a[1].term())); k(st, a[0]) })
	}
	m[b+"SetInt64"] = func(v *V, a []Value, st *State, c *Ctx, e *ast.CallExpr, k KV) {
		chk(v, a[:1], st, c, e, func(st *State) { v.bigWrite(st, a[0], bv2int(a[1].term())); k(st, a[0]) })
	}
	m[b+"Uint64"] = get(tUint64, func(x *Term) *Term { return int2bv(64, absT(x)) })
	m[b+"Int64"] = get(types.Typ[types.Int64], func(x *Term) *Term { return int2bv(64, x) })
	z := intc(bigZero)
	m[b+"Sign"] = get(tInt, func(x *Term) *Term {
		return ite(ilt(x, z), bv(64, -1), ite(ilt(z, x), bv(64, 1), bv(64, 0)))
	})
	m[b+"IsUint64"] = get(tBool, func(x *Term) *Term { return and(ile(z, x), ilt(x, intc(pow2(64)))) })
	m[b+"IsInt64"] = get(tBool, func(x *Term) *Term {
		return and(ile(intc(new(big.Int).Neg(pow2(63))), x), ilt(x, intc(pow2(63))))
	})
	m[b+"Cmp"] = func(v *V, a []Value, st *State, c *Ctx, e *ast.CallExpr, k KV) {
		chk(v, a, st, c, e, func(st *State) {
			x, y := v.bigRead(st, a[0]), v.bigRead(st, a[1])
			k(st, intV(ite(ilt(x, y), bv(64, -1), ite(ilt(y, x), bv(64, 1), bv(64, 0)))))
		})
	}
	m[b+"CmpAbs"] = func(v *V, a []Value, st *State, c *Ctx, e *ast.CallExpr, k KV) {
		chk(v, a, st, c, e, func(st *State) {
			x, y := absT(v.bigRead(st, a[0])), absT(v.bigRead(st, a[1]))
			k(st, intV(ite(ilt(x, y), bv(64, -1), ite(ilt(y, x), bv(64, 1), bv(64, 0)))))
		})
	}
	// And with a mask 2^n-1, Or/shift by constants are expressed arithmetically where possible
	m[b+"BitLen"] = get(tInt, func(x *Term) *Term {
		r := uf("intBitLen", bvSort(64), x)
		if r.hi == nil {
			r.lo, r.hi = bigZero, lenHi
		}
		return r
	})
	div := func(q bool, euclid bool) libFn {
		return func(v *V, a []Value, st *State, c *Ctx, e *ast.CallExpr, k KV) {
			chk(v, a, st, c, e, func(st *State) {
				x, y := v.bigRead(st, a[1]), v.bigRead(st, a[2])
				v.check(st, c, not(eq(y, z)), "division by zero", e.Pos(), func(st *State) {
					var r *Term
					if euclid {
						if q {
							r = idiv(x, y)
						} else {
							r = imod(x, y)
						}
					} else { // truncated
						ax, ay := absT(x), absT(y)
						if q {
							d := idiv(ax, ay)
							r = ite(eq(ilt(x, z), ilt(y, z)), d, isub(z, d))
						} else {
							d := imod(ax, ay)
							r = ite(ilt(x, z), isub(z, d), d)
						}
					}
					v.bigWrite(st, a[0], r)
					k(st, a[0])
				})
			})
		}
	}
	m[b+"Div"] = div(true, true)
	m[b+"Mod"] = div(false, true)
	m[b+"Quo"] = div(true, false)
	m[b+"Rem"] = div(false, false)
	m[b+"SetBytes"] = func(v *V, a []Value, st *State, c *Ctx, e *ast.CallExpr, k KV) {
		chk(v, a[:1], st, c, e, func(st *State) {
			arr, off, ln := v.bytesOf(st, a[1])
			v.bigWrite(st, a[0], v.intOfBytes(st, arr, off, ln))
			k(st, a[0])
		})
	}
	m[b+"Bytes"] = func(v *V, a []Value, st *State, c *Ctx, e *ast.CallExpr, k KV) {
		chk(v, a[:1], st, c, e, func(st *State) {
			x := absT(v.bigRead(st, a[0]))
			arr := uf("bytesOfInt", byteArr, x)
			ln := uf("bytesOfIntLen", bvSort(64), x)
			if ln.hi == nil {
				ln.lo, ln.hi = bigZero, lenHi
			}
			v.bigFacts(st, x, arr, ln)
			ref := v.allocSlice(st, tByte, []*Term{arr})
			k(st, Value{tBytes, []*Term{ref, bv(64, 0), ln, ln}})
		})
	}
}

// intOfBytes: big-endian value of a byte sequence (exact for constant lengths).
func (v *V) intOfBytes(st *State, arr, off, ln *Term) *Term {
	if ln.Op == OConst && ln.Val.Cmp(big.NewInt(40)) <= 0 {
		n := int(ln.Val.Int64())
		if n == 0 {
			return intc(bigZero)
		}
		var r *Term
		for i := 0; i < n; i++ {
			b := sel(arr, bvadd(off, bv(64, int64(i))))
			if r == nil {
				r = b
			} else {
				r = concat(r, b)
			}
		}
		t := bv2nat(r)
		st.add(eq(uf("intOfSeq", intSort, uf("seq", seqSort, arr, off, ln)), t), false)
		return t
	}
	t := uf("intOfSeq", intSort, uf("seq", seqSort, arr, off, ln))
	st.add(ile(intc(bigZero), t), false)
	// relation with the minimal encoding of the value: same length iff no leading zero
	ml := uf("bytesOfIntLen", bvSort(64), t)
	if ml.hi == nil {
		ml.lo, ml.hi = bigZero, lenHi
	}
	lead := eq(sel(arr, off), bv(8, 0))
	z := bv(64, 0)
	st.add(ule(ml, ln), false)
	st.add(imp(and(not(eq(ln, z)), not(lead)), and(eq(ml, ln), eq(uf("seq", seqSort, arr, off, ln), uf("seq", seqSort, uf("bytesOfInt", byteArr, t), z, ml)))), false)
	st.add(imp(eq(ln, z), eq(t, intc(bigZero))), false)
	return t
}

func (v *V) bigFacts(st *State, x, arr, ln *Term) {
	z := bv(64, 0)
	st.add(imp(not(eq(ln, z)), not(eq(sel(arr, z), bv(8, 0)))), false)
	st.add(eq(eq(ln, z), eq(x, intc(bigZero))), false)
	st.add(eq(uf("intOfSeq", intSort, uf("seq", seqSort, arr, z, ln)), x), false)
	for _, n := range []int{1, 2, 4, 8, 16, 20, 32, 64} {
		st.add(eq(ule(ln, bv(64, int64(n))), ilt(x, intc(pow2(8*n)))), false)
	}
}

var _ = strings.Contains
