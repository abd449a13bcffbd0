package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math/big"
)

func (v *V) eval(e ast.Expr, st *State, c *Ctx, k KV) {
	if st.dead() {
		return
	}
	info := c.fr.pkg.Info
	tv := info.Types[e]
	if tv.Value != nil {
		k(st, constValue(tv.Type, tv.Value))
		return
	}
	switch e := e.(type) {
	case *ast.ParenExpr:
		v.eval(e.X, st, c, k)
	case *ast.Ident:
		if e.Name == "nil" && tv.IsNil() {
			k(st, Value{types.Typ[types.UntypedNil], []*Term{bv(64, 0)}})
			return
		}
		o := info.Uses[e]
		if o == nil {
			o = info.Defs[e]
		}
		switch o := o.(type) {
		case *types.Var:
			k(st, v.read(st, v.varLoc(st, c.fr, o)))
		case *types.Func:
			k(st, v.funcVal(o, nil))
		default:
			v.fail(e.Pos(), "identifier %s (%T)", e.Name, o)
		}
	case *ast.SelectorExpr:
		v.selector(e, st, c, k)
	case *ast.IndexExpr:
		v.indexExpr(e, st, c, k)
	case *ast.SliceExpr:
		v.sliceExpr(e, st, c, k)
	case *ast.StarExpr:
		v.lv(e, st, c, func(st *State, l *Loc) { k(st, v.read(st, l)) })
	case *ast.UnaryExpr:
		v.unary(e, st, c, k)
	case *ast.BinaryExpr:
		v.binary(e, st, c, k)
	case *ast.CallExpr:
		v.call(e, st, c, k)
	case *ast.CompositeLit:
		v.composite(e, tv.Type, st, c, k)
	case *ast.FuncLit:
		id := tabID()
		closures[id.Val.String()] = &Closure{lit: e, frame: c.fr}
		k(st, Value{tv.Type, []*Term{id}})
	case *ast.TypeAssertExpr:
		v.eval(e.X, st, c, func(st *State, iv Value) {
			t := tv.Type
			if tu, ok := t.(*types.Tuple); ok {
				t = tu.At(0).Type()
			}
			v.typeTest(st, c, iv, t, k, func(st *State) {
				v.check(st, c, tFalse, "type assertion", e.Pos(), func(*State) {})
			})
		})
	default:
		v.fail(e.Pos(), "unsupported expression %T", e)
	}
}

func (v *V) funcVal(f *types.Func, recv *Value) Value {
	id := tabID()
	closures[id.Val.String()] = &Closure{fn: f, recv: recv}
	return Value{f.Type(), []*Term{id}}
}

// addressable expression?
func (v *V) addrable(e ast.Expr, c *Ctx) bool {
	info := c.fr.pkg.Info
	switch e := e.(type) {
	case *ast.ParenExpr:
		return v.addrable(e.X, c)
	case *ast.Ident:
		_, ok := info.Uses[e].(*types.Var)
		return ok
	case *ast.StarExpr:
		return true
	case *ast.SelectorExpr:
		if s := info.Selections[e]; s != nil {
			if s.Kind() != types.FieldVal {
				return false
			}
			t := info.Types[e.X].Type
			if _, ok := t.Underlying().(*types.Pointer); ok {
				return true
			}
			if len(s.Index()) > 1 && s.Indirect() {
				return true
			}
			return v.addrable(e.X, c)
		}
		_, ok := info.Uses[e.Sel].(*types.Var)
		return ok
	case *ast.IndexExpr:
		t := info.Types[e.X].Type
		switch u := t.Underlying().(type) {
		case *types.Slice:
			return true
		case *types.Pointer:
			_, ok := u.Elem().Underlying().(*types.Array)
			return ok
		case *types.Array:
			return v.addrable(e.X, c)
		}
	}
	return false
}

func (v *V) lv(e ast.Expr, st *State, c *Ctx, k func(*State, *Loc)) {
	info := c.fr.pkg.Info
	switch e := e.(type) {
	case *ast.ParenExpr:
		v.lv(e.X, st, c, k)
	case *ast.Ident:
		o := info.Uses[e]
		if o == nil {
			o = info.Defs[e]
		}
		vo, ok := o.(*types.Var)
		if !ok {
			v.fail(e.Pos(), "lvalue %s", e.Name)
		}
		k(st, v.varLoc(st, c.fr, vo))
	case *ast.StarExpr:
		v.eval(e.X, st, c, func(st *State, p Value) {
			v.check(st, c, not(eq(p.term(), bv(64, 0))), "nil pointer dereference", e.Pos(), func(st *State) {
				k(st, v.ptrLoc(p))
			})
		})
	case *ast.SelectorExpr:
		s := info.Selections[e]
		if s == nil {
			o := info.Uses[e.Sel]
			k(st, &Loc{kind: 2, obj: o, T: o.Type()})
			return
		}
		v.baseLoc(e.X, st, c, func(st *State, l *Loc) {
			v.fieldPath(st, c, l, s.Index(), e, k)
		})
	case *ast.IndexExpr:
		xt := info.Types[e.X].Type
		switch u := xt.Underlying().(type) {
		case *types.Slice:
			v.eval(e.X, st, c, func(st *State, s Value) {
				v.eval(e.Index, st, c, func(st *State, iv Value) {
					i := idx64(iv)
					v.check(st, c, ult(i, s.L[2]), "index out of range", e.Pos(), func(st *State) {
						k(st, v.elemLoc(s, i))
					})
				})
			})
		case *types.Map:
			v.eval(e.X, st, c, func(st *State, m Value) {
				v.eval(e.Index, st, c, func(st *State, kv Value) {
					v.assignConv(st, c, kv, u.Key(), e, func(st *State, kv Value) {
						k(st, &Loc{kind: 3, mapT: xt, ref: m.term(), mkey: kv, T: u.Elem()})
					})
				})
			})
		case *types.Array, *types.Pointer:
			at, ok := u.(*types.Array)
			if !ok {
				at = u.(*types.Pointer).Elem().Underlying().(*types.Array)
			}
			v.baseLoc(e.X, st, c, func(st *State, l *Loc) {
				v.eval(e.Index, st, c, func(st *State, iv Value) {
					i := idx64(iv)
					v.check(st, c, ult(i, bv(64, at.Len())), "index out of range", e.Pos(), func(st *State) {
						k(st, l.sub(Step{idx: i}, at.Elem()))
					})
				})
			})
		default:
			v.fail(e.Pos(), "index lvalue of %s", xt)
		}
	case *ast.CompositeLit:
		v.eval(e, st, c, func(st *State, x Value) {
			ref := v.newObj(st, x)
			k(st, v.ptrLoc(mkv(types.NewPointer(x.T), ref)))
		})
	default:
		v.fail(e.Pos(), "unsupported lvalue %T", e)
	}
}

func (v *V) elemLoc(s Value, i *Term) *Loc {
	et := elemOf(s.T)
	ref := s.L[0]
	if isView(ref) {
		l := views[ref.Val.String()]
		return l.sub(Step{idx: bvadd(s.L[1], i)}, et)
	}
	return &Loc{kind: 1, class: et, ref: ref, idx: bvadd(s.L[1], i), T: et}
}

// baseLoc: location of an expression, dereferencing pointers; non-addressable
// values are given a temporary.
func (v *V) baseLoc(e ast.Expr, st *State, c *Ctx, k func(*State, *Loc)) {
	t := c.fr.pkg.Info.Types[e].Type
	if t == nil {
		if id, ok := e.(*ast.Ident); ok {
			if o := c.fr.pkg.Info.Uses[id]; o != nil {
				t = o.Type()
			}
		}
	}
	if _, ok := t.Underlying().(*types.Pointer); ok {
		v.eval(e, st, c, func(st *State, p Value) {
			v.check(st, c, not(eq(p.term(), bv(64, 0))), "nil pointer dereference", e.Pos(), func(st *State) {
				k(st, v.ptrLoc(p))
			})
		})
		return
	}
	if v.addrable(e, c) {
		v.lv(e, st, c, k)
		return
	}
	v.eval(e, st, c, func(st *State, x Value) { k(st, v.tempLoc(st, c, x)) })
}

func (v *V) tempLoc(st *State, c *Ctx, x Value) *Loc {
	o := types.NewVar(token.NoPos, nil, fmt.Sprintf("tmp%d", tabCtr), x.T)
	tabCtr++
	key := ckey{c.fr.id, o}
	st.env[key] = x
	return &Loc{kind: 0, key: key, T: x.T}
}

func (v *V) fieldPath(st *State, c *Ctx, l *Loc, idx []int, n ast.Node, k func(*State, *Loc)) {
	if len(idx) == 0 {
		k(st, l)
		return
	}
	t := l.T
	if p, ok := t.Underlying().(*types.Pointer); ok {
		pv := v.read(st, l)
		_ = p
		v.check(st, c, not(eq(pv.term(), bv(64, 0))), "nil pointer dereference", n.Pos(), func(st *State) {
			v.fieldPath(st, c, v.ptrLoc(pv), idx, n, k)
		})
		return
	}
	stt, ok := t.Underlying().(*types.Struct)
	if !ok {
		v.fail(n.Pos(), "field of %s", t)
	}
	v.fieldPath(st, c, l.sub(Step{field: idx[0]}, stt.Field(idx[0]).Type()), idx[1:], n, k)
}

func (v *V) selector(e *ast.SelectorExpr, st *State, c *Ctx, k KV) {
	info := c.fr.pkg.Info
	s := info.Selections[e]
	if s == nil {
		switch o := info.Uses[e.Sel].(type) {
		case *types.Var:
			k(st, v.globVal(st, o))
		case *types.Func:
			k(st, v.funcVal(o, nil))
		default:
			v.fail(e.Pos(), "selector %s", e.Sel.Name)
		}
		return
	}
	switch s.Kind() {
	case types.FieldVal:
		v.baseLoc(e.X, st, c, func(st *State, l *Loc) {
			v.fieldPath(st, c, l, s.Index(), e, func(st *State, l *Loc) { k(st, v.read(st, l)) })
		})
	case types.MethodVal:
		v.recvOf(e, s, st, c, func(st *State, r Value) {
			k(st, v.funcVal(s.Obj().(*types.Func), &r))
		})
	default:
		v.fail(e.Pos(), "method expression")
	}
}

// recvOf evaluates the receiver for method selection s.
func (v *V) recvOf(e *ast.SelectorExpr, s *types.Selection, st *State, c *Ctx, k KV) {
	f := s.Obj().(*types.Func)
	rt := f.Type().(*types.Signature).Recv().Type()
	path := s.Index()[:len(s.Index())-1]
	_, wantPtr := rt.Underlying().(*types.Pointer)
	if isIface(rt) {
		if len(path) == 0 {
			v.eval(e.X, st, c, k)
			return
		}
		v.baseLoc(e.X, st, c, func(st *State, l *Loc) {
			v.fieldPath(st, c, l, path, e, func(st *State, l *Loc) { k(st, v.read(st, l)) })
		})
		return
	}
	xt := c.fr.pkg.Info.Types[e.X].Type
	_, xptr := xt.Underlying().(*types.Pointer)
	if len(path) == 0 {
		if wantPtr && xptr {
			v.eval(e.X, st, c, k)
			return
		}
		if !wantPtr && !xptr {
			v.eval(e.X, st, c, func(st *State, x Value) { k(st, x.at(rt)) })
			return
		}
	}
	v.baseLoc(e.X, st, c, func(st *State, l *Loc) {
		v.fieldPath(st, c, l, path, e, func(st *State, l *Loc) {
			_, lptr := l.T.Underlying().(*types.Pointer)
			if wantPtr {
				if lptr {
					k(st, v.read(st, l))
				} else {
					k(st, mkv(rt, v.addr(l)))
				}
				return
			}
			if lptr {
				p := v.read(st, l)
				v.check(st, c, not(eq(p.term(), bv(64, 0))), "nil pointer dereference", e.Pos(), func(st *State) {
					k(st, v.read(st, v.ptrLoc(p)).at(rt))
				})
				return
			}
			k(st, v.read(st, l).at(rt))
		})
	})
}

func idx64(x Value) *Term {
	return resize(x.term(), 64, isSigned(x.T))
}

func (v *V) indexExpr(e *ast.IndexExpr, st *State, c *Ctx, k KV) {
	info := c.fr.pkg.Info
	xt := info.Types[e.X].Type
	if _, isSig := xt.Underlying().(*types.Signature); isSig {
		v.eval(e.X, st, c, k)
		return
	}
	if m, ok := xt.Underlying().(*types.Map); ok {
		v.eval(e.X, st, c, func(st *State, mv Value) {
			v.eval(e.Index, st, c, func(st *State, kv Value) {
				v.assignConv(st, c, kv, m.Key(), e, func(st *State, kv Value) {
					val, _ := v.mapGet(st, mv.T, mv.term(), kv)
					k(st, val)
				})
			})
		})
		return
	}
	if isString(xt) {
		v.eval(e.X, st, c, func(st *State, s Value) {
			v.eval(e.Index, st, c, func(st *State, iv Value) {
				i := idx64(iv)
				v.check(st, c, ult(i, s.L[2]), "index out of range", e.Pos(), func(st *State) {
					k(st, mkv(tByte, sel(s.L[0], bvadd(s.L[1], i))))
				})
			})
		})
		return
	}
	if v.addrable(e, c) {
		v.lv(e, st, c, func(st *State, l *Loc) { k(st, v.read(st, l)) })
		return
	}
	// array rvalue
	at := xt.Underlying().(*types.Array)
	v.eval(e.X, st, c, func(st *State, x Value) {
		v.eval(e.Index, st, c, func(st *State, iv Value) {
			i := idx64(iv)
			v.check(st, c, ult(i, bv(64, at.Len())), "index out of range", e.Pos(), func(st *State) {
				k(st, x.index(i))
			})
		})
	})
}

func (v *V) sliceExpr(e *ast.SliceExpr, st *State, c *Ctx, k KV) {
	info := c.fr.pkg.Info
	xt := info.Types[e.X].Type
	opt := func(x ast.Expr, st *State, k func(*State, *Term)) {
		if x == nil {
			k(st, nil)
			return
		}
		v.eval(x, st, c, func(st *State, iv Value) { k(st, idx64(iv)) })
	}
	indices := func(st *State, k func(st *State, lo, hi, max *Term)) {
		opt(e.Low, st, func(st *State, lo *Term) {
			opt(e.High, st, func(st *State, hi *Term) {
				opt(e.Max, st, func(st *State, mx *Term) { k(st, lo, hi, mx) })
			})
		})
	}
	zero := bv(64, 0)
	if isString(xt) {
		v.eval(e.X, st, c, func(st *State, s Value) {
			indices(st, func(st *State, lo, hi, _ *Term) {
				if lo == nil {
					lo = zero
				}
				if hi == nil {
					hi = s.L[2]
				}
				v.check(st, c, and(ule(lo, hi), ule(hi, s.L[2])), "slice bounds out of range", e.Pos(), func(st *State) {
					k(st, Value{xt, []*Term{s.L[0], bvadd(s.L[1], lo), bvsub(hi, lo)}})
				})
			})
		})
		return
	}
	finish := func(st *State, t types.Type, ref, off, ln, cp *Term) {
		indices(st, func(st *State, lo, hi, mx *Term) {
			if lo == nil {
				lo = zero
			}
			if hi == nil {
				hi = ln
			}
			top := cp
			goal := and(ule(lo, hi), ule(hi, top))
			if mx != nil {
				goal = and(ule(lo, hi), ule(hi, mx), ule(mx, cp))
				top = mx
			}
			v.check(st, c, goal, "slice bounds out of range", e.Pos(), func(st *State) {
				k(st, Value{t, []*Term{ref, bvadd(off, lo), bvsub(hi, lo), bvsub(top, lo)}})
			})
		})
	}
	switch u := xt.Underlying().(type) {
	case *types.Slice:
		v.eval(e.X, st, c, func(st *State, s Value) {
			finish(st, xt, s.L[0], s.L[1], s.L[2], s.L[3])
		})
	case *types.Array, *types.Pointer:
		at, ok := u.(*types.Array)
		if !ok {
			at = u.(*types.Pointer).Elem().Underlying().(*types.Array)
		}
		v.baseLoc(e.X, st, c, func(st *State, l *Loc) {
			n := bv(64, at.Len())
			finish(st, types.NewSlice(at.Elem()), v.arrBase(l), zero, n, n)
		})
	default:
		v.fail(e.Pos(), "slice of %s", xt)
	}
}

// arrBase gives the backing reference of an array location
func (v *V) arrBase(l *Loc) *Term {
	if l.kind == 1 && l.whole && len(l.steps) == 0 {
		return l.ref
	}
	return v.viewOf(l)
}

func (v *V) unary(e *ast.UnaryExpr, st *State, c *Ctx, k KV) {
	info := c.fr.pkg.Info
	t := info.Types[e].Type
	switch e.Op {
	case token.AND:
		x := ast.Unparen(e.X)
		if cl, ok := x.(*ast.CompositeLit); ok {
			v.eval(cl, st, c, func(st *State, x Value) {
				k(st, mkv(t, v.newObj(st, x)))
			})
			return
		}
		v.lv(x, st, c, func(st *State, l *Loc) { k(st, mkv(t, v.addr(l))) })
	case token.NOT:
		v.eval(e.X, st, c, func(st *State, x Value) { k(st, mkv(t, not(x.term()))) })
	case token.SUB:
		v.eval(e.X, st, c, func(st *State, x Value) {
			if isFloat(t) {
				k(st, mkv(t, uf("fneg", bvSort(64), x.term())))
				return
			}
			k(st, mkv(t, bvneg(x.term())))
		})
	case token.XOR:
		v.eval(e.X, st, c, func(st *State, x Value) { k(st, mkv(t, bvnot(x.term()))) })
	case token.ADD:
		v.eval(e.X, st, c, k)
	default:
		v.fail(e.Pos(), "unary %s", e.Op)
	}
}

func (v *V) binary(e *ast.BinaryExpr, st *State, c *Ctx, k KV) {
	info := c.fr.pkg.Info
	t := info.Types[e].Type
	switch e.Op {
	case token.LAND, token.LOR:
		if c.spec {
			v.eval(e.X, st, c, func(st *State, x Value) {
				if e.Op == token.LAND && x.term() == tFalse || e.Op == token.LOR && x.term() == tTrue {
					k(st, x.at(t))
					return
				}
				v.eval(e.Y, st, c, func(st *State, y Value) {
					if e.Op == token.LAND {
						k(st, mkv(t, and(x.term(), y.term())))
					} else {
						k(st, mkv(t, or(x.term(), y.term())))
					}
				})
			})
			return
		}
		v.eval(e.X, st, c, func(st *State, x Value) {
			rhs := func(st *State) { v.eval(e.Y, st, c, func(st *State, y Value) { k(st, y.at(t)) }) }
			if e.Op == token.LAND {
				v.branch(st, x.term(), rhs, func(st *State) { k(st, mkv(t, tFalse)) })
			} else {
				v.branch(st, x.term(), func(st *State) { k(st, mkv(t, tTrue)) }, rhs)
			}
		})
		return
	}
	v.eval(e.X, st, c, func(st *State, x Value) {
		v.eval(e.Y, st, c, func(st *State, y Value) {
			v.binop(e.Op, x, y, t, e, st, c, k)
		})
	})
}

func (v *V) binop(op token.Token, x, y Value, t types.Type, n ast.Node, st *State, c *Ctx, k KV) {
	switch op {
	case token.EQL, token.NEQ:
		v.equal(st, c, x, y, n, func(st *State, e *Term) {
			if op == token.NEQ {
				e = not(e)
			}
			k(st, mkv(t, e))
		})
		return
	}
	if isString(x.T) {
		switch op {
		case token.ADD:
			k(st, v.strConcat(st, x, y).at(t))
			return
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			r := v.seqCompare(st, c, x.L[0], x.L[1], x.L[2], y.L[0], y.L[1], y.L[2])
			z := bv(64, 0)
			var b *Term
			switch op {
			case token.LSS:
				b = slt(r, z)
			case token.GTR:
				b = slt(z, r)
			case token.LEQ:
				b = sle(r, z)
			case token.GEQ:
				b = sle(z, r)
			}
			k(st, mkv(t, b))
			return
		}
	}
	if isFloat(x.T) || isFloat(y.T) {
		a, b := x.term(), y.term()
		switch op {
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			k(st, mkv(t, uf("f"+op.String(), boolSort, a, b)))
		default:
			k(st, mkv(t, uf("f"+op.String(), bvSort(64), a, b)))
		}
		return
	}
	if op == token.SHL || op == token.SHR {
		v.shift(op, x, y, t, n, st, c, k)
		return
	}
	a, b := x.term(), y.term()
	sg := isSigned(x.T)
	if a.Sort != b.Sort {
		// untyped constant operand
		if a.Sort.K == SBV && b.Sort.K == SBV {
			if bt, ok := y.T.(*types.Basic); ok && bt.Info()&types.IsUntyped != 0 {
				b = resize(b, a.Sort.W, true)
			} else if bt, ok := x.T.(*types.Basic); ok && bt.Info()&types.IsUntyped != 0 {
				a = resize(a, b.Sort.W, true)
				sg = isSigned(y.T)
			}
		}
		if a.Sort != b.Sort {
			v.fail(n.Pos(), "binop sorts %s %s", x.T, y.T)
		}
	}
	if a.Sort == boolSort {
		v.fail(n.Pos(), "bool binop %s", op)
	}
	if bt, ok := x.T.(*types.Basic); ok && bt.Info()&types.IsUntyped != 0 {
		sg = isSigned(y.T)
		if bt2, ok := y.T.(*types.Basic); ok && bt2.Info()&types.IsUntyped != 0 {
			sg = true
		}
	}
	var r *Term
	switch op {
	case token.ADD:
		r = bvadd(a, b)
	case token.SUB:
		r = bvsub(a, b)
	case token.MUL:
		r = bvmul(a, b)
	case token.QUO, token.REM:
		v.check(st, c, not(eq(b, bv(b.Sort.W, 0))), "integer divide by zero", n.Pos(), func(st *State) {
			var r *Term
			if op == token.QUO {
				if sg {
					r = bvsdiv(a, b)
				} else {
					r = bvudiv(a, b)
				}
			} else {
				if sg {
					r = bvsrem(a, b)
				} else {
					r = bvurem(a, b)
				}
			}
			k(st, mkv(t, r))
		})
		return
	case token.AND:
		r = bvand(a, b)
	case token.OR:
		r = bvor(a, b)
	case token.XOR:
		r = bvxor(a, b)
	case token.AND_NOT:
		r = bvand(a, bvnot(b))
	case token.LSS:
		r = pick(sg, slt, ult)(a, b)
	case token.LEQ:
		r = pick(sg, sle, ule)(a, b)
	case token.GTR:
		r = pick(sg, slt, ult)(b, a)
	case token.GEQ:
		r = pick(sg, sle, ule)(b, a)
	default:
		v.fail(n.Pos(), "binop %s", op)
	}
	k(st, mkv(t, r))
}

func pick(s bool, a, b func(x, y *Term) *Term) func(x, y *Term) *Term {
	if s {
		return a
	}
	return b
}

func (v *V) shift(op token.Token, x, y Value, t types.Type, n ast.Node, st *State, c *Ctx, k KV) {
	a := x.term()
	if bt, ok := x.T.(*types.Basic); ok && bt.Info()&types.IsUntyped != 0 && isInteger(t) {
		a = resize(a, leaves(t)[0].sort.W, true)
		x.T = t
	}
	cnt := y.term()
	fin := func(st *State) {
		w := a.Sort.W
		var b *Term
		if cnt.Sort.W <= w {
			b = zext(w, cnt)
		} else {
			// saturate
			big_ := not(ult(cnt, bv(cnt.Sort.W, int64(w))))
			b = ite(big_, bv(w, int64(w)), extract(w-1, 0, cnt))
		}
		if w <= 8 {
			// width constants still representable
		}
		var r *Term
		if op == token.SHL {
			r = shl(a, b)
		} else if isSigned(x.T) {
			r = ashr(a, b)
		} else {
			r = lshr(a, b)
		}
		k(st, mkv(x.T, r).at(t))
	}
	if isSigned(y.T) && !nonneg(cnt) {
		v.check(st, c, sle(bv(cnt.Sort.W, 0), cnt), "negative shift amount", n.Pos(), fin)
		return
	}
	fin(st)
}

// ---------- equality ----------

func (v *V) equal(st *State, c *Ctx, x, y Value, n ast.Node, k func(*State, *Term)) {
	if isUntypedNil(x.T) {
		x, y = y, x
	}
	if isUntypedNil(y.T) {
		k(st, eq(x.L[0], zeroTerm(x.L[0].Sort)))
		return
	}
	if isIface(x.T) != isIface(y.T) {
		if isIface(x.T) {
			y = v.toIface(st, y, x.T)
		} else {
			x = v.toIface(st, x, y.T)
		}
	}
	k(st, v.equalTerm(x, y, n))
}

func (v *V) equalTerm(x, y Value, n ast.Node) *Term {
	t := x.T
	if b, ok := t.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
		t = y.T
	}
	return v.eqLeaves(t, x.L, y.L, n)
}

func (v *V) eqLeaves(t types.Type, x, y []*Term, n ast.Node) *Term {
	if isBigInt(t) {
		return eq(x[0], y[0])
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if isString(t) {
			return seqEq(x[0], x[1], x[2], y[0], y[1], y[2])
		}
		a, b := x[0], y[0]
		if a.Sort != b.Sort && a.Sort.K == SBV && b.Sort.K == SBV {
			if a.Op == OConst {
				a = resize(a, b.Sort.W, true)
			} else {
				b = resize(b, a.Sort.W, true)
			}
		}
		return eq(a, b)
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return eq(x[0], y[0])
	case *types.Interface:
		a, b := x[0], y[0]
		if a.Op == OConst && b.Op == OConst && a != b {
			da, oka := dyns[a.Val.String()]
			db, okb := dyns[b.Val.String()]
			if oka && okb {
				if !types.Identical(da.T, db.T) {
					return tFalse
				}
				return v.eqLeaves(da.T, da.L, db.L, n)
			}
			return tFalse
		}
		return eq(a, b)
	case *types.Slice:
		// comparison with nil only
		return and(eq(x[0], y[0]))
	case *types.Struct:
		var cs []*Term
		for i := 0; i < u.NumFields(); i++ {
			a, b := fieldRange(u, i)
			cs = append(cs, v.eqLeaves(u.Field(i).Type(), x[a:b], y[a:b], n))
		}
		return and(cs...)
	case *types.Array:
		same := true
		for i := range x {
			if x[i] != y[i] {
				same = false
			}
		}
		if same {
			return tTrue
		}
		if u.Len() > 64 {
			if len(x) == 1 {
				return seqEq(x[0], bv(64, 0), bv(64, u.Len()), y[0], bv(64, 0), bv(64, u.Len()))
			}
			v.fail(n.Pos(), "equality of large arrays")
		}
		var cs []*Term
		for i := int64(0); i < u.Len(); i++ {
			xi := make([]*Term, len(x))
			yi := make([]*Term, len(x))
			for j := range x {
				xi[j] = sel(x[j], bv(64, i))
				yi[j] = sel(y[j], bv(64, i))
			}
			cs = append(cs, v.eqLeaves(u.Elem(), xi, yi, n))
		}
		return and(cs...)
	}
	unsup("equality of %s", t)
	return nil
}

// seqEq: content equality of byte (or scalar) sequences
func seqEq(a, ao, al, b, bo, bl *Term) *Term {
	if a == b && ao == bo && al == bl {
		return tTrue
	}
	le := eq(al, bl)
	if le == tFalse {
		return tFalse
	}
	n := al
	if n.Op != OConst {
		n = bl
	}
	if n.Op == OConst && n.Val.Cmp(big.NewInt(64)) <= 0 {
		cs := []*Term{le}
		for i := int64(0); i < n.Val.Int64(); i++ {
			cs = append(cs, eq(sel(a, bvadd(ao, bv(64, i))), sel(b, bvadd(bo, bv(64, i)))))
		}
		return and(cs...)
	}
	k := freshBound()
	return and(le, forall(k, imp(ult(k, al), eq(sel(a, bvadd(ao, k)), sel(b, bvadd(bo, k))))))
}

// seqCompare: lexicographic comparison result (-1,0,1) as a fresh term constrained in pc
func (v *V) seqCompare(st *State, c *Ctx, a, ao, al, b, bo, bl *Term) *Term {
	if v.quant > 0 {
		unsup("lexicographic comparison under a quantifier")
	}
	if al.Op == OConst && bl.Op == OConst && al == bl && al.Val.Cmp(big.NewInt(64)) <= 0 {
		n := al.Val.Int64()
		r := bv(64, 0)
		for i := n - 1; i >= 0; i-- {
			x := sel(a, bvadd(ao, bv(64, i)))
			y := sel(b, bvadd(bo, bv(64, i)))
			r = ite(eq(x, y), r, ite(ult(x, y), bv(64, -1), bv(64, 1)))
		}
		return r
	}
	d := mk(OUF, bvSort(64), []*Term{uf("seq", seqSort, a, ao, al), uf("seq", seqSort, b, bo, bl)}, nil, "firstdiff", 0, 0)
	mn := ite(ult(al, bl), al, bl)
	k := freshBound()
	st.add(ule(d, mn), false)
	st.add(forall(k, imp(ult(k, d), eq(sel(a, bvadd(ao, k)), sel(b, bvadd(bo, k))))), false)
	x, y := sel(a, bvadd(ao, d)), sel(b, bvadd(bo, d))
	st.add(imp(ult(d, mn), not(eq(x, y))), false)
	return ite(ult(d, mn), ite(ult(x, y), bv(64, -1), bv(64, 1)), ite(eq(al, bl), bv(64, 0), ite(ult(al, bl), bv(64, -1), bv(64, 1))))
}

func (v *V) strConcat(st *State, x, y Value) Value {
	if x.L[2].Op == OConst && x.L[2].Val.Sign() == 0 {
		return y
	}
	if y.L[2].Op == OConst && y.L[2].Val.Sign() == 0 {
		return x
	}
	base := acopy(karr(byteArr, bv(8, 0)), bv(64, 0), x.L[2], x.L[0], x.L[1])
	arr := acopy(base, x.L[2], y.L[2], y.L[0], y.L[1])
	n := bvadd(x.L[2], y.L[2])
	return Value{x.T, []*Term{arr, bv(64, 0), n}}
}

// ---------- composite literals ----------

func (v *V) composite(e *ast.CompositeLit, t types.Type, st *State, c *Ctx, k KV) {
	switch u := t.Underlying().(type) {
	case *types.Pointer: // elided &T in nested literals
		v.composite(e, u.Elem(), st, c, func(st *State, x Value) {
			k(st, mkv(t, v.newObj(st, x)))
		})
		return
	case *types.Struct:
		val := zeroValue(t)
		var rec func(i int, st *State, val Value)
		rec = func(i int, st *State, val Value) {
			if i == len(e.Elts) {
				k(st, val)
				return
			}
			fi := i
			x := e.Elts[i]
			if kv, ok := x.(*ast.KeyValueExpr); ok {
				name := kv.Key.(*ast.Ident).Name
				for j := 0; j < u.NumFields(); j++ {
					if u.Field(j).Name() == name {
						fi = j
					}
				}
				x = kv.Value
			}
			v.elt(x, u.Field(fi).Type(), st, c, func(st *State, w Value) { rec(i+1, st, val.setField(fi, w)) })
		}
		rec(0, st, val)
	case *types.Array, *types.Slice:
		et := elemOf(t)
		var n int64
		pos := make([]int64, len(e.Elts))
		xs := make([]ast.Expr, len(e.Elts))
		var cur int64
		for i, x := range e.Elts {
			if kv, ok := x.(*ast.KeyValueExpr); ok {
				cv := c.fr.pkg.Info.Types[kv.Key].Value
				if cv == nil {
					v.fail(x.Pos(), "non constant index")
				}
				fmt.Sscan(cv.ExactString(), &cur)
				x = kv.Value
			}
			pos[i], xs[i] = cur, x
			cur++
			if cur > n {
				n = cur
			}
		}
		if at, ok := u.(*types.Array); ok {
			n = at.Len()
		}
		var rec func(i int, st *State, cont []*Term)
		rec = func(i int, st *State, cont []*Term) {
			if i == len(xs) {
				if _, ok := u.(*types.Array); ok {
					k(st, Value{t, cont})
					return
				}
				ref := v.allocSlice(st, et, cont)
				k(st, Value{t, []*Term{ref, bv(64, 0), bv(64, n), bv(64, n)}})
				return
			}
			v.elt(xs[i], et, st, c, func(st *State, w Value) {
				nc := make([]*Term, len(cont))
				for j := range cont {
					nc[j] = store(cont[j], bv(64, pos[i]), w.L[j])
				}
				rec(i+1, st, nc)
			})
		}
		rec(0, st, zeroCont(et))
	case *types.Map:
		ref := v.newMap(st, t)
		var rec func(i int, st *State)
		rec = func(i int, st *State) {
			if i == len(e.Elts) {
				k(st, mkv(t, ref))
				return
			}
			kv := e.Elts[i].(*ast.KeyValueExpr)
			v.elt(kv.Key, u.Key(), st, c, func(st *State, kk Value) {
				v.elt(kv.Value, u.Elem(), st, c, func(st *State, w Value) {
					v.mapSet(st, t, ref, kk, w)
					rec(i+1, st)
				})
			})
		}
		rec(0, st)
	default:
		v.fail(e.Pos(), "composite literal %s", t)
	}
}

func (v *V) elt(x ast.Expr, t types.Type, st *State, c *Ctx, k KV) {
	if cl, ok := x.(*ast.CompositeLit); ok && cl.Type == nil {
		v.composite(cl, t, st, c, k)
		return
	}
	v.eval(x, st, c, func(st *State, y Value) { v.assignConv(st, c, y, t, x, k) })
}

// ---------- maps ----------

func keySort(t types.Type) *Sort {
	if isString(t) {
		return seqSort
	}
	w := 0
	for _, l := range leaves(t) {
		switch {
		case l.sort.K == SBV:
			w += l.sort.W
		case l.sort.K == SArr && l.sort.Elem.K == SBV:
			at, ok := t.Underlying().(*types.Array)
			if !ok {
				unsup("map key %s", t)
			}
			w += int(at.Len()) * l.sort.Elem.W
		default:
			unsup("map key %s", t)
		}
	}
	return bvSort(w)
}

func keyTerm(x Value) *Term {
	if isString(x.T) {
		return uf("seq", seqSort, x.L[0], x.L[1], x.L[2])
	}
	var r *Term
	app := func(t *Term) {
		if r == nil {
			r = t
		} else {
			r = concat(r, t)
		}
	}
	for _, l := range x.L {
		if l.Sort.K == SBV {
			app(l)
			continue
		}
		at := x.T.Underlying().(*types.Array)
		for i := int64(0); i < at.Len(); i++ {
			app(sel(l, bv(64, i)))
		}
	}
	return r
}

func (v *V) mapNode(st *State, t types.Type) (*HNode, *types.Map) {
	m := t.Underlying().(*types.Map)
	c := classOf(m)
	if h, ok := st.heap[c]; ok {
		return h, m
	}
	ks := keySort(m.Key())
	cs := []*Sort{bvSort(64), arrSort(ks, boolSort)}
	ls := []leafInfo{{bvSort(64), lkLen, "cnt", 1}, {boolSort, lkScalar, "has", 1}}
	for _, l := range leaves(m.Elem()) {
		cs = append(cs, arrSort(ks, l.sort))
		ls = append(ls, l)
	}
	b := baseNode(&HNode{class: c, ls: ls, cs: cs})
	st.heap[c] = b
	return b, m
}

func (v *V) newMap(st *State, t types.Type) *Term {
	h, m := v.mapNode(st, t)
	_ = m
	ref := v.allocRef(st)
	cont := make([]*Term, len(h.cs))
	for i, s := range h.cs {
		cont[i] = zeroTerm(s)
	}
	st.heap[h.class] = &HNode{kind: 1, class: h.class, ls: h.ls, cs: h.cs, prev: h, ref: ref, cont: cont}
	for r := v.rec; r != nil; r = r.prev {
		r.writes = append(r.writes, writeRec{h.class, t, ref, nil, st.pc})
	}
	return ref
}

func (v *V) mapCont(st *State, t types.Type, ref *Term) []*Term {
	h, _ := v.mapNode(st, t)
	cont := h.read(ref)
	if cont[0].Op == OUF && cont[0].hi == nil {
		cont[0].lo, cont[0].hi = bigZero, lenHi
	}
	return cont
}

func (v *V) mapGet(st *State, t types.Type, ref *Term, key Value) (Value, *Term) {
	m := t.Underlying().(*types.Map)
	kt := keyTerm(key)
	cont := v.mapCont(st, t, ref)
	nilm := eq(ref, bv(64, 0))
	has := and(not(nilm), sel(cont[1], kt))
	ls := leaves(m.Elem())
	L := make([]*Term, len(ls))
	z := zeroValue(m.Elem())
	for i := range ls {
		x := sel(cont[2+i], kt)
		annotate(x, ls[i], refMax)
		L[i] = ite(has, x, z.L[i])
	}
	val := Value{m.Elem(), L}
	for _, f := range typeFacts(val) {
		if !f.hasBound {
			st.add(f, false)
		}
	}
	// a present key means a non-empty map
	if !has.hasBound {
		f := imp(has, not(eq(cont[0], bv(64, 0))))
		if !st.has(f) {
			st.add(f, false)
		}
	}
	return val, has
}

func (v *V) mapSet(st *State, t types.Type, ref *Term, key, val Value) {
	h, _ := v.mapNode(st, t)
	kt := keyTerm(key)
	cont := append([]*Term{}, v.mapCont(st, t, ref)...)
	cont[0] = ite(sel(cont[1], kt), cont[0], bvadd(cont[0], bv(64, 1)))
	cont[1] = store(cont[1], kt, tTrue)
	for i := range val.L {
		cont[2+i] = store(cont[2+i], kt, val.L[i])
	}
	v.putMap(st, t, h, ref, cont)
}

func (v *V) putMap(st *State, t types.Type, h *HNode, ref *Term, cont []*Term) {
	for r := v.rec; r != nil; r = r.prev {
		r.writes = append(r.writes, writeRec{h.class, t, ref, nil, st.pc})
	}
	if h.kind == 1 && h.ref == ref {
		h = h.prev
	}
	st.heap[h.class] = &HNode{kind: 1, class: h.class, ls: h.ls, cs: h.cs, prev: h, ref: ref, cont: cont}
}

func (v *V) mapDelete(st *State, t types.Type, ref *Term, key Value) {
	h, _ := v.mapNode(st, t)
	kt := keyTerm(key)
	cont := append([]*Term{}, v.mapCont(st, t, ref)...)
	was := and(not(eq(ref, bv(64, 0))), sel(cont[1], kt))
	cont[0] = ite(was, bvsub(cont[0], bv(64, 1)), cont[0])
	cont[1] = store(cont[1], kt, tFalse)
	v.putMap(st, t, h, ref, cont)
}
