package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math/big"
	"strings"
)

func (v *V) call(e *ast.CallExpr, st *State, c *Ctx, k KV) {
	v.prepCall(e, st, c, func(st *State, run func(*State, KV)) { run(st, k) })
}

func calleeObj(info *types.Info, fun ast.Expr) types.Object {
	switch f := ast.Unparen(fun).(type) {
	case *ast.Ident:
		return info.Uses[f]
	case *ast.SelectorExpr:
		if s := info.Selections[f]; s != nil {
			return s.Obj()
		}
		return info.Uses[f.Sel]
	case *ast.IndexExpr:
		return calleeObj(info, f.X)
	}
	return nil
}

// prepCall evaluates the callee and arguments and passes on a thunk.
func (v *V) prepCall(e *ast.CallExpr, st *State, c *Ctx, k func(*State, func(*State, KV))) {
	info := c.fr.pkg.Info
	if tv := info.Types[e.Fun]; tv.IsType() {
		v.eval(e.Args[0], st, c, func(st *State, x Value) {
			k(st, func(st *State, k KV) { v.convert(st, c, x, tv.Type, e, k) })
		})
		return
	}
	obj := calleeObj(info, e.Fun)
	if b, ok := obj.(*types.Builtin); ok {
		v.builtin(b.Name(), e, st, c, k)
		return
	}
	if f, ok := obj.(*types.Func); ok && strings.HasPrefix(f.Name(), "gv") && f.Pkg() != nil {
		if fd := v.pr.ByObj[f.Origin()]; fd != nil && fd.Ghost {
			k(st, func(st *State, k KV) { v.ghost(f.Name(), e, st, c, k) })
			return
		}
	}
	sig, _ := info.Types[e.Fun].Type.Underlying().(*types.Signature)
	if sig == nil {
		v.fail(e.Pos(), "call of non function")
	}
	args := func(st *State, k func(*State, []Value)) { v.args(e, sig, st, c, k) }
	if f, ok := obj.(*types.Func); ok {
		fs := f.Type().(*types.Signature)
		if fs.Recv() != nil {
			se := ast.Unparen(e.Fun).(*ast.SelectorExpr)
			s := info.Selections[se]
			if s.Kind() == types.MethodExpr {
				v.fail(e.Pos(), "method expression call")
			}
			v.recvOf(se, s, st, c, func(st *State, r Value) {
				args(st, func(st *State, as []Value) {
					k(st, func(st *State, k KV) { v.invoke(f, &r, as, st, c, e, k) })
				})
			})
			return
		}
		args(st, func(st *State, as []Value) {
			k(st, func(st *State, k KV) { v.invoke(f, nil, as, st, c, e, k) })
		})
		return
	}
	v.eval(e.Fun, st, c, func(st *State, fv Value) {
		args(st, func(st *State, as []Value) {
			k(st, func(st *State, k KV) { v.callValue(fv, as, st, c, e, k) })
		})
	})
}

func (v *V) args(e *ast.CallExpr, sig *types.Signature, st *State, c *Ctx, k func(*State, []Value)) {
	np := sig.Params().Len()
	fin := func(st *State, vals []Value) {
		var out []Value
		var rec func(i int, st *State, out []Value)
		rec = func(i int, st *State, out []Value) {
			if sig.Variadic() && !e.Ellipsis.IsValid() && i == np-1 {
				stp := sig.Params().At(np - 1).Type().(*types.Slice)
				et := stp.Elem()
				extra := vals[i:]
				if len(extra) == 0 {
					k(st, append(out, zeroValue(stp)))
					return
				}
				cont := zeroCont(et)
				var put func(j int, st *State)
				put = func(j int, st *State) {
					if j == len(extra) {
						ref := v.allocSlice(st, et, cont)
						n := bv(64, int64(len(extra)))
						k(st, append(out, Value{stp, []*Term{ref, bv(64, 0), n, n}}))
						return
					}
					v.assignConv(st, c, extra[j], et, e, func(st *State, x Value) {
						nc := make([]*Term, len(cont))
						for q := range cont {
							nc[q] = store(cont[q], bv(64, int64(j)), x.L[q])
						}
						cont = nc
						put(j+1, st)
					})
				}
				put(0, st)
				return
			}
			if i == np {
				k(st, out)
				return
			}
			v.assignConv(st, c, vals[i], sig.Params().At(i).Type(), e, func(st *State, x Value) {
				rec(i+1, st, append(out[:len(out):len(out)], x))
			})
		}
		rec(0, st, out)
	}
	if len(e.Args) == 1 && np > 1 || len(e.Args) == 1 && sig.Variadic() && !e.Ellipsis.IsValid() {
		if _, ok := c.fr.pkg.Info.Types[e.Args[0]].Type.(*types.Tuple); ok {
			v.eval(e.Args[0], st, c, func(st *State, t Value) { fin(st, t.split()) })
			return
		}
	}
	v.evals(e.Args, st, c, fin)
}

func (v *V) callValue(fv Value, args []Value, st *State, c *Ctx, e *ast.CallExpr, k KV) {
	id := fv.term()
	if id.Op == OConst {
		if id.Val.Sign() == 0 {
			v.check(st, c, tFalse, "call of nil function", e.Pos(), func(*State) {})
			return
		}
		if cl, ok := closures[id.Val.String()]; ok {
			if cl.fn != nil {
				v.invoke(cl.fn, cl.recv, args, st, c, e, k)
				return
			}
			v.runClosure(cl, args, st, c, e, k)
			return
		}
	}
	if id.Op == OIte {
		v.branch(st, id.Args[0], func(st *State) { v.callValue(mkv(fv.T, id.Args[1]), args, st, c, e, k) }, func(st *State) { v.callValue(mkv(fv.T, id.Args[2]), args, st, c, e, k) })
		return
	}
	if sig, ok := fv.T.Underlying().(*types.Signature); ok && v.con != nil && v.con.PureFuncs {
		// unknown function values are modelled as deterministic pure functions of their arguments
		v.trusted["function values (callbacks) are pure and deterministic"] = true
		v.opaqueCall("callback", append([]Value{{fv.T, []*Term{id}}}, args...), sig, 0, st, c, e, k)
		return
	}
	v.fail(e.Pos(), "call of unknown function value")
}

func (v *V) runClosure(cl *Closure, args []Value, st *State, c *Ctx, e ast.Node, k KV) {
	v.frames++
	fr := &Frame{id: v.frames, parent: cl.frame, fd: cl.frame.fd, pkg: cl.frame.pkg, boxset: cl.frame.boxset, depth: c.fr.depth + 1}
	fr.sig = fr.pkg.Info.Types[cl.lit].Type.Underlying().(*types.Signature)
	v.runBody(fr, cl.lit.Body, args, nil, st, c, k)
}

func (v *V) runBody(fr *Frame, body *ast.BlockStmt, args []Value, recv *Value, st *State, c *Ctx, k KV) {
	sig := fr.sig
	fr.entry = map[types.Object]Value{}
	v.gather(st, func(kk KV) {
		if sig.Recv() != nil && recv != nil {
			v.bind(st, fr, sig.Recv(), *recv)
		}
		for i := 0; i < sig.Params().Len(); i++ {
			v.bind(st, fr, sig.Params().At(i), args[i])
			fr.entry[sig.Params().At(i)] = args[i]
		}
		named := false
		for i := 0; i < sig.Results().Len(); i++ {
			o := sig.Results().At(i)
			if o.Name() == "" || o.Name() == "_" {
				if o.Name() == "_" {
					o = types.NewVar(token.NoPos, nil, fmt.Sprintf("_r%d", i), o.Type())
				}
			}
			if o.Name() != "" {
				named = true
				v.bind(st, fr, o, zeroValue(o.Type()))
			}
			fr.results = append(fr.results, o)
		}
		nc := &Ctx{fr: fr, pan: c.pan, spec: c.spec, catch: c.catch, apply: c.apply, verify: false}
		nc.ret = func(st *State, vals []Value) {
			if named {
				for i, o := range fr.results {
					v.write(st, v.varLoc(st, fr, o), vals[i])
				}
			}
			v.runDefers(fr, st, func(st *State) {
				if named {
					nv := make([]Value, len(vals))
					for i, o := range fr.results {
						nv[i] = v.read(st, v.varLoc(st, fr, o))
					}
					vals = nv
				}
				switch len(vals) {
				case 1:
					kk(st, vals[0])
				default:
					kk(st, tupleVal(vals))
				}
			})
		}
		v.block(body.List, st, nc, func(st *State) {
			var vals []Value
			if sig.Results().Len() > 0 {
				if !named {
					// falls off the end: unreachable in well-typed code
					return
				}
				for _, o := range fr.results {
					vals = append(vals, v.read(st, v.varLoc(st, fr, o)))
				}
			}
			nc.ret(st, vals)
		})
	}, k)
}

var boxCache = map[*FuncDecl]map[types.Object]bool{}

func boxsetOf(fd *FuncDecl) map[types.Object]bool {
	if b, ok := boxCache[fd]; ok {
		return b
	}
	b := boxedVars(fd.Pkg.Info, fd.Decl.Body)
	boxCache[fd] = b
	return b
}

func (v *V) invoke(f *types.Func, recv *Value, args []Value, st *State, c *Ctx, e *ast.CallExpr, k KV) {
	key := funcKey(f.Origin())
	if c.apply != nil && e == c.apply.target {
		v.havocTarget(f, st, c, e, k)
		return
	}
	// interface dispatch
	if recv != nil && isIface(recv.T) {
		id := recv.term()
		if id.Op == OConst && id.Val.Sign() != 0 {
			if d, ok := dyns[id.Val.String()]; ok {
				v.dynInvoke(d, f, args, st, c, e, k)
				return
			}
		}
		if id.Op == OIte {
			v.branch(st, id.Args[0], func(st *State) {
				r := mkv(recv.T, id.Args[1])
				v.invoke(f, &r, args, st, c, e, k)
			}, func(st *State) {
				r := mkv(recv.T, id.Args[2])
				v.invoke(f, &r, args, st, c, e, k)
			})
			return
		}
		v.check(st, c, not(eq(id, bv(64, 0))), "nil interface method call", e.Pos(), func(st *State) {
			v.invokeStatic(key, f, recv, args, st, c, e, k)
		})
		return
	}
	v.invokeStatic(key, f, recv, args, st, c, e, k)
}

func (v *V) dynInvoke(d Value, f *types.Func, args []Value, st *State, c *Ctx, e *ast.CallExpr, k KV) {
	ms := types.NewMethodSet(d.T)
	s := ms.Lookup(f.Pkg(), f.Name())
	if s == nil {
		s = ms.Lookup(nil, f.Name())
	}
	if s == nil {
		v.fail(e.Pos(), "no method %s on %s", f.Name(), d.T)
	}
	mf := s.Obj().(*types.Func)
	if len(s.Index()) != 1 {
		// promoted method through embedding
		loc := v.tempLoc(st, c, d)
		v.fieldPath(st, c, loc, s.Index()[:len(s.Index())-1], e, func(st *State, l *Loc) {
			rt := mf.Type().(*types.Signature).Recv().Type()
			_, wantPtr := rt.Underlying().(*types.Pointer)
			_, lptr := l.T.Underlying().(*types.Pointer)
			var r Value
			switch {
			case isIface(rt):
				r = v.read(st, l)
			case wantPtr && !lptr:
				r = mkv(rt, v.addr(l))
			case !wantPtr && lptr:
				r = v.read(st, v.ptrLoc(v.read(st, l)))
			default:
				r = v.read(st, l)
			}
			v.invoke(mf, &r, args, st, c, e, k)
		})
		return
	}
	rt := mf.Type().(*types.Signature).Recv().Type()
	_, wantPtr := rt.Underlying().(*types.Pointer)
	_, isPtr := d.T.Underlying().(*types.Pointer)
	r := d
	if !wantPtr && isPtr {
		r = v.read(st, v.ptrLoc(d)).at(rt)
	}
	v.invoke(mf, &r, args, st, c, e, k)
}

func (v *V) invokeStatic(key string, f *types.Func, recv *Value, args []Value, st *State, c *Ctx, e *ast.CallExpr, k KV) {
	all := args
	if recv != nil {
		all = append([]Value{*recv}, args...)
	}
	if op, ok := v.con.set.Opaque[key]; ok {
		v.trusted["opaque (deterministic, side-effect free): "+key] = true
		v.opaqueCall(key, all, f.Type().(*types.Signature), op, st, c, e, k)
		return
	}
	isTarget := v.con != nil && e != nil && e == v.con.TargetCall && c.apply == nil
	if con := v.con.set.ByTarget[key]; con != nil && !isTarget && !v.con.Inline[key] && !v.con.InlineAll && v.quant == 0 && con.Appliable {
		if con.Trusted || con != v.con || v.con.Recursive {
			v.used[con.Name] = true
			if con.Trusted {
				v.trusted["assumed contract: "+con.Name+" on "+key] = true
			}
			v.applyContract(con, all, st, c, e, k)
			return
		}
	}
	if m, ok := libModels[key]; ok {
		v.trusted["library model: "+key] = true
		m(v, all, st, c, e, k)
		return
	}
	if md := v.pr.Models[key]; md != nil && !(len(v.stack) > 0 && v.stack[len(v.stack)-1] == md.Key) {
		v.trusted["library model (Go source): "+key] = true
		v.inlineCall(md, nil, all, st, c, k)
		return
	}
	if strings.HasPrefix(key, modPath+"/log.") || strings.HasPrefix(key, "github.com/sirupsen/logrus.") {
		sig := f.Type().(*types.Signature)
		v.trusted["logging has no effect on program state: "+key] = true
		var res []Value
		for i := 0; i < sig.Results().Len(); i++ {
			x, facts := freshValue("log", sig.Results().At(i).Type(), refMax)
			for _, ft := range facts {
				st.add(ft, false)
			}
			if isIface(x.T) {
				st.add(not(eq(x.term(), bv(64, 0))), false)
			}
			res = append(res, x)
		}
		if len(res) == 1 {
			k(st, res[0])
		} else {
			k(st, tupleVal(res))
		}
		return
	}
	if key == ".error.Error" {
		v.trusted["error texts: Error() of an unknown error returns some string and changes nothing"] = true
		x, facts := freshValue("errtext", tString, refMax)
		for _, ft := range facts {
			st.add(ft, false)
		}
		k(st, x)
		return
	}
	fd := v.pr.ByObj[f.Origin()]
	if fd == nil || fd.Decl.Body == nil {
		if con := v.con.set.ByTarget[key]; con != nil && con.Trusted {
			v.used[con.Name] = true
			v.trusted["assumed contract: "+con.Name+" on "+key] = true
			v.applyContract(con, all, st, c, e, k)
			return
		}
		v.fail(e.Pos(), "call to %s: no contract, model or body", key)
	}
	n := 0
	for _, s := range v.stack {
		if s == key {
			n++
		}
	}
	if n > v.con.RecDepth {
		v.fail(e.Pos(), "recursion of %s", key)
	}
	if isTarget {
		v.verifyTarget(fd, recv, args, st, c, e, k)
		return
	}
	if !fd.Ghost {
		v.inlined[key] = true
	}
	v.inlineCall(fd, recv, args, st, c, k)
}

func (v *V) inlineCall(fd *FuncDecl, recv *Value, args []Value, st *State, c *Ctx, k KV) {
	v.frames++
	fr := &Frame{id: v.frames, fd: fd, pkg: fd.Pkg, boxset: boxsetOf(fd), depth: c.fr.depth + 1, sig: fd.Obj.Type().(*types.Signature)}
	v.stack = append(v.stack, fd.Key)
	depth := len(v.stack)
	v.runBody(fr, fd.Decl.Body, args, recv, st, c, func(st *State, x Value) {
		// leaving the callee: restore the call stack for the continuation
		saved := append([]string{}, v.stack...)
		v.stack = v.stack[:depth-1]
		k(st, x)
		v.stack = saved
	})
	v.stack = v.stack[:depth-1]
}

// opaqueCall: result is an uninterpreted function of argument contents.
func (v *V) opaqueCall(key string, args []Value, sig *types.Signature, reslen int, st *State, c *Ctx, e ast.Node, k KV) {
	name := "op$" + key
	var ts []*Term
	var add func(x Value)
	add = func(x Value) {
		switch u := x.T.Underlying().(type) {
		case *types.Slice:
			if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				cont := v.readCont(st, u.Elem(), x.L[0])
				ts = append(ts, uf("seq", seqSort, cont[0], x.L[1], x.L[2]))
				return
			}
			if x.L[2].Op == OConst && x.L[2].Val.Cmp(big.NewInt(16)) <= 0 {
				n := x.L[2].Val.Int64()
				name += fmt.Sprintf("#%d", n)
				for i := int64(0); i < n; i++ {
					add(v.read(st, v.elemLoc(x, bv(64, i))))
				}
				return
			}
			unsup("opaque call with slice argument %s", x.T)
		case *types.Array:
			if len(x.L) == 1 {
				ts = append(ts, uf("seq", seqSort, x.L[0], bv(64, 0), bv(64, u.Len())))
				return
			}
			unsup("opaque call with array argument %s", x.T)
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				add(x.field(i))
			}
		case *types.Pointer:
			if len(x.L) == 1 && x.L[0].Op == OConst && x.L[0].Val.Sign() == 0 {
				name += "#nil"
				return
			}
			ts = append(ts, x.L[0])
		default:
			if isString(x.T) {
				ts = append(ts, uf("seq", seqSort, x.L[0], x.L[1], x.L[2]))
				return
			}
			ts = append(ts, x.L...)
		}
	}
	for _, a := range args {
		add(a)
	}
	var res []Value
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		nm := fmt.Sprintf("%s$r%d", name, i)
		switch u := t.Underlying().(type) {
		case *types.Slice:
			if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				arr := uf(nm+"$c", byteArr, ts...)
				var ln *Term
				if reslen > 0 {
					ln = bv(64, int64(reslen))
				} else {
					ln = uf(nm+"$len", bvSort(64), ts...)
					if ln.hi == nil {
						ln.lo, ln.hi = bigZero, lenHi
					}
				}
				if v.quant > 0 {
					// value semantics only: pseudo object through a view-less fresh ref is not needed under a quantifier
				}
				ref := v.allocSlice(st, u.Elem(), []*Term{arr})
				res = append(res, Value{t, []*Term{ref, bv(64, 0), ln, ln}})
				continue
			}
			unsup("opaque result %s", t)
		default:
			ls := leaves(t)
			L := make([]*Term, len(ls))
			for j, l := range ls {
				L[j] = uf(fmt.Sprintf("%s$%d", nm, j), l.sort, ts...)
				annotate(L[j], l, refMax)
			}
			res = append(res, Value{t, L})
		}
	}
	if len(res) == 1 {
		k(st, res[0])
	} else {
		k(st, tupleVal(res))
	}
}

// ---------- conversions ----------

func (v *V) convert(st *State, c *Ctx, x Value, t types.Type, n ast.Node, k KV) {
	if isUntypedNil(x.T) {
		k(st, zeroValue(t))
		return
	}
	if isIface(t) {
		if isIface(x.T) {
			k(st, x.at(t))
		} else {
			k(st, v.toIface(st, x, t))
		}
		return
	}
	if isInteger(t) && isInteger(x.T) {
		k(st, mkv(t, resize(x.term(), leaves(t)[0].sort.W, isSigned(x.T))))
		return
	}
	if isFloat(t) || isFloat(x.T) {
		ls := leaves(t)
		if isFloat(t) && isFloat(x.T) {
			k(st, x.at(t))
			return
		}
		k(st, mkv(t, uf(fmt.Sprintf("fconv$%s$%s", classOf(x.T), classOf(t)), ls[0].sort, x.term())))
		return
	}
	if isString(t) {
		if isString(x.T) {
			k(st, x.at(t))
			return
		}
		if sl, ok := x.T.Underlying().(*types.Slice); ok {
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				cont := v.readCont(st, sl.Elem(), x.L[0])
				k(st, Value{t, []*Term{cont[0], x.L[1], x.L[2]}})
				return
			}
		}
		v.fail(n.Pos(), "conversion %s to %s", x.T, t)
	}
	if sl, ok := t.Underlying().(*types.Slice); ok && isString(x.T) {
		if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			arr := acopy(karr(byteArr, bv(8, 0)), bv(64, 0), x.L[2], x.L[0], x.L[1])
			ref := v.allocSlice(st, sl.Elem(), []*Term{arr})
			cp := v.freshLen(st, "cap", x.L[2])
			k(st, Value{t, []*Term{ref, bv(64, 0), x.L[2], cp}})
			return
		}
		v.fail(n.Pos(), "conversion %s to %s", x.T, t)
	}
	if at, ok := t.Underlying().(*types.Array); ok {
		if sl, ok := x.T.Underlying().(*types.Slice); ok { // slice to array conversion
			v.check(st, c, ule(bv(64, at.Len()), x.L[2]), "slice to array conversion", n.Pos(), func(st *State) {
				cont := v.readCont(st, sl.Elem(), x.L[0])
				k(st, Value{t, shiftCont(cont, x.L[1])})
			})
			return
		}
	}
	if len(x.L) == len(leaves(t)) {
		k(st, x.at(t))
		return
	}
	v.fail(n.Pos(), "conversion %s to %s", x.T, t)
}

func shiftCont(cont []*Term, off *Term) []*Term {
	if off.Op == OConst && off.Val.Sign() == 0 {
		return cont
	}
	out := make([]*Term, len(cont))
	for i, a := range cont {
		out[i] = acopy(karr(a.Sort, zeroTerm(a.Sort.Elem)), bv(64, 0), bvBig(64, lenHi), a, off)
	}
	return out
}

func (v *V) freshLen(st *State, n string, atLeast *Term) *Term {
	if v.quant > 0 {
		return atLeast
	}
	cp := freshBounded(n, 64, bigZero, new(big.Int).Lsh(lenHi, 1))
	st.add(ule(atLeast, cp), false)
	return cp
}

// ---------- builtins ----------

func (v *V) builtin(name string, e *ast.CallExpr, st *State, c *Ctx, k func(*State, func(*State, KV))) {
	info := c.fr.pkg.Info
	now := func(f func(*State, KV)) { k(st, f) }
	switch name {
	case "len", "cap":
		v.eval(e.Args[0], st, c, func(st *State, x Value) {
			k(st, func(st *State, k KV) {
				switch u := x.T.Underlying().(type) {
				case *types.Slice:
					if name == "len" {
						k(st, mkv(tInt, x.L[2]))
					} else {
						k(st, mkv(tInt, x.L[3]))
					}
				case *types.Array:
					k(st, mkv(tInt, bv(64, u.Len())))
				case *types.Pointer:
					k(st, mkv(tInt, bv(64, u.Elem().Underlying().(*types.Array).Len())))
				case *types.Map:
					cont := v.mapCont(st, x.T, x.term())
					k(st, mkv(tInt, ite(eq(x.term(), bv(64, 0)), bv(64, 0), cont[0])))
				default:
					if isString(x.T) {
						k(st, mkv(tInt, x.L[2]))
						return
					}
					v.fail(e.Pos(), "len of %s", x.T)
				}
			})
		})
	case "append":
		v.eval(e.Args[0], st, c, func(st *State, s Value) {
			rt := info.Types[e].Type
			if isUntypedNil(s.T) {
				s = zeroValue(rt)
			}
			et := elemOf(rt)
			if e.Ellipsis.IsValid() {
				v.eval(e.Args[1], st, c, func(st *State, y Value) {
					k(st, func(st *State, k KV) {
						if isUntypedNil(y.T) {
							k(st, s)
							return
						}
						var src []*Term
						var off, n *Term
						if isString(y.T) {
							src, off, n = []*Term{y.L[0]}, y.L[1], y.L[2]
						} else {
							src, off, n = v.readCont(st, et, y.L[0]), y.L[1], y.L[2]
						}
						v.appendTo(st, c, s.at(rt), et, src, off, n, k)
					})
				})
				return
			}
			v.evals(e.Args[1:], st, c, func(st *State, xs []Value) {
				var rec func(i int, st *State, cont []*Term)
				rec = func(i int, st *State, cont []*Term) {
					if i == len(xs) {
						k(st, func(st *State, k KV) {
							v.appendTo(st, c, s.at(rt), et, cont, bv(64, 0), bv(64, int64(len(xs))), k)
						})
						return
					}
					v.assignConv(st, c, xs[i], et, e, func(st *State, x Value) {
						nc := make([]*Term, len(cont))
						for j := range cont {
							nc[j] = store(cont[j], bv(64, int64(i)), x.L[j])
						}
						rec(i+1, st, nc)
					})
				}
				rec(0, st, zeroCont(et))
			})
		})
	case "copy":
		v.evals(e.Args, st, c, func(st *State, xs []Value) {
			k(st, func(st *State, k KV) {
				d, s := xs[0], xs[1]
				if isUntypedNil(s.T) || isUntypedNil(d.T) {
					k(st, mkv(tInt, bv(64, 0)))
					return
				}
				et := elemOf(d.T)
				var src []*Term
				if isString(s.T) {
					src = []*Term{s.L[0]}
				} else {
					src = v.readCont(st, et, s.L[0])
				}
				n := ite(ult(d.L[2], s.L[2]), d.L[2], s.L[2])
				if n.Op == OIte && st.has(n.Args[0]) {
					n = n.Args[1]
				} else if n.Op == OIte && st.has(not(n.Args[0])) {
					n = n.Args[2]
				}
				sl := s.L[1]
				dst := v.readCont(st, et, d.L[0])
				nc := make([]*Term, len(dst))
				for j := range dst {
					nc[j] = acopy(dst[j], d.L[1], n, src[j], sl)
				}
				if n.Op == OConst && n.Val.Sign() == 0 {
					k(st, mkv(tInt, n))
					return
				}
				v.writeCont(st, et, d.L[0], nc, nil)
				k(st, mkv(tInt, n))
			})
		})
	case "make":
		t := info.Types[e.Args[0]].Type
		v.evals(e.Args[1:], st, c, func(st *State, xs []Value) {
			k(st, func(st *State, k KV) {
				switch u := t.Underlying().(type) {
				case *types.Slice:
					n := idx64(xs[0])
					cp := n
					if len(xs) > 1 {
						cp = idx64(xs[1])
					}
					goal := and(ule(n, cp), ule(cp, bvBig(64, lenHi)))
					if len(xs) == 1 {
						goal = ule(n, bvBig(64, lenHi))
					}
					v.check(st, c, goal, "makeslice: len out of range", e.Pos(), func(st *State) {
						ref := v.allocSlice(st, u.Elem(), zeroCont(u.Elem()))
						k(st, Value{t, []*Term{ref, bv(64, 0), n, cp}})
					})
				case *types.Map:
					k(st, mkv(t, v.newMap(st, t)))
				case *types.Chan:
					k(st, mkv(t, v.allocRef(st)))
				default:
					v.fail(e.Pos(), "make %s", t)
				}
			})
		})
	case "new":
		t := info.Types[e].Type
		now(func(st *State, k KV) {
			k(st, mkv(t, v.newObj(st, zeroValue(t.Underlying().(*types.Pointer).Elem()))))
		})
	case "delete":
		v.evals(e.Args, st, c, func(st *State, xs []Value) {
			v.assignConv(st, c, xs[1], xs[0].T.Underlying().(*types.Map).Key(), e, func(st *State, kv Value) {
				k(st, func(st *State, k KV) {
					v.mapDelete(st, xs[0].T, xs[0].term(), kv)
					k(st, Value{types.NewTuple(), nil})
				})
			})
		})
	case "panic":
		v.eval(e.Args[0], st, c, func(st *State, x Value) {
			k(st, func(st *State, k KV) {
				if c.spec {
					return
				}
				if c.catch {
					c.pan(st, "panic", e.Pos())
					return
				}
				v.oblig(st, c, tFalse, "no-panic", "explicit panic reachable", e.Pos())
			})
		})
	case "min", "max":
		v.evals(e.Args, st, c, func(st *State, xs []Value) {
			t := info.Types[e].Type
			k(st, func(st *State, k KV) {
				r := xs[0].term()
				w := leaves(t)[0].sort.W
				r = resize(r, w, true)
				for _, x := range xs[1:] {
					y := resize(x.term(), w, true)
					lt := pick(isSigned(t), slt, ult)
					if name == "min" {
						r = ite(lt(y, r), y, r)
					} else {
						r = ite(lt(r, y), y, r)
					}
				}
				k(st, mkv(t, r))
			})
		})
	case "print", "println":
		now(func(st *State, k KV) { k(st, Value{types.NewTuple(), nil}) })
	default:
		v.fail(e.Pos(), "builtin %s", name)
	}
}

func (v *V) appendTo(st *State, c *Ctx, s Value, et types.Type, src []*Term, off, n *Term, k KV) {
	if n.Op == OConst && n.Val.Sign() == 0 {
		k(st, s)
		return
	}
	ref, so, ln, cp := s.L[0], s.L[1], s.L[2], s.L[3]
	nl := bvadd(ln, n)
	// growth beyond the address space cannot happen (out of memory first)
	st.add(ule(nl, bvBig(64, lenHi)), false)
	st.add(ule(n, bvBig(64, lenHi)), false)
	fits := ule(nl, cp)
	v.branch(st, fits, func(st *State) {
		dst := v.readCont(st, et, ref)
		nc := make([]*Term, len(dst))
		for j := range dst {
			nc[j] = acopy(dst[j], bvadd(so, ln), n, src[j], off)
		}
		v.writeCont(st, et, ref, nc, nil)
		k(st, Value{s.T, []*Term{ref, so, nl, cp}})
	}, func(st *State) {
		var nc []*Term
		z := zeroCont(et)
		if ref.Op == OConst && ref.Val.Sign() == 0 {
			nc = z
		} else {
			dst := v.readCont(st, et, ref)
			nc = make([]*Term, len(dst))
			for j := range dst {
				nc[j] = acopy(z[j], bv(64, 0), ln, dst[j], so)
			}
		}
		for j := range nc {
			nc[j] = acopy(nc[j], ln, n, src[j], off)
		}
		r := v.allocSlice(st, et, nc)
		ncap := v.freshLen(st, "cap", nl)
		k(st, Value{s.T, []*Term{r, bv(64, 0), nl, ncap}})
	})
}

// ---------- ghost functions ----------

func specCtx(c *Ctx) *Ctx {
	c2 := *c
	c2.spec = true
	c2.catch = false
	return &c2
}

func (v *V) pure(e ast.Expr, st *State, c *Ctx, k KV) {
	v.gather(st, func(kk KV) { v.eval(e, st, specCtx(c), kk) }, k)
}

func (v *V) ghost(name string, e *ast.CallExpr, st *State, c *Ctx, k KV) {
	void := Value{types.NewTuple(), nil}
	switch name {
	case "gvRequires":
		v.pure(e.Args[0], st, c, func(st *State, x Value) {
			if c.apply != nil {
				if !c.apply.outer.spec {
					v.oblig(st, c.apply.outer, x.term(), "pre", c.apply.fd.Decl.Name.Name, c.apply.site)
				}
				st.add(x.term(), false)
				k(st, void)
				return
			}
			st.add(x.term(), false)
			if !st.dead() {
				k(st, void)
			}
		})
	case "gvEnsures", "gvAssert":
		label := ""
		if tv := c.fr.pkg.Info.Types[e.Args[0]]; tv.Value != nil {
			label = strings.Trim(tv.Value.ExactString(), "\"")
		}
		v.pure(e.Args[1], st, c, func(st *State, x Value) {
			if c.apply != nil {
				if name == "gvEnsures" {
					st.add(x.term(), false)
				}
				k(st, void)
				return
			}
			v.ensuresReached[label]++
			if v.dry == 0 {
				v.covers = append(v.covers, &Obl{Contract: v.con.Name, Kind: "cover", Desc: label, Hyps: st.hyps(), Goal: tFalse, Cover: true})
			}
			kind := "ensures"
			if name == "gvAssert" {
				kind = "assert"
			}
			v.splitOblig(st, c, x.term(), kind, label, e.Pos())
			st.add(x.term(), false)
			k(st, void)
		})
	case "gvForall", "gvExists":
		v.evals(e.Args[:2], st, c, func(st *State, b []Value) {
			fl, ok := ast.Unparen(e.Args[2]).(*ast.FuncLit)
			if !ok {
				v.fail(e.Pos(), "quantifier body must be a function literal")
			}
			lo, hi := b[0].term(), b[1].term()
			lo, hi = resize(lo, 64, true), resize(hi, 64, true)
			bk := freshBound()
			v.quant++
			base := st.pc
			heap := st.heap
			cl := &Closure{lit: fl, frame: c.fr}
			s2 := st.clone()
			var outs []outcome
			v.runClosure(cl, []Value{mkv(tInt, bk)}, s2, specCtx(c), e, func(s *State, x Value) { outs = append(outs, outcome{s, x, true}) })
			v.quant--
			_ = heap
			outs = v.merge(base, outs)
			if len(outs) != 1 {
				v.fail(e.Pos(), "quantifier body has %d unmergeable outcomes", len(outs))
			}
			var facts []*Term
			for p := outs[0].st.pc; p != nil && p != base; p = p.prev {
				if p.t.hasBound {
					facts = append(facts, p.t)
				} else {
					st.add(p.t, false)
				}
			}
			rngc := and(sle(lo, bk), slt(bk, hi))
			if nonneg(lo) && nonneg(hi) {
				// unsigned form is easier on the solvers
				rngc = and(ule(lo, bk), ult(bk, hi))
			}
			var q *Term
			if name == "gvForall" {
				q = forall(bk, imp(and(append(facts, rngc)...), outs[0].v.term()))
			} else {
				q = not(forall(bk, imp(and(append(facts, rngc)...), not(outs[0].v.term()))))
			}
			if st.alloc < outs[0].st.alloc {
				st.alloc = outs[0].st.alloc
			}
			k(st, boolV(q))
		})
	case "gvImp", "gvIff":
		v.evals(e.Args, st, specCtx(c), func(st *State, b []Value) {
			if name == "gvImp" {
				k(st, boolV(imp(b[0].term(), b[1].term())))
			} else {
				k(st, boolV(eq(b[0].term(), b[1].term())))
			}
		})
	case "gvIte", "gvIteU":
		t := c.fr.pkg.Info.Types[e].Type
		v.evals(e.Args, st, specCtx(c), func(st *State, b []Value) {
			x, y := b[1], b[2]
			L := make([]*Term, len(x.L))
			for i := range L {
				p, q := x.L[i], y.L[i]
				L[i] = ite(b[0].term(), p, q)
			}
			k(st, Value{t, L})
		})
	case "gvPanics":
		v.eval(e.Args[0], st, c, func(st *State, f Value) {
			cl := closures[f.term().Val.String()]
			if cl == nil {
				v.fail(e.Pos(), "gvPanics needs a function literal")
			}
			if c.apply != nil {
				b := freshVar("panics", boolSort)
				st.panicked = b
				v.runClosure(cl, nil, st, c, e, func(st *State, _ Value) { k(st, boolV(b)) })
				return
			}
			c2 := *c
			c2.catch = true
			c2.spec = false
			c2.pan = func(st *State, _ string, _ token.Pos) { k(st, boolV(tTrue)) }
			v.runClosure(cl, nil, st, &c2, e, func(st *State, _ Value) { k(st, boolV(tFalse)) })
		})
	case "gvModSlice":
		v.eval(e.Args[0], st, specCtx(c), func(st *State, s Value) {
			et := elemOf(s.T)
			if isView(s.L[0]) {
				v.fail(e.Pos(), "gvModSlice of a view")
			}
			st.mods = append(st.mods[:len(st.mods):len(st.mods)], modSpec{class: heapClass(et), ref: s.L[0], lo: s.L[1], n: s.L[2], leafB: -1, loc: &Loc{kind: 1, class: et, T: s.T}})
			k(st, void)
		})
	case "gvModCap":
		v.eval(e.Args[0], st, specCtx(c), func(st *State, s Value) {
			et := elemOf(s.T)
			st.mods = append(st.mods[:len(st.mods):len(st.mods)], modSpec{class: heapClass(et), ref: s.L[0], lo: bvadd(s.L[1], s.L[2]), n: bvsub(s.L[3], s.L[2]), leafB: -1, loc: &Loc{kind: 1, class: et, T: s.T}})
			k(st, void)
		})
	case "gvModPtr":
		v.eval(e.Args[0], st, specCtx(c), func(st *State, p Value) {
			l := v.ptrLoc(p)
			st.mods = append(st.mods[:len(st.mods):len(st.mods)], locMod(l))
			// the content of a container belongs to the object
			if hasContainer(l.T) {
				x := v.read(st, l)
				for i, lf := range leaves(l.T) {
					if lf.path == "content" || strings.HasSuffix(lf.path, ".content") {
						for _, mt := range []*types.Map{tStrBytes, tAnyAny} {
							st.mods = append(st.mods, modSpec{class: classOf(mt), ref: x.L[i], leafB: -1, loc: &Loc{kind: 3, mapT: mt, ref: x.L[i]}})
						}
					}
				}
			}
			k(st, void)
		})
	case "gvModAll": // any object of the pointed-to type may change
		v.eval(e.Args[0], st, specCtx(c), func(st *State, p Value) {
			et := p.T.Underlying().(*types.Pointer).Elem()
			st.mods = append(st.mods[:len(st.mods):len(st.mods)], modSpec{class: heapClass(et), leafB: -1, all: et})
			k(st, void)
		})
	case "gvModMap":
		v.eval(e.Args[0], st, specCtx(c), func(st *State, m Value) {
			st.mods = append(st.mods[:len(st.mods):len(st.mods)], modSpec{class: classOf(m.T.Underlying()), ref: m.term(), leafB: -1, loc: &Loc{kind: 3, mapT: m.T, ref: m.term()}})
			k(st, void)
		})
	case "gvClone":
		v.eval(e.Args[0], st, specCtx(c), func(st *State, s Value) {
			et := elemOf(s.T)
			cont := v.readCont(st, et, s.L[0])
			ref := v.allocSlice(st, et, cont)
			k(st, Value{s.T, []*Term{ref, s.L[1], s.L[2], s.L[2]}})
		})
	case "gvStr":
		v.eval(e.Args[0], st, specCtx(c), func(st *State, s Value) {
			cont := v.readCont(st, elemOf(s.T), s.L[0])
			k(st, Value{tString, []*Term{cont[0], s.L[1], s.L[2]}})
		})
	case "gvEqBytes":
		v.evals(e.Args, st, specCtx(c), func(st *State, b []Value) {
			x, y := b[0], b[1]
			xc := v.readCont(st, elemOf(x.T), x.L[0])[0]
			yc := v.readCont(st, elemOf(y.T), y.L[0])[0]
			k(st, boolV(seqEq(xc, x.L[1], x.L[2], yc, y.L[1], y.L[2])))
		})
	case "gvFresh":
		v.eval(e.Args[0], st, specCtx(c), func(st *State, s Value) {
			w := bvBig(64, firstFresh)
			if c.apply != nil {
				w = c.apply.watermark
			}
			z := eq(s.L[0], bv(64, 0))
			if isView(s.L[0]) {
				k(st, boolV(tTrue)) // view of a local
				return
			}
			k(st, boolV(or(z, ule(w, s.L[0]))))
		})
	case "gvSameArray":
		v.evals(e.Args, st, specCtx(c), func(st *State, b []Value) {
			k(st, boolV(eq(b[0].L[0], b[1].L[0])))
		})
	case "gvSliceOf": // gvSliceOf(r, s, lo, hi): r is exactly s[lo:hi] (same memory)
		v.evals(e.Args, st, specCtx(c), func(st *State, b []Value) {
			r, s := b[0], b[1]
			lo, hi := resize(b[2].term(), 64, true), resize(b[3].term(), 64, true)
			k(st, boolV(and(eq(r.L[0], s.L[0]), eq(r.L[1], bvadd(s.L[1], lo)), eq(r.L[2], bvsub(hi, lo)))))
		})
	case "gvDisjoint":
		v.evals(e.Args, st, specCtx(c), func(st *State, b []Value) {
			x, y := b[0], b[1]
			k(st, boolV(or(not(eq(x.L[0], y.L[0])), ule(bvadd(x.L[1], x.L[3]), y.L[1]), ule(bvadd(y.L[1], y.L[3]), x.L[1]))))
		})
	case "gvUnlocked":
		v.eval(e.Args[0], st, specCtx(c), func(st *State, p Value) {
			x := v.read(st, v.ptrLoc(p))
			k(st, boolV(eq(x.L[0], bv(8, 0))))
		})
	case "gvDistinct":
		v.evals(e.Args, st, specCtx(c), func(st *State, b []Value) {
			k(st, boolV(not(eq(b[0].L[0], b[1].L[0]))))
		})
	case "gvNote", "gvOracleOnly":
		k(st, void)
	default:
		// ordinary ghost helper: inline its body
		obj := calleeObj(c.fr.pkg.Info, e.Fun).(*types.Func)
		fd := v.pr.ByObj[obj.Origin()]
		sig := obj.Type().(*types.Signature)
		v.args(e, sig, st, specCtx(c), func(st *State, as []Value) {
			if lc := v.con.set.ByFunc[fd]; lc != nil && lc.Lemma && lc != v.con {
				v.used[lc.Name] = true
				v.applyContract(lc, as, st, c, e, k)
				return
			}
			if _, rec := fd.Dirs["rec"]; rec {
				v.recCall(fd, as, st, c, e, k)
				return
			}
			v.inlineCall(fd, nil, as, st, specCtx(c), k)
		})
	}
}

func locMod(l *Loc) modSpec {
	if l.kind != 1 {
		return modSpec{loc: l, leafB: -1}
	}
	if l.whole && len(l.steps) == 0 {
		at := l.T.Underlying().(*types.Array)
		return modSpec{class: heapClass(l.class), ref: l.ref, lo: bv(64, 0), n: bv(64, at.Len()), leafB: -1, loc: l}
	}
	a, b := 0, len(leaves(l.class))
	t := l.class
	for _, s := range l.steps {
		if s.idx != nil {
			break
		}
		stt := t.Underlying().(*types.Struct)
		fa, fb := fieldRange(stt, s.field)
		a, b = a+fa, a+fb
		t = stt.Field(s.field).Type()
	}
	return modSpec{class: heapClass(l.class), ref: l.ref, lo: l.idx, n: bv(64, 1), leafA: a, leafB: b, loc: l}
}

// splitOblig emits one obligation per conjunct.
func (v *V) splitOblig(st *State, c *Ctx, g *Term, kind, desc string, pos token.Pos) {
	if g.Op == OAnd && len(g.Args) <= 8 {
		for _, x := range g.Args {
			v.oblig(st, c, x, kind, desc, pos)
		}
		return
	}
	v.oblig(st, c, g, kind, desc, pos)
}

// recCall: recursive logic function as an uninterpreted symbol with unfolding.
func (v *V) recCall(fd *FuncDecl, args []Value, st *State, c *Ctx, e ast.Node, k KV) {
	sig := fd.Obj.Type().(*types.Signature)
	rt := sig.Results().At(0).Type()
	var ts []*Term
	for _, a := range args {
		if sl, ok := a.T.Underlying().(*types.Slice); ok {
			ts = append(ts, v.readCont(st, sl.Elem(), a.L[0])...)
			ts = append(ts, a.L[1], a.L[2])
		} else {
			ts = append(ts, a.L...)
		}
	}
	name := "rec$" + fd.Decl.Name.Name
	for _, t := range ts {
		if t.Sort.K == SArr {
			name += "" // array arguments are passed to the solver as arrays
		}
	}
	app := uf(name, leaves(rt)[0].sort, ts...)
	if recDefs[app.Name] == nil {
		vv := v
		recDefs[app.Name] = &recDef{fuel: 2, unfold: func(ts []*Term) *Term {
			s := &State{env: map[ckey]Value{}, box: map[ckey]*Term{}, heap: map[string]*HNode{}, glob: map[types.Object]Value{}, defers: map[int][]deferred{}}
			i := 0
			var as []Value
			for j := 0; j < sig.Params().Len(); j++ {
				t := sig.Params().At(j).Type()
				if sl, ok := t.Underlying().(*types.Slice); ok {
					n := len(leaves(sl.Elem()))
					ref := vv.allocSlice(s, sl.Elem(), ts[i:i+n])
					as = append(as, Value{t, []*Term{ref, ts[i+n], ts[i+n+1], ts[i+n+1]}})
					i += n + 2
				} else {
					n := len(leaves(t))
					as = append(as, Value{t, ts[i : i+n]})
					i += n
				}
			}
			vv.frames++
			cc := &Ctx{fr: &Frame{id: vv.frames, pkg: fd.Pkg, fd: fd, boxset: map[types.Object]bool{}}, spec: true, pan: func(*State, string, token.Pos) {}}
			vv.dry++
			var outs []outcome
			vv.inlineCall(fd, nil, as, s, cc, func(s *State, x Value) { outs = append(outs, outcome{s, x, true}) })
			vv.dry--
			outs = vv.merge(nil, outs)
			if len(outs) != 1 {
				unsup("recursive logic function with unmergeable outcomes")
			}
			return outs[0].v.term()
		}}
	}
	k(st, Value{rt, []*Term{app}})
}
