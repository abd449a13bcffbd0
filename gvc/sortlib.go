package main

import (
	"fmt"
	"go/ast"
	"go/types"
)

// sort.Sort, sort.Stable, sort.Slice and sort.SliceStable by their documented contract:
// the elements are permuted and no element is Less than an earlier one. The order must
// be a strict weak order on the elements present (a proof obligation, not an assumption).

// quantTerm evaluates a two-place predicate under fresh bound variables.
func (v *V) quantTerm(st *State, c *Ctx, e ast.Node, bs []*Term, f func(st *State, c *Ctx, k KV)) (*Term, []*Term) {
	v.quant++
	base := st.pc
	s2 := st.clone()
	var outs []outcome
	f(s2, specCtx(c), func(s *State, x Value) { outs = append(outs, outcome{s, x, true}) })
	v.quant--
	outs = v.merge(base, outs)
	if len(outs) != 1 {
		v.fail(e.Pos(), "order predicate has %d unmergeable outcomes", len(outs))
	}
	var facts []*Term
	for p := outs[0].st.pc; p != nil && p != base; p = p.prev {
		if p.t.hasBound {
			facts = append(facts, p.t)
		} else {
			st.add(p.t, false)
		}
	}
	if st.alloc < outs[0].st.alloc {
		st.alloc = outs[0].st.alloc
	}
	return outs[0].v.term(), facts
}

func sortModel(v *V, st *State, c *Ctx, e *ast.CallExpr, s Value, stable bool, less func(st *State, c *Ctx, i, j *Term, k KV), k KV) {
	if v.quant > 0 {
		v.fail(e.Pos(), "sorting under a quantifier")
	}
	et := elemOf(s.T)
	n, off := s.L[2], s.L[1]
	rel := func(st *State, i, j *Term) (*Term, *Term) {
		t, facts := v.quantTerm(st, c, e, []*Term{i, j}, func(st *State, c *Ctx, k KV) { less(st, c, i, j, k) })
		return t, and(facts...)
	}
	{ // strict weak order
		i, j, l := freshBound(), freshBound(), freshBound()
		ij, f1 := rel(st, i, j)
		jl, f2 := rel(st, j, l)
		il, f3 := rel(st, i, l)
		ii, f4 := rel(st, i, i)
		in := and(ult(i, n), ult(j, n), ult(l, n))
		v.oblig(st, c, forall(i, imp(and(ult(i, n), f4), not(ii))), "sort-order", "irreflexive", e.Pos())
		v.oblig(st, c, forall(i, forall(j, forall(l, imp(and(in, f1, f2, f3, ij, jl), il)))), "sort-order", "transitive", e.Pos())
		v.oblig(st, c, forall(i, forall(j, forall(l, imp(and(in, f1, f2, f3, not(ij), not(jl)), not(il))))), "sort-order", "incomparability is transitive", e.Pos())
	}
	freshCtr++
	pn := fmt.Sprintf("perm!%d", freshCtr)
	p := func(i *Term) *Term { return uf(pn, bvSort(64), i) }
	q := func(i *Term) *Term { return uf(pn+"inv", bvSort(64), i) }
	old := v.readCont(st, et, s.L[0])
	ls := leaves(et)
	nc := make([]*Term, len(old))
	i, j := freshBound(), freshBound()
	var m1, m2 []*Term
	for x := range old {
		fr := freshVar("sorted", old[x].Sort)
		if lo, hi := bounds(ls[x].kind); ls[x].lift == 0 && hi != nil {
			fr.lo, fr.hi = lo, hi
		}
		nc[x] = acopy(old[x], off, n, fr, off)
		m1 = append(m1, eq(sel(fr, bvadd(off, i)), sel(old[x], bvadd(off, p(i)))))
		m2 = append(m2, eq(sel(old[x], bvadd(off, j)), sel(fr, bvadd(off, q(j)))))
	}
	v.writeCont(st, et, s.L[0], nc, nil)
	st.add(forall(i, imp(ult(i, n), and(append(m1, ult(p(i), n), eq(q(p(i)), i))...))), false)
	st.add(forall(j, imp(ult(j, n), and(append(m2, ult(q(j), n), eq(p(q(j)), j))...))), false)
	a, b := freshBound(), freshBound()
	ba, f := rel(st, b, a)
	st.add(forall(a, forall(b, imp(and(ult(a, b), ult(b, n), f), not(ba)))), false)
	if stable {
		ab, f2 := rel(st, a, b)
		st.add(forall(a, forall(b, imp(and(ult(a, b), ult(b, n), f, f2, not(ab), not(ba)), ult(p(a), p(b))))), false)
	}
	k(st, void())
}

func init() {
	dyn := func(v *V, x Value, e *ast.CallExpr) Value {
		id := x.term()
		if id.Op == OConst {
			if d, ok := dyns[id.Val.String()]; ok {
				return d
			}
		}
		v.fail(e.Pos(), "sorting a value of unknown dynamic type")
		return x
	}
	for _, nm := range []string{"Sort", "Stable"} {
		stable := nm == "Stable"
		libModels["sort."+nm] = func(v *V, a []Value, st *State, c *Ctx, e *ast.CallExpr, k KV) {
			d := dyn(v, a[0], e)
			if _, ok := d.T.Underlying().(*types.Slice); !ok {
				v.fail(e.Pos(), "sorting a %s", d.T)
			}
			it := a[0].T.Underlying().(*types.Interface)
			var lf *types.Func
			for i := 0; i < it.NumMethods(); i++ {
				if it.Method(i).Name() == "Less" {
					lf = it.Method(i)
				}
			}
			sortModel(v, st, c, e, d, stable, func(st *State, c *Ctx, i, j *Term, k KV) {
				v.dynInvoke(d, lf, []Value{intV(i), intV(j)}, st, c, e, k)
			}, k)
		}
	}
	for _, nm := range []string{"Slice", "SliceStable"} {
		stable := nm == "SliceStable"
		libModels["sort."+nm] = func(v *V, a []Value, st *State, c *Ctx, e *ast.CallExpr, k KV) {
			d := dyn(v, a[0], e)
			sortModel(v, st, c, e, d, stable, func(st *State, c *Ctx, i, j *Term, k KV) {
				v.callValue(a[1], []Value{intV(i), intV(j)}, st, c, e, k)
			}, k)
		}
	}
}
