package main

import (
	"bytes"
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// intify restates a bit-vector query over the integers: every bit-vector term
// becomes its unsigned value, wrap-around is made explicit with a quotient
// variable, and operations without an arithmetic reading become uninterpreted
// (a weaker query, so an unsat answer still proves the goal).

type intifier struct {
	out   bytes.Buffer
	side  []string
	memo  map[*Term]string
	decl  map[string]bool
	n     int
	lo    map[*Term]*big.Int
	hi    map[*Term]*big.Int
	rm    map[*Term][2]*big.Int
	decls bytes.Buffer
	quots map[*Term][]string
	prods map[*Term][]string
}

func needsInt(fs []*Term) bool {
	seen := map[*Term]bool{}
	found := false
	var w func(t *Term)
	w = func(t *Term) {
		if found || seen[t] {
			return
		}
		seen[t] = true
		switch t.Op {
		case OMul, OUdiv, OUrem, OSdiv, OSrem, OBv2Nat, OInt2Bv:
			found = true
			return
		case OMulC:
			if log2(t.Val) < 0 && t.Val.Cmp(maxU(t.Sort.W)) != 0 {
				found = true
				return
			}
		}
		for _, a := range t.Args {
			w(a)
		}
	}
	for _, f := range fs {
		w(f)
	}
	return found
}

func intSortName(s *Sort) string {
	switch s.K {
	case SBV, SInt:
		return "Int"
	case SBool:
		return "Bool"
	case SArr:
		return "(Array " + intSortName(s.Idx) + " " + intSortName(s.Elem) + ")"
	}
	return s.Name
}

func num(b *big.Int) string {
	if b.Sign() < 0 {
		return "(- " + new(big.Int).Neg(b).String() + ")"
	}
	return b.String()
}

func (q *intifier) fresh(prefix, sort string) string {
	q.n++
	s := fmt.Sprintf("%s!%d", prefix, q.n)
	fmt.Fprintf(&q.decls, "(declare-const %s %s)\n", s, sort)
	return s
}

func (q *intifier) assert(f string, a ...any) { q.side = append(q.side, fmt.Sprintf(f, a...)) }

func (q *intifier) rng(t *Term) (*big.Int, *big.Int) {
	if r, ok := q.rm[t]; ok {
		return r[0], r[1]
	}
	lo, hi := rng(t)
	if t.Sort.K == SBV {
		w := t.Sort.W
		switch t.Op {
		case OAdd:
			l, h := q.sumRange(t)
			if l.Sign() >= 0 && h.Cmp(maxU(w)) <= 0 {
				lo, hi = maxB(lo, l), minB(hi, h)
			}
		case OMulC, OMul:
			a := t.Args[0]
			al, ah := q.rng(a)
			bl, bh := t.Val, t.Val
			if t.Op == OMul {
				bl, bh = q.rng(t.Args[1])
			}
			h := new(big.Int).Mul(ah, bh)
			if h.Cmp(maxU(w)) <= 0 {
				lo, hi = maxB(lo, new(big.Int).Mul(al, bl)), minB(hi, h)
			}
		case OUdiv:
			al, ah := q.rng(t.Args[0])
			bl, bh := q.rng(t.Args[1])
			if bl.Sign() > 0 {
				lo, hi = maxB(lo, new(big.Int).Div(al, bh)), minB(hi, new(big.Int).Div(ah, bl))
			}
		case OSdiv, OSrem, OUrem:
			al, ah := q.rng(t.Args[0])
			bl, bh := q.rng(t.Args[1])
			half := pow2(w - 1)
			if bl.Sign() > 0 && (t.Op == OUrem || ah.Cmp(half) < 0 && bh.Cmp(half) < 0) {
				if t.Op == OSdiv {
					lo, hi = maxB(lo, new(big.Int).Div(al, bh)), minB(hi, new(big.Int).Div(ah, bl))
				} else {
					hi = minB(hi, minB(ah, new(big.Int).Sub(bh, bigOne)))
				}
			}
		case OZext:
			lo, hi = q.rng(t.Args[0])
		case OIte:
			al, ah := q.rng(t.Args[1])
			bl, bh := q.rng(t.Args[2])
			lo, hi = maxB(lo, minB(al, bl)), minB(hi, maxB(ah, bh))
		}
		if l := q.lo[t]; l != nil {
			lo = maxB(lo, l)
		}
		if h := q.hi[t]; h != nil {
			hi = minB(hi, h)
		}
		if lo.Cmp(hi) > 0 {
			lo, hi = rng(t)
		}
	}
	q.rm[t] = [2]*big.Int{lo, hi}
	return lo, hi
}

func minB(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}

func maxB(a, b *big.Int) *big.Int {
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

func coef(t *Term) (*big.Int, *Term) {
	w := t.Sort.W
	if t.Op == OConst {
		return signed(t.Val, w), nil
	}
	if t.Op == OMulC {
		return signed(t.Val, w), t.Args[0]
	}
	return bigOne, t
}

func (q *intifier) sumRange(t *Term) (*big.Int, *big.Int) {
	l, h := new(big.Int), new(big.Int)
	for _, a := range t.Args {
		c, x := coef(a)
		if x == nil {
			l.Add(l, c)
			h.Add(h, c)
			continue
		}
		xl, xh := q.rng(x)
		if c.Sign() >= 0 {
			l.Add(l, new(big.Int).Mul(c, xl))
			h.Add(h, new(big.Int).Mul(c, xh))
		} else {
			l.Add(l, new(big.Int).Mul(c, xh))
			h.Add(h, new(big.Int).Mul(c, xl))
		}
	}
	return l, h
}

// wrap names the value of integer expression s (range [l,h]) modulo 2^w
func (q *intifier) wrap(s string, l, h *big.Int, w int) string {
	m := pow2(w)
	if l.Sign() >= 0 && h.Cmp(m) < 0 {
		return s
	}
	r, k := q.fresh("r", "Int"), q.fresh("k", "Int")
	kl := new(big.Int).Div(l, m)
	kh := new(big.Int).Div(h, m)
	q.assert("(and (= %s (+ %s (* %s %s))) (<= 0 %s) (< %s %s) (<= %s %s) (<= %s %s))", s, r, num(m), k, r, r, num(m), num(kl), k, k, num(kh))
	return r
}

func (q *intifier) sgn(t *Term) string {
	x := q.conv(t)
	_, h := q.rng(t)
	half := pow2(t.Sort.W - 1)
	if h.Cmp(half) < 0 {
		return x
	}
	return fmt.Sprintf("(ite (< %s %s) %s (- %s %s))", x, num(half), x, x, num(pow2(t.Sort.W)))
}

func (q *intifier) conv(t *Term) string {
	if s, ok := q.memo[t]; ok {
		return s
	}
	s := q.conv0(t)
	if len(s) > 40 && t.Op != OVar {
		n := q.fresh("d", intSortName(t.Sort))
		q.assert("(= %s %s)", n, s)
		s = n
	}
	q.memo[t] = s
	return s
}

func (q *intifier) rangeFact(s string, so *Sort, t *Term) {
	if so.K == SBV {
		l, h := bigZero, maxU(so.W)
		if t != nil {
			l, h = q.rng(t)
		}
		q.assert("(and (<= %s %s) (<= %s %s))", num(l), s, s, num(h))
	}
}

func (q *intifier) abstract(t *Term) string {
	// uninterpreted, congruent in its arguments
	name := fmt.Sprintf("ab$%s$%d$%d", opNames[t.Op], t.I1, t.I2)
	if t.Sort.K == SBV {
		name += fmt.Sprintf("$%d", t.Sort.W)
	}
	if t.Op == OACopy {
		n := q.fresh("acp", intSortName(t.Sort))
		return n
	}
	var as, ss []string
	for _, a := range t.Args {
		as = append(as, q.conv(a))
		ss = append(ss, intSortName(a.Sort))
		name += "_" + sanitize(intSortName(a.Sort))
		if a.Sort.K == SBV {
			name += fmt.Sprint(a.Sort.W)
		}
	}
	if !q.decl[name] {
		q.decl[name] = true
		fmt.Fprintf(&q.decls, "(declare-fun %s (%s) %s)\n", qn(name), strings.Join(ss, " "), intSortName(t.Sort))
	}
	s := "(" + qn(name) + " " + strings.Join(as, " ") + ")"
	n := q.fresh("u", intSortName(t.Sort))
	q.assert("(= %s %s)", n, s)
	q.rangeFact(n, t.Sort, nil)
	return n
}

func (q *intifier) conv0(t *Term) string {
	bin := func(op string) string { return fmt.Sprintf("(%s %s %s)", op, q.conv(t.Args[0]), q.conv(t.Args[1])) }
	w := t.Sort.W
	switch t.Op {
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OConst:
		return num(t.Val)
	case OVar:
		n := qn(t.Name)
		if !q.decl[n] {
			q.decl[n] = true
			fmt.Fprintf(&q.decls, "(declare-const %s %s)\n", n, intSortName(t.Sort))
			q.rangeFact(n, t.Sort, t)
		}
		return n
	case OUF:
		if t.Name == "seq" {
			n := fmt.Sprintf("seq!%d", t.id)
			fmt.Fprintf(&q.decls, "(declare-const %s BSeq)\n", n)
			return n
		}
		n := qn(t.Name)
		var as, ss []string
		for _, a := range t.Args {
			as = append(as, q.conv(a))
			ss = append(ss, intSortName(a.Sort))
		}
		if !q.decl[n] {
			q.decl[n] = true
			fmt.Fprintf(&q.decls, "(declare-fun %s (%s) %s)\n", n, strings.Join(ss, " "), intSortName(t.Sort))
		}
		s := n
		if len(as) > 0 {
			s = "(" + n + " " + strings.Join(as, " ") + ")"
		}
		q.rangeFact(s, t.Sort, t)
		return s
	case ONot:
		return "(not " + q.conv(t.Args[0]) + ")"
	case OAnd, OOr:
		s := "(" + opNames[t.Op]
		for _, a := range t.Args {
			s += " " + q.conv(a)
		}
		return s + ")"
	case OEq:
		return bin("=")
	case OIte:
		return fmt.Sprintf("(ite %s %s %s)", q.conv(t.Args[0]), q.conv(t.Args[1]), q.conv(t.Args[2]))
	case OAdd:
		var parts []string
		for _, a := range t.Args {
			c, x := coef(a)
			switch {
			case x == nil:
				parts = append(parts, num(c))
			case c.Cmp(bigOne) == 0:
				parts = append(parts, q.conv(x))
			default:
				parts = append(parts, fmt.Sprintf("(* %s %s)", num(c), q.conv(x)))
			}
		}
		l, h := q.sumRange(t)
		return q.wrap("(+ "+strings.Join(parts, " ")+")", l, h, w)
	case OMulC:
		c := signed(t.Val, w)
		l, h := q.rng(t.Args[0])
		if new(big.Int).Mul(t.Val, h).Cmp(maxU(w)) <= 0 {
			c = t.Val
		}
		a, b := new(big.Int).Mul(c, l), new(big.Int).Mul(c, h)
		return q.wrap(fmt.Sprintf("(* %s %s)", num(c), q.conv(t.Args[0])), minB(a, b), maxB(a, b), w)
	case OMul:
		_, h0 := q.rng(t.Args[0])
		_, h1 := q.rng(t.Args[1])
		h := new(big.Int).Mul(h0, h1)
		if x := q.quotOf(t.Args[0], t.Args[1]); x != nil {
			_, xh := q.rng(x)
			h = minB(h, xh)
		}
		if x := q.quotOf(t.Args[1], t.Args[0]); x != nil {
			_, xh := q.rng(x)
			h = minB(h, xh)
		}
		s := bin("*")
		for i := 0; i < 2; i++ {
			b, x := t.Args[i], q.conv(t.Args[1-i])
			bs := q.conv(b)
			for _, y := range q.prods[b] {
				q.assert("(=> (< %s %s) (<= (+ (* %s %s) %s) (* %s %s)))", x, y, x, bs, bs, y, bs)
				q.assert("(=> (< %s %s) (<= (+ (* %s %s) %s) (* %s %s)))", y, x, y, bs, bs, x, bs)
			}
			if len(q.prods[b]) < 6 {
				q.prods[b] = append(q.prods[b], x)
			}
		}
		return q.wrap(s, bigZero, h, w)
	case OSdiv, OSrem:
		_, h0 := q.rng(t.Args[0])
		l1, h1 := q.rng(t.Args[1])
		half := pow2(w - 1)
		if h0.Cmp(half) >= 0 || h1.Cmp(half) >= 0 || l1.Sign() == 0 {
			return q.abstract(t)
		}
		qq, r := q.divmod(t.Args[0], t.Args[1])
		if t.Op == OSdiv {
			return qq
		}
		return r
	case OUdiv, OUrem:
		b := t.Args[1]
		l, _ := q.rng(b)
		op := "div"
		zero := num(maxU(w))
		if t.Op == OUrem {
			op = "mod"
			zero = q.conv(t.Args[0])
		}
		s := bin(op)
		if b.Op != OConst {
			// name quotient and remainder explicitly
			qq, r := q.divmod(t.Args[0], b)
			if t.Op == OUdiv {
				s = qq
			} else {
				s = r
			}
		}
		if l.Sign() > 0 {
			return s
		}
		return fmt.Sprintf("(ite (= %s 0) %s %s)", q.conv(b), zero, s)
	case OUlt:
		return bin("<")
	case OUle:
		return bin("<=")
	case OSlt:
		return fmt.Sprintf("(< %s %s)", q.sgn(t.Args[0]), q.sgn(t.Args[1]))
	case OSle:
		return fmt.Sprintf("(<= %s %s)", q.sgn(t.Args[0]), q.sgn(t.Args[1]))
	case OZext:
		return q.conv(t.Args[0])
	case OSext:
		_, h := q.rng(t.Args[0])
		half := pow2(t.Args[0].Sort.W - 1)
		x := q.conv(t.Args[0])
		if h.Cmp(half) < 0 {
			return x
		}
		d := new(big.Int).Sub(pow2(w), pow2(t.Args[0].Sort.W))
		return fmt.Sprintf("(ite (< %s %s) %s (+ %s %s))", x, num(half), x, x, num(d))
	case OExtract:
		x := q.conv(t.Args[0])
		_, h := q.rng(t.Args[0])
		if t.I2 > 0 {
			x = fmt.Sprintf("(div %s %s)", x, num(pow2(t.I2)))
		}
		if h.BitLen() > t.I1+1 {
			x = fmt.Sprintf("(mod %s %s)", x, num(pow2(t.I1-t.I2+1)))
		}
		return x
	case OConcat:
		s := ""
		for i, a := range t.Args {
			if i == 0 {
				s = q.conv(a)
				continue
			}
			s = fmt.Sprintf("(+ (* %s %s) %s)", num(pow2(a.Sort.W)), s, q.conv(a))
		}
		return s
	case OBNot:
		return fmt.Sprintf("(- %s %s)", num(maxU(w)), q.conv(t.Args[0]))
	case OShl:
		if t.Args[1].Op == OConst && t.Args[1].Val.Cmp(big.NewInt(int64(w))) < 0 {
			c := pow2(int(t.Args[1].Val.Int64()))
			_, h := q.rng(t.Args[0])
			return q.wrap(fmt.Sprintf("(* %s %s)", num(c), q.conv(t.Args[0])), bigZero, new(big.Int).Mul(c, h), w)
		}
	case OLshr:
		if t.Args[1].Op == OConst && t.Args[1].Val.Cmp(big.NewInt(int64(w))) < 0 {
			return fmt.Sprintf("(div %s %s)", q.conv(t.Args[0]), num(pow2(int(t.Args[1].Val.Int64()))))
		}
	case OBAnd:
		if len(t.Args) == 2 {
			for i := 0; i < 2; i++ {
				c := t.Args[i]
				if c.Op == OConst {
					if k := log2(new(big.Int).Add(c.Val, bigOne)); k >= 0 {
						return fmt.Sprintf("(mod %s %s)", q.conv(t.Args[1-i]), num(pow2(k)))
					}
				}
			}
		}
	case OSelect:
		s := bin("select")
		n := q.fresh("s", intSortName(t.Sort))
		q.assert("(= %s %s)", n, s)
		q.rangeFact(n, t.Sort, t)
		return n
	case OStore:
		return fmt.Sprintf("(store %s %s %s)", q.conv(t.Args[0]), q.conv(t.Args[1]), q.conv(t.Args[2]))
	case OKArr:
		return fmt.Sprintf("((as const %s) %s)", intSortName(t.Sort), q.conv(t.Args[0]))
	case OIAdd, OISub, OIMul, OIDiv, OIMod:
		s := "(" + opNames[t.Op]
		for _, a := range t.Args {
			s += " " + q.conv(a)
		}
		return s + ")"
	case OILt:
		return bin("<")
	case OILe:
		return bin("<=")
	case OBv2Nat:
		return q.conv(t.Args[0])
	case OInt2Bv:
		return fmt.Sprintf("(mod %s %s)", q.conv(t.Args[0]), num(pow2(w)))
	}
	if t.Sort.K == SArr && len(t.Args) == 0 {
		return q.fresh("arr", intSortName(t.Sort))
	}
	return q.abstract(t)
}

// quotOf: t is x divided by b
func (q *intifier) quotOf(t, b *Term) *Term {
	if t.Op == OUdiv && t.Args[1] == b {
		return t.Args[0]
	}
	if t.Op == OSdiv && t.Args[1] == b {
		half := pow2(t.Sort.W - 1)
		_, h0 := q.rng(t.Args[0])
		_, h1 := q.rng(b)
		if h0.Cmp(half) < 0 && h1.Cmp(half) < 0 {
			return t.Args[0]
		}
	}
	return nil
}

func (q *intifier) divmod(a, b *Term) (string, string) {
	key := fmt.Sprintf("%d/%d", a.id, b.id)
	x, y := q.conv(a), q.conv(b)
	qq, r := "q$"+key, "r$"+key
	if !q.decl[key] {
		q.decl[key] = true
		fmt.Fprintf(&q.decls, "(declare-const |%s| Int)\n(declare-const |%s| Int)\n", qq, r)
		q.assert("(=> (not (= %s 0)) (and (= %s (+ (* %s |%s|) |%s|)) (<= 0 |%s|) (< |%s| %s) (<= 0 |%s|) (<= |%s| %s)))", y, x, y, qq, r, r, r, y, qq, qq, x)
		// monotonicity between quotients by the same divisor
		for _, o := range q.quots[b] {
			q.assert("(=> (and (< 0 %s) (< |%s| |%s|)) (<= (+ (* %s |%s|) %s) (* %s |%s|)))", y, o, qq, y, o, y, y, qq)
			q.assert("(=> (and (< 0 %s) (< |%s| |%s|)) (<= (+ (* %s |%s|) %s) (* %s |%s|)))", y, qq, o, y, qq, y, y, o)
		}
		if len(q.quots[b]) < 6 {
			q.quots[b] = append(q.quots[b], qq)
		}
	}
	return "|" + qq + "|", "|" + r + "|"
}

func (qu *Query) emitInt() string {
	q := &intifier{quots: map[*Term][]string{}, prods: map[*Term][]string{}, memo: map[*Term]string{}, decl: map[string]bool{}, lo: map[*Term]*big.Int{}, hi: map[*Term]*big.Int{}, rm: map[*Term][2]*big.Int{}}
	// interval facts stated by top-level hypotheses
	var flat []*Term
	var flatten func(f *Term)
	flatten = func(f *Term) {
		if f.Op == OAnd {
			for _, a := range f.Args {
				flatten(a)
			}
			return
		}
		flat = append(flat, f)
	}
	for _, f := range qu.formulas {
		flatten(f)
	}
	changed := false
	setLo := func(t *Term, l *big.Int) {
		if t.Op == OConst || l.Sign() <= 0 || l.Cmp(maxU(t.Sort.W)) > 0 {
			return
		}
		if o := q.lo[t]; o == nil || l.Cmp(o) > 0 {
			q.lo[t] = l
			changed = true
		}
	}
	setHi := func(t *Term, h *big.Int) {
		if t.Op == OConst || h.Sign() < 0 || h.Cmp(maxU(t.Sort.W)) >= 0 {
			return
		}
		if o := q.hi[t]; o == nil || h.Cmp(o) < 0 {
			q.hi[t] = h
			changed = true
		}
	}
	for pass := 0; pass < 4; pass++ {
		changed = false
		for _, f := range flat {
			neg := false
			g := f
			if g.Op == ONot {
				neg, g = true, g.Args[0]
			}
			switch g.Op {
			case OEq:
				a, b := g.Args[0], g.Args[1]
				if a.Sort.K != SBV {
					continue
				}
				al, ah := q.rng(a)
				bl, bh := q.rng(b)
				if neg {
					if a.Op == OConst && a.Val.Cmp(bl) == 0 {
						setLo(b, new(big.Int).Add(bl, bigOne))
					}
					if b.Op == OConst && b.Val.Cmp(al) == 0 {
						setLo(a, new(big.Int).Add(al, bigOne))
					}
					continue
				}
				setLo(a, bl)
				setHi(a, bh)
				setLo(b, al)
				setHi(b, ah)
			case OUlt, OUle, OSlt, OSle:
				a, b, strict := g.Args[0], g.Args[1], g.Op == OUlt || g.Op == OSlt
				if neg {
					a, b, strict = b, a, !strict
				}
				d := bigZero
				if strict {
					d = bigOne
				}
				half := pow2(a.Sort.W - 1)
				al, ah := q.rng(a)
				_, bh := q.rng(b)
				if g.Op == OUlt || g.Op == OUle {
					setHi(a, new(big.Int).Sub(bh, d))
					setLo(b, new(big.Int).Add(al, d))
					continue
				}
				if ah.Cmp(half) < 0 { // a is not negative: neither is b
					setLo(b, new(big.Int).Add(al, d))
					setHi(b, new(big.Int).Sub(half, bigOne))
					if bh.Cmp(half) < 0 {
						setHi(a, new(big.Int).Sub(bh, d))
					}
				}
			}
		}
		q.rm = map[*Term][2]*big.Int{}
		if !changed {
			break
		}
	}
	var asserts []string
	for _, f := range qu.formulas {
		asserts = append(asserts, q.conv(f))
	}
	// the interval facts follow from the hypotheses; restated here because the
	// translation of a comparison may have used them up
	var narrowed []*Term
	for t := range q.lo {
		narrowed = append(narrowed, t)
	}
	for t := range q.hi {
		if q.lo[t] == nil {
			narrowed = append(narrowed, t)
		}
	}
	sort.Slice(narrowed, func(i, j int) bool { return narrowed[i].id < narrowed[j].id })
	for _, t := range narrowed {
		if _, ok := q.memo[t]; !ok {
			continue
		}
		s := q.conv(t)
		if l := q.lo[t]; l != nil {
			q.assert("(<= %s %s)", num(l), s)
		}
		if h := q.hi[t]; h != nil {
			q.assert("(<= %s %s)", s, num(h))
		}
	}
	var head bytes.Buffer
	head.WriteString("(set-logic ALL)\n")
	hasSeq := bytes.Contains(q.decls.Bytes(), []byte(" BSeq)"))
	us := map[string]bool{}
	var scan func(t *Term)
	seen := map[*Term]bool{}
	scan = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		var so func(s *Sort)
		so = func(s *Sort) {
			if s.K == SU {
				us[s.Name] = true
			}
			if s.K == SArr {
				so(s.Idx)
				so(s.Elem)
			}
		}
		so(t.Sort)
		for _, a := range t.Args {
			scan(a)
		}
	}
	for _, f := range qu.formulas {
		scan(f)
	}
	if hasSeq {
		us["BSeq"] = true
	}
	for _, n := range sortedKeys(us) {
		fmt.Fprintf(&head, "(declare-sort %s 0)\n", n)
	}
	head.Write(q.decls.Bytes())
	for _, s := range q.side {
		fmt.Fprintf(&head, "(assert %s)\n", s)
	}
	for _, s := range asserts {
		fmt.Fprintf(&head, "(assert %s)\n", s)
	}
	head.WriteString("(check-sat)\n")
	return head.String()
}
