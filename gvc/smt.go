package main

import (
	"bytes"
	"context"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

// recursive logic functions: name -> definition by one unfolding step
type recDef struct {
	unfold func(args []*Term) *Term
	fuel   int
}

var recDefs = map[string]*recDef{}

type Query struct {
	formulas []*Term
	decls    map[string]string
	text     string
	nInst    int
	nSeq     int
	srcHyps  []*Term
	srcGoal  *Term
}

const maxInst = 6000

type baseIdx struct {
	b string
	i *Term
}

type quant struct {
	p, b, body *Term
	trig       []*Term // index patterns e(b)
	trigSort   []*Sort // array sort for select patterns (nil for uf)
	done       map[*Term]bool
	closed     bool
	points     []pointTrig
	trigBase   [][]string // shapes of the base arrays of the select patterns
	trigOpen   []bool     // the pattern's array itself depends on the bound variable
	pos, neg   bool
}

// buildQuery makes a ground (quantifier-free) query equisatisfiable-or-weaker
// for  hyps /\ not goal.  An unsat answer therefore proves the goal.
func buildQuery(hyps []*Term, goal *Term, rounds int, seqAx, strict, norec bool) *Query {
	q := &Query{decls: map[string]string{}}
	var ground []*Term
	proxies := map[*Term]*quant{} // forall -> proxy
	var quants []*quant
	inGround := map[*Term]bool{}

	pending := append([]*Term{}, hyps...)
	pending = append(pending, not(goal))

	collectMemo := map[*Term]bool{}
	// select terms grouped by array sort
	type selInfo struct {
		idx  []*Term
		seen map[*Term]bool
	}
	sels := map[*Sort]*selInfo{}
	selBase := map[baseIdx]bool{}   // (array shape, index) pairs seen
	ufArgs := map[string]*selInfo{} // bv64 args of user functions
	var seqs []*Term
	var recApps []*Term
	boundFacts := map[*Term]bool{}

	addTo := func(m *selInfo, t *Term) {
		if !m.seen[t] {
			m.seen[t] = true
			m.idx = append(m.idx, t)
		}
	}
	var extra []*Term
	var collect func(t *Term)
	collect = func(t *Term) {
		if collectMemo[t] {
			return
		}
		collectMemo[t] = true
		if t.hi != nil && !t.hasBound && !boundFacts[t] && t.Sort.K == SBV {
			boundFacts[t] = true
			if t.lo.Sign() != 0 {
				extra = append(extra, mk(OUle, boolSort, []*Term{bvBig(t.Sort.W, t.lo), t}, nil, "", 0, 0))
			}
			extra = append(extra, mk(OUle, boolSort, []*Term{t, bvBig(t.Sort.W, t.hi)}, nil, "", 0, 0))
		}
		switch t.Op {
		case OSelect:
			if t.Args[1].Sort.K == SBV && t.Args[1].Sort.W == 64 {
				m := sels[t.Args[0].Sort]
				if m == nil {
					m = &selInfo{seen: map[*Term]bool{}}
					sels[t.Args[0].Sort] = m
				}
				addTo(m, t.Args[1])
				if strict {
					for _, b := range arrayBases(t.Args[0]) {
						selBase[baseIdx{b, t.Args[1]}] = true
					}
				}
			}
		case OUF:
			if t.Name == "seq" {
				seqs = append(seqs, t)
				// do not descend into array argument structure for selects
			} else {
				if d := recDefs[t.Name]; d != nil {
					recApps = append(recApps, t)
				}
				for i, a := range t.Args {
					if a.Sort.K == SBV && a.Sort.W == 64 {
						key := fmt.Sprintf("%s/%d", t.Name, i)
						m := ufArgs[key]
						if m == nil {
							m = &selInfo{seen: map[*Term]bool{}}
							ufArgs[key] = m
						}
						addTo(m, a)
					}
				}
			}
		case OForall:
			return
		}
		for _, a := range t.Args {
			if !a.hasBound {
				collect(a)
			}
		}
	}

	var addGround func(f *Term)
	elim := func(f *Term) *Term {
		if !f.hasQ {
			return f
		}
		m := map[*Term]*Term{}
		type key struct {
			t   *Term
			pol int
		}
		seen := map[key]bool{}
		// pol: 1 positive occurrence, 2 negative, 3 both
		var find func(t *Term, pol int)
		find = func(t *Term, pol int) {
			k := key{t, pol}
			if !t.hasQ || seen[k] {
				return
			}
			seen[k] = true
			if t.Op == OForall {
				if t.hasBound {
					panic("open quantifier at ground level: " + t.Short())
				}
				qu, ok := proxies[t]
				if !ok {
					freshCtr++
					p := mk(OVar, boolSort, nil, nil, fmt.Sprintf("Q!%d", freshCtr), 0, 0)
					qu = &quant{p: p, b: t.Args[0], body: t.Args[1], done: map[*Term]bool{}}
					proxies[t] = qu
				}
				if pol&1 != 0 && !qu.pos {
					qu.pos = true
					findTriggers(qu)
					quants = append(quants, qu)
				}
				if pol&2 != 0 && !qu.neg {
					qu.neg = true
					sk := freshVar("sk", bvSort(64))
					inst := substBound(qu.body, qu.b, sk, map[*Term]*Term{})
					pending = append(pending, or(qu.p, not(inst)))
				}
				m[t] = qu.p
				return
			}
			switch t.Op {
			case ONot:
				np := pol
				if pol == 1 {
					np = 2
				} else if pol == 2 {
					np = 1
				}
				find(t.Args[0], np)
			case OAnd, OOr:
				for _, a := range t.Args {
					find(a, pol)
				}
			case OIte:
				find(t.Args[0], 3)
				find(t.Args[1], pol)
				find(t.Args[2], pol)
			default:
				for _, a := range t.Args {
					find(a, 3)
				}
			}
		}
		find(f, 1)
		return subst(f, m, map[*Term]*Term{})
	}
	addGround = func(f *Term) {
		f = elim(f)
		if f == tTrue || inGround[f] {
			return
		}
		inGround[f] = true
		ground = append(ground, f)
		collect(f)
	}
	seqDone := map[[2]*Term]bool{}
	recDone := map[*Term]int{}
	flush := func() {
		for len(pending) > 0 || len(extra) > 0 {
			x := pending
			pending = nil
			e := extra
			extra = nil
			for _, f := range x {
				addGround(f)
			}
			for _, f := range e {
				if !inGround[f] {
					inGround[f] = true
					ground = append(ground, f)
				}
			}
		}
	}
	flush()
	for r := 0; r < rounds; r++ {
		n0 := len(ground)
		// recursive definitions
		ra := recApps
		for _, t := range ra {
			d := recDefs[t.Name]
			if norec || recDone[t] > 0 || r >= d.fuel {
				continue
			}
			recDone[t] = 1
			pending = append(pending, eqAny(t, d.unfold(t.Args)))
		}
		// seq axioms
		for i := 0; seqAx && i < len(seqs); i++ {
			for j := i + 1; j < len(seqs); j++ {
				a, b := seqs[i], seqs[j]
				k := [2]*Term{a, b}
				if seqDone[k] {
					continue
				}
				seqDone[k] = true
				q.nSeq++
				pending = append(pending, seqAxiom(a, b))
			}
		}
		flush()
		// instances
		for qi := 0; qi < len(quants); qi++ {
			qu := quants[qi]
			cands := map[*Term]bool{}
			var order []*Term
			for ti, e := range qu.trig {
				var src *selInfo
				if qu.trigSort[ti] != nil {
					src = sels[qu.trigSort[ti]]
				}
				if src == nil {
					continue
				}
				for _, g := range src.idx {
					if strict && !qu.trigOpen[ti] {
						hit := false
						for _, b := range qu.trigBase[ti] {
							if selBase[baseIdx{b, g}] {
								hit = true
							}
						}
						if !hit {
							continue
						}
					}
					k, ok := solveFor(e, qu.b, g)
					if ok && strict {
						k = cancelShapes(k)
					}
					if ok && !cands[k] {
						cands[k] = true
						order = append(order, k)
					}
				}
			}
			for _, p := range qu.points {
				k, ok := solveFor(p.e, qu.b, p.g)
				if ok && !cands[k] {
					cands[k] = true
					order = append(order, k)
				}
			}
			for _, u := range qu.ufTrigs() {
				src := ufArgs[u.key]
				if src == nil {
					continue
				}
				for _, g := range src.idx {
					k, ok := solveFor(u.e, qu.b, g)
					if ok && !cands[k] {
						cands[k] = true
						order = append(order, k)
					}
				}
			}
			for _, k := range order {
				if qu.done[k] || q.nInst > maxInst {
					continue
				}
				qu.done[k] = true
				inst := substBound(qu.body, qu.b, k, map[*Term]*Term{})
				f := or(not(qu.p), inst)
				if f == tTrue {
					continue
				}
				q.nInst++
				pending = append(pending, f)
			}
		}
		flush()
		if len(ground) == n0 {
			// saturated: also use the ground terms that occur only inside quantified formulas
			n1 := len(collectMemo)
			if !strict || rounds > 3 {
				for _, qu := range quants {
					if !qu.closed {
						qu.closed = true
						collectClosed(qu.body, collect, map[*Term]bool{})
					}
				}
				flush()
			}
			if len(collectMemo) == n1 {
				break
			}
		}
	}
	q.formulas = ground
	return q
}

// collectClosed applies collect to the maximal closed subterms of t.
func collectClosed(t *Term, collect func(*Term), seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if !t.hasBound {
		collect(t)
		return
	}
	for _, a := range t.Args {
		collectClosed(a, collect, seen)
	}
}

type ufTrig struct {
	key string
	e   *Term
}

func (qu *quant) ufTrigs() []ufTrig {
	var out []ufTrig
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] || !t.hasBound {
			return
		}
		seen[t] = true
		if t.Op == OUF && t.Name != "seq" {
			for i, a := range t.Args {
				if a.hasBound && a.Sort.K == SBV && a.Sort.W == 64 {
					out = append(out, ufTrig{fmt.Sprintf("%s/%d", t.Name, i), a})
				}
			}
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(qu.body)
	return out
}

// arrayBases: shapes of the arrays under stores and conditionals.  The shape
// of a term forgets the indices of selections, so a[i] and a[j] agree.
func arrayBases(a *Term) []string {
	var out []string
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch t.Op {
		case OStore:
			rec(t.Args[0])
		case OIte:
			rec(t.Args[1])
			rec(t.Args[2])
		case OACopy:
			rec(t.Args[0])
			rec(t.Args[3])
		default:
			out = append(out, shapeOf(t, 0))
		}
	}
	rec(a)
	return out
}

var shapeMemo = map[*Term]string{}

func shapeOf(t *Term, depth int) string {
	if s, ok := shapeMemo[t]; ok {
		return s
	}
	s := ""
	switch {
	case t.Op == OSelect && depth < 8:
		s = "[" + strings.Join(arrayBases(t.Args[0]), "|") + "]"
	case t.Op == OUF && depth < 8:
		s = t.Name
		for _, a := range t.Args {
			s += "," + shapeOf(a, depth+1)
		}
		s = "(" + s + ")"
	case t.Op == OIte && depth < 8:
		s = shapeOf(t.Args[1], depth+1) + "?" + shapeOf(t.Args[2], depth+1)
	default:
		s = fmt.Sprint(t.id)
	}
	if depth == 0 {
		shapeMemo[t] = s
	}
	return s
}

func findTriggers(qu *quant) {
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] || !t.hasBound {
			return
		}
		seen[t] = true
		if t.Op == OSelect && t.Args[1].hasBound {
			qu.trig = append(qu.trig, t.Args[1])
			qu.trigSort = append(qu.trigSort, t.Args[0].Sort)
			qu.trigBase = append(qu.trigBase, arrayBases(t.Args[0]))
			qu.trigOpen = append(qu.trigOpen, t.Args[0].hasBound)
			for a := t.Args[0]; a.Op == OStore; a = a.Args[0] {
				if !a.Args[1].hasBound {
					qu.points = append(qu.points, pointTrig{t.Args[1], a.Args[1]})
				}
			}
		}
		if t.Op == OIte && t.Args[0].Op == OEq {
			x, y := t.Args[0].Args[0], t.Args[0].Args[1]
			if y.hasBound {
				x, y = y, x
			}
			if x.hasBound && !y.hasBound && x.Sort.K == SBV && x.Sort.W == 64 {
				qu.points = append(qu.points, pointTrig{x, y})
			}
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(qu.body)
}

// pointTrig: an index the quantified formula itself singles out
type pointTrig struct{ e, g *Term }

// solveFor solves e(b) == g for b where e is linear in b with coefficient +-1
func solveFor(e, b, g *Term) (*Term, bool) {
	m, c := linear(e)
	co, ok := m[b]
	if !ok {
		return nil, false
	}
	w := e.Sort.W
	if w != 64 {
		return nil, false
	}
	delete(m, b)
	for t := range m {
		if t.hasBound {
			return nil, false
		}
	}
	rest := fromLinear(w, m, c)
	if co.Cmp(bigOne) == 0 {
		return bvsub(g, rest), true
	}
	if co.Cmp(maxU(w)) == 0 {
		return bvsub(rest, g), true
	}
	return nil, false
}

// cancelShapes drops pairs of selections x[i] - x[j] from a linear term: the
// instance wanted is the one for equal i and j.
func cancelShapes(k *Term) *Term {
	m, c := linear(k)
	type ent struct {
		t  *Term
		co *big.Int
	}
	by := map[string][]ent{}
	for t, co := range m {
		if t.Op == OSelect {
			s := shapeOf(t, 0)
			by[s] = append(by[s], ent{t, co})
		}
	}
	changed := false
	for _, l := range by {
		if len(l) < 2 {
			continue
		}
		sort.Slice(l, func(i, j int) bool { return l[i].t.id < l[j].t.id })
		sum := new(big.Int)
		for _, e := range l {
			sum.Add(sum, e.co)
		}
		sum.And(sum, maxU(k.Sort.W))
		if sum.Sign() == 0 {
			for _, e := range l {
				delete(m, e.t)
			}
			changed = true
		}
	}
	if !changed {
		return k
	}
	return fromLinear(k.Sort.W, m, c)
}

func eqAny(a, b *Term) *Term { return eq(a, b) }

func seqAxiom(a, b *Term) *Term {
	aa, ao, al := a.Args[0], a.Args[1], a.Args[2]
	ba, bo, bl := b.Args[0], b.Args[1], b.Args[2]
	e := mk(OEq, boolSort, []*Term{a, b}, nil, "", 0, 0)
	leq := eq(al, bl)
	if leq == tFalse {
		return not(e)
	}
	var same *Term
	if al.Op == OConst && bl.Op == OConst && al.Val.Cmp(big.NewInt(80)) <= 0 {
		n := al.Val.Int64()
		var cs []*Term
		for i := int64(0); i < n; i++ {
			cs = append(cs, eq(sel(aa, bvadd(ao, bv(64, i))), sel(ba, bvadd(bo, bv(64, i)))))
		}
		same = and(cs...)
		return eq(e, same)
	}
	k := freshBound()
	body := imp(ult(k, al), eq(sel(aa, bvadd(ao, k)), sel(ba, bvadd(bo, k))))
	same = and(leq, forall(k, body))
	return eq(e, same)
}

// ---------- emission ----------

func (q *Query) emit(values []*Term) string {
	var out bytes.Buffer
	refs := map[*Term]int{}
	arrNames := map[*Term]string{}
	seqNames := map[*Term]string{}
	_ = arrNames
	var order []*Term
	var visit func(t *Term)
	visited := map[*Term]bool{}
	visit = func(t *Term) {
		refs[t]++
		if visited[t] {
			return
		}
		visited[t] = true
		if t.Op == OUF && t.Name == "seq" {
			seqNames[t] = fmt.Sprintf("seq!%d", t.id)
		} else {
			for _, a := range t.Args {
				visit(a)
			}
		}
		order = append(order, t)
	}
	for _, f := range q.formulas {
		visit(f)
	}
	for _, f := range values {
		visit(f)
	}
	decl := map[string]bool{}
	usort := map[string]bool{}
	declSort := func(s *Sort) {
		var rec func(s *Sort)
		rec = func(s *Sort) {
			if s.K == SU && !usort[s.Name] {
				usort[s.Name] = true
				fmt.Fprintf(&out, "(declare-sort %s 0)\n", s.Name)
			}
			if s.K == SArr {
				rec(s.Idx)
				rec(s.Elem)
			}
		}
		rec(s)
	}
	out.WriteString("(set-logic ALL)\n")
	var pr func(t *Term) string
	named := map[*Term]string{}
	var body func(t *Term) string
	body = func(t *Term) string {
		switch t.Op {
		case OTrue:
			return "true"
		case OFalse:
			return "false"
		case OConst:
			if t.Sort.K == SInt {
				if t.Val.Sign() < 0 {
					return "(- " + new(big.Int).Neg(t.Val).String() + ")"
				}
				return t.Val.String()
			}
			return fmt.Sprintf("(_ bv%s %d)", t.Val.String(), t.Sort.W)
		case OVar:
			return qn(t.Name)
		case OUF:
			if t.Name == "seq" {
				return seqNames[t]
			}
			if len(t.Args) == 0 {
				return qn(t.Name)
			}
			s := "(" + qn(ufName(t))
			for _, a := range t.Args {
				s += " " + pr(a)
			}
			return s + ")"
		case OMulC:
			if t.Val.Cmp(maxU(t.Sort.W)) == 0 {
				return "(bvneg " + pr(t.Args[0]) + ")"
			}
			if k := log2(t.Val); k >= 0 {
				return fmt.Sprintf("(bvshl %s (_ bv%d %d))", pr(t.Args[0]), k, t.Sort.W)
			}
			return fmt.Sprintf("(bvmul (_ bv%s %d) %s)", t.Val.String(), t.Sort.W, pr(t.Args[0]))
		case OExtract:
			return fmt.Sprintf("((_ extract %d %d) %s)", t.I1, t.I2, pr(t.Args[0]))
		case OZext:
			return fmt.Sprintf("((_ zero_extend %d) %s)", t.Sort.W-t.Args[0].Sort.W, pr(t.Args[0]))
		case OSext:
			return fmt.Sprintf("((_ sign_extend %d) %s)", t.Sort.W-t.Args[0].Sort.W, pr(t.Args[0]))
		case OKArr:
			return fmt.Sprintf("((as const %s) %s)", t.Sort, pr(t.Args[0]))
		case OInt2Bv:
			return fmt.Sprintf("((_ int2bv %d) %s)", t.Sort.W, pr(t.Args[0]))
		case OACopy:
			panic("acopy emitted")
		}
		s := "(" + opNames[t.Op]
		for _, a := range t.Args {
			s += " " + pr(a)
		}
		return s + ")"
	}
	pr = func(t *Term) string {
		if n, ok := named[t]; ok {
			return n
		}
		return body(t)
	}
	var defs bytes.Buffer
	var acs []*Term
	for _, t := range order {
		switch t.Op {
		case OVar:
			if !decl[t.Name] {
				decl[t.Name] = true
				declSort(t.Sort)
				fmt.Fprintf(&out, "(declare-const %s %s)\n", qn(t.Name), t.Sort)
			}
		case OUF:
			if t.Name == "seq" {
				declSort(seqSort)
				fmt.Fprintf(&out, "(declare-const %s BSeq)\n", seqNames[t])
				named[t] = seqNames[t]
				continue
			}
			n := ufName(t)
			if len(t.Args) == 0 {
				n = t.Name
			}
			if !decl[n] {
				decl[n] = true
				declSort(t.Sort)
				as := ""
				for _, a := range t.Args {
					declSort(a.Sort)
					as += " " + a.Sort.String()
				}
				fmt.Fprintf(&out, "(declare-fun %s (%s) %s)\n", qn(n), as, t.Sort)
			}
		case OACopy:
			// abstract as a fresh array constant (sound: fewer facts)
			n := fmt.Sprintf("acp!%d", t.id)
			declSort(t.Sort)
			fmt.Fprintf(&out, "(declare-const %s %s)\n", n, t.Sort)
			named[t] = n
			acs = append(acs, t)
			continue
		}
		if refs[t] > 1 && len(t.Args) > 0 {
			n := fmt.Sprintf("t!%d", t.id)
			fmt.Fprintf(&defs, "(define-fun %s () %s %s)\n", n, t.Sort, body(t))
			named[t] = n
		}
	}
	out.Write(defs.Bytes())
	for _, f := range q.formulas {
		fmt.Fprintf(&out, "(assert %s)\n", pr(f))
	}
	out.WriteString("(check-sat)\n")
	if len(values) > 0 {
		out.WriteString("(get-value (")
		for _, v := range values {
			out.WriteString(pr(v) + " ")
		}
		out.WriteString("))\n")
	}
	return out.String()
}

// overloaded uf names are separated by their argument sorts
func ufName(t *Term) string {
	return t.Name
}

func qn(s string) string { return "|" + s + "|" }

// ---------- solvers ----------

type solverSpec struct {
	name string
	cmd  []string
}

var solvers = map[string]solverSpec{
	"z3-new": {"z3-new", []string{"z3-new", "-in"}},
	"z3":     {"z3", []string{"z3", "-in"}},
	"cvc5":   {"cvc5", []string{"cvc5", "--lang=smt2", "--produce-models", "-"}},
	"cvc5i":  {"cvc5-bv-as-int", []string{"cvc5", "--lang=smt2", "--solve-bv-as-int=sum", "-"}},
}

type SolveStat struct {
	Calls int
	Secs  float64
}

var (
	solverMu    sync.Mutex
	solverStats = map[string]*SolveStat{}
	procSem     = make(chan struct{}, 8)
	memLimitKB  = 3500000
)

func runSolver(ctx context.Context, name string, text string, timeout time.Duration) (string, string) {
	sp := solvers[name]
	select {
	case procSem <- struct{}{}:
	case <-ctx.Done():
		return "cancelled", ""
	}
	defer func() { <-procSem }()
	c, cancel := context.WithTimeout(ctx, timeout)
	defer cancel()
	if ctx.Err() != nil {
		return "cancelled", ""
	}
	sh := fmt.Sprintf("ulimit -v %d; exec %s", memLimitKB, strings.Join(sp.cmd, " "))
	cmd := exec.CommandContext(c, "/bin/bash", "-c", sh)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	cmd.Stdin = strings.NewReader(text)
	var so bytes.Buffer
	cmd.Stdout = &so
	cmd.Stderr = &so
	t0 := time.Now()
	if spawn(cmd) == nil {
		cmd.Wait()
	}
	d := time.Since(t0).Seconds()
	solverMu.Lock()
	st := solverStats[sp.name]
	if st == nil {
		st = &SolveStat{}
		solverStats[sp.name] = st
	}
	st.Calls++
	st.Secs += d
	solverMu.Unlock()
	s := so.String()
	first := strings.TrimSpace(strings.SplitN(s, "\n", 2)[0])
	switch first {
	case "unsat", "sat":
		return first, s
	}
	if c.Err() != nil {
		return "timeout", s
	}
	if strings.Contains(s, "rror") && os.Getenv("GVC_DEBUG") != "" {
		os.WriteFile("/tmp/gvc_err.smt2", []byte(text), 0644)
		fmt.Fprintln(os.Stderr, "SOLVER ERROR", name, firstLines(s, 3))
	}
	return "unknown", s
}

func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

type Result struct {
	Status string // proved, sat, unknown
	Solver string
	Secs   float64
	Out    string
	Query  *Query
}

func trivially(hyps []*Term, goal *Term) bool {
	if goal == tTrue {
		return true
	}
	for _, h := range hyps {
		if h == tFalse || h == goal {
			return true
		}
	}
	if goal.Op == OAnd {
		all := true
		hs := map[*Term]bool{}
		for _, h := range hyps {
			hs[h] = true
		}
		for _, g := range goal.Args {
			if !hs[g] {
				all = false
			}
		}
		return all
	}
	return false
}

// stagedQueries builds the full query for hyps |- goal and, when it is large,
// a source of smaller weakenings of it (fewer instances) to try first.  A nil
// query means the goal follows by simplification alone.
func stagedQueries(hyps []*Term, goal *Term) (*Query, *lightGen) {
	rel := relevant(hyps, goal)
	full := buildQuery(rel, goal, 3, true, false, false)
	if hasFalse(full) {
		return nil, nil
	}
	light := &lightGen{rel: rel, goal: goal, full: len(full.formulas), n: -1}
	if full.nInst+3*full.nSeq <= 60 {
		light.i = len(lightStages)
	}
	full.srcHyps, full.srcGoal = hyps, goal
	return full, light
}

type lightStage struct {
	rounds             int
	seq, strict, norec bool
}

var lightStages = []lightStage{{3, false, true, true}, {1, false, true, false}, {3, false, true, false}, {3, true, true, false}, {7, false, true, true}, {1, false, false, false}, {2, false, false, false}, {2, true, false, false}}

type lightGen struct {
	rel     []*Term
	goal    *Term
	full, n int
	i       int
	done    []lightQ
}

// get returns the k-th weakening (nil: there are no more); proved: one of them is plainly false
func (g *lightGen) get(k int) (lq *lightQ, proved bool) {
	queryMu.Lock()
	defer queryMu.Unlock()
	for len(g.done) <= k && g.i < len(lightStages) {
		st := lightStages[g.i]
		g.i++
		q := buildQuery(g.rel, g.goal, st.rounds, st.seq, st.strict, st.norec)
		if hasFalse(q) {
			return nil, true
		}
		n := len(q.formulas)
		if n == g.n || n >= g.full*9/10 {
			continue
		}
		g.n = n
		l := lightQ{bv: q.emit(nil)}
		if needsInt(q.formulas) || !bitwise(q.formulas) {
			l.in = q.emitInt()
		}
		g.done = append(g.done, l)
	}
	if k < len(g.done) {
		return &g.done[k], false
	}
	return nil, false
}

func (g *lightGen) all() []lightQ {
	for k := 0; ; k++ {
		if l, _ := g.get(k); l == nil {
			return g.done
		}
	}
}

func hasFalse(q *Query) bool {
	for _, f := range q.formulas {
		if f == tFalse {
			return true
		}
	}
	return false
}

type lightQ struct{ bv, in string }

// solveStaged tries the weakened queries briefly, then the full one.
func solveStaged(light *lightGen, text, alt string, timeout time.Duration, quickOnly bool) Result {
	t0 := time.Now()
	var more []string
	for i := 0; ; i++ {
		l, proved := light.get(i)
		if proved {
			return Result{Status: "proved", Solver: "simplifier"}
		}
		if l == nil {
			break
		}
		d := 2 * time.Second
		t1 := time.Now()
		ctx, cancel := context.WithCancel(context.Background())
		type rr struct{ n, r, o string }
		ch := make(chan rr, 2)
		n := 1
		go func() {
			r, o := runSolver(ctx, "z3-new", l.bv, d)
			ch <- rr{"z3-new", r, o}
		}()
		if l.in != "" {
			n++
			go func() {
				r, o := runSolver(ctx, "z3-new", l.in, d)
				ch <- rr{"int:z3-new", r, o}
			}()
		}
		for ; n > 0; n-- {
			x := <-ch
			if os.Getenv("GVC_TRACE") != "" {
				fmt.Fprintf(os.Stderr, "light %d: %s %s %.2f\n", i, x.n, x.r, time.Since(t1).Seconds())
			}
			if x.r == "unsat" {
				cancel()
				return Result{"proved", solverName(x.n), time.Since(t0).Seconds(), x.o, nil}
			}
			if x.r == "sat" && x.n == "z3-new" {
				break // no point in waiting
			}
			if x.r == "timeout" {
				if x.n == "z3-new" {
					more = append(more, l.bv)
				} else {
					more = append(more, l.in)
				}
			}
		}
		cancel()
	}
	return solveText(text, alt, more, timeout, quickOnly)
}

// solveCover looks for an easy contradiction among the facts of a path.
func solveCover(light *lightGen, text string) Result {
	t0 := time.Now()
	qs := []string{text}
	for k := 0; k < 2; k++ {
		l, proved := light.get(k)
		if proved {
			return Result{Status: "proved", Solver: "simplifier"}
		}
		if l != nil {
			if k == 0 {
				qs = nil
			}
			qs = append(qs, l.bv)
		}
	}
	for _, q := range qs {
		r, o := runSolver(context.Background(), "z3-new", q, 1500*time.Millisecond)
		if r == "unsat" {
			return Result{"proved", "z3-new", time.Since(t0).Seconds(), o, nil}
		}
	}
	return Result{Status: "unknown"}
}

// bitwise reports whether a formula uses operations without a good integer reading
func bitwise(fs []*Term) bool {
	seen := map[*Term]bool{}
	found := false
	var w func(t *Term)
	w = func(t *Term) {
		if found || seen[t] {
			return
		}
		seen[t] = true
		switch t.Op {
		case OBAnd, OBOr, OBXor, OBNot, OShl, OLshr, OAshr, OConcat:
			found = true
			return
		}
		for _, a := range t.Args {
			w(a)
		}
	}
	for _, f := range fs {
		w(f)
	}
	return found
}

// solve decides hyps |- goal.
func solveText(text, alt string, more []string, timeout time.Duration, quickOnly bool) Result {
	t0 := time.Now()
	ctx := context.Background()
	first := 3 * time.Second
	if timeout < first {
		first = timeout
	}
	fctx, fcancel := context.WithCancel(ctx)
	type fr struct{ n, r, o string }
	fch := make(chan fr, 2)
	nf := 1
	go func() {
		r, o := runSolver(fctx, "z3-new", text, first)
		fch <- fr{"z3-new", r, o}
	}()
	if alt != "" {
		nf++
		go func() {
			r, o := runSolver(fctx, "z3-new", alt, first)
			fch <- fr{"int:z3-new", r, o}
		}()
	}
	out := ""
	for ; nf > 0; nf-- {
		x := <-fch
		if x.r == "unsat" {
			fcancel()
			return Result{"proved", solverName(x.n), time.Since(t0).Seconds(), x.o, nil}
		}
		if x.n == "z3-new" {
			out = x.r + " " + x.o
			if x.r == "sat" {
				fcancel()
				return Result{"sat", "z3-new", time.Since(t0).Seconds(), x.o, nil}
			}
		}
	}
	fcancel()
	if quickOnly {
		return Result{"unknown", "z3-new", time.Since(t0).Seconds(), out, nil}
	}
	c, cancel := context.WithCancel(ctx)
	defer cancel()
	type rr struct{ n, r, o string }
	ch := make(chan rr, 8)
	list := []string{"z3-new", "z3", "cvc5"}
	if alt != "" {
		list = append(list, "int:z3-new", "int:cvc5", "cvc5i")
	}
	for i := range more {
		list = append(list, fmt.Sprintf("more:%d", i))
	}
	for _, n := range list {
		go func(n string) {
			t, s := text, n
			if strings.HasPrefix(n, "more:") {
				var i int
				fmt.Sscanf(n, "more:%d", &i)
				t, s = more[i], "z3-new"
			}
			if strings.HasPrefix(n, "int:") {
				t, s = alt, n[4:]
			}
			r, o := runSolver(c, s, t, timeout)
			ch <- rr{n, r, o}
		}(n)
	}
	lastOut := out
	for range list {
		x := <-ch
		if x.r == "unsat" {
			return Result{"proved", solverName(x.n), time.Since(t0).Seconds(), x.o, nil}
		}
		if x.r == "sat" && x.n != "cvc5i" && !strings.HasPrefix(x.n, "int:") && !strings.HasPrefix(x.n, "more:") {
			return Result{"sat", solverName(x.n), time.Since(t0).Seconds(), x.o, nil}
		}
		if x.n == "z3-new" {
			lastOut = x.r + " " + x.o
		}
	}
	return Result{"unknown", "portfolio", time.Since(t0).Seconds(), lastOut, nil}
}

var queryMu sync.Mutex // term construction is single threaded

func prove(hyps []*Term, goal *Term, timeout time.Duration, quickOnly bool) Result {
	if trivially(hyps, goal) {
		return Result{Status: "proved", Solver: "simplifier"}
	}
	q, light := stagedQueries(hyps, goal)
	if q == nil {
		return Result{Status: "proved", Solver: "simplifier"}
	}
	text := q.emit(nil)
	r := solveStaged(light, text, q.alt(), timeout, quickOnly)
	r.Query = q
	return r
}

func relevant(hyps []*Term, goal *Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	for _, h := range hyps {
		if h.Op == OAnd {
			for _, x := range h.Args {
				if !seen[x] {
					seen[x] = true
					out = append(out, x)
				}
			}
			continue
		}
		if !seen[h] {
			seen[h] = true
			out = append(out, h)
		}
	}
	return out
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func solverName(n string) string {
	if strings.HasPrefix(n, "more:") {
		return "z3-new"
	}
	if strings.HasPrefix(n, "int:") {
		return solvers[n[4:]].name + "(int)"
	}
	return solvers[n].name
}

func (q *Query) alt() string {
	if needsInt(q.formulas) || !bitwise(q.formulas) {
		return q.emitInt()
	}
	return ""
}
