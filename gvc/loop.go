package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math/big"
	"strconv"
	"strings"
	"time"
)

type loopDesc struct {
	node  ast.Node
	cond  ast.Expr
	post  ast.Stmt
	body  *ast.BlockStmt
	label string
	// range loops
	condF func(*State) *Term
	preF  func(*State, *Ctx, K)
	postF func(*State)
}

const (
	maxUnroll = 300
	allocGap  = int64(1) << 32
)

var rangeIdx = map[ast.Node]*types.Var{}

func (v *V) rangeStmt(s *ast.RangeStmt, label string, st *State, c *Ctx, k K) {
	info := c.fr.pkg.Info
	xt := info.Types[s.X].Type
	ix, ok := rangeIdx[s]
	if !ok {
		ix = types.NewVar(s.Pos(), nil, "rangeindex", tInt)
		rangeIdx[s] = ix
	}
	key := ckey{c.fr.id, ix}
	setVar := func(e ast.Expr, val Value, st *State, c *Ctx, k K) {
		if e == nil {
			k(st)
			return
		}
		if id, ok := e.(*ast.Ident); ok && id.Name == "_" {
			k(st)
			return
		}
		if s.Tok == token.DEFINE {
			v.bind(st, c.fr, info.Defs[e.(*ast.Ident)], val)
			k(st)
			return
		}
		v.lv(e, st, c, func(st *State, l *Loc) { v.write(st, l, val); k(st) })
	}
	run := func(st *State, n *Term, elem func(st *State, i *Term) Value, kt types.Type) {
		st.env[key] = mkv(tInt, bv(64, 0))
		d := &loopDesc{node: s, body: s.Body, label: label}
		d.condF = func(st *State) *Term { return slt(st.env[key].term(), n) }
		d.postF = func(st *State) { st.env[key] = mkv(tInt, bvadd(st.env[key].term(), bv(64, 1))) }
		d.preF = func(st *State, c *Ctx, k K) {
			i := st.env[key].term()
			kv := mkv(kt, resize(i, leaves(kt)[0].sort.W, true))
			setVar(s.Key, kv, st, c, func(st *State) {
				if s.Value == nil {
					k(st)
					return
				}
				setVar(s.Value, elem(st, i), st, c, k)
			})
		}
		v.loop(d, st, c, k)
	}
	switch u := xt.Underlying().(type) {
	case *types.Slice:
		v.eval(s.X, st, c, func(st *State, x Value) {
			run(st, x.L[2], func(st *State, i *Term) Value { return v.read(st, v.elemLoc(x, i)) }, tInt)
		})
	case *types.Array:
		v.eval(s.X, st, c, func(st *State, x Value) {
			run(st, bv(64, u.Len()), func(st *State, i *Term) Value { return x.index(i) }, tInt)
		})
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		v.eval(s.X, st, c, func(st *State, x Value) {
			run(st, bv(64, at.Len()), func(st *State, i *Term) Value {
				return v.read(st, v.ptrLoc(x).sub(Step{idx: i}, at.Elem()))
			}, tInt)
		})
	case *types.Basic:
		if isInteger(xt) {
			v.eval(s.X, st, c, func(st *State, x Value) {
				run(st, idx64(x), nil, xt)
			})
			return
		}
		v.fail(s.Pos(), "range over %s", xt)
	case *types.Map:
		v.rangeMap(s, label, u, st, c, k)
	default:
		v.fail(s.Pos(), "range over %s", xt)
	}
}

// rangeMap: an arbitrary number of iterations over arbitrary present keys (in
// no particular order); what holds after the loop is what the loop invariants
// say plus the ghost "visited" set: every key present at the end and present
// from the start was visited. Only the first part is used here.
func (v *V) rangeMap(s *ast.RangeStmt, label string, m *types.Map, st *State, c *Ctx, k K) {
	info := c.fr.pkg.Info
	v.eval(s.X, st, c, func(st *State, x Value) {
		d := &loopDesc{node: s, body: s.Body, label: label}
		n := 0
		d.condF = func(st *State) *Term {
			if v.quant > 0 {
				v.fail(s.Pos(), "range over map under a quantifier")
			}
			n++
			more := freshVar("more", boolSort)
			cont := v.mapCont(st, x.T, x.term())
			st.add(imp(more, and(not(eq(x.term(), bv(64, 0))), not(eq(cont[0], bv(64, 0))))), false)
			return more
		}
		d.postF = func(*State) {}
		d.preF = func(st *State, c *Ctx, k K) {
			kv, facts := freshValue("mapkey", m.Key(), refMax)
			for _, f := range facts {
				st.add(f, false)
			}
			val, has := v.mapGet(st, x.T, x.term(), kv)
			st.add(has, false)
			if s.Tok != token.DEFINE && (s.Key != nil || s.Value != nil) {
				v.fail(s.Pos(), "range over map with assignment")
			}
			bindI := func(e ast.Expr, w Value) {
				if id, ok := e.(*ast.Ident); ok && id.Name != "_" {
					v.bind(st, c.fr, info.Defs[id], w)
				}
			}
			if s.Key != nil {
				bindI(s.Key, kv)
			}
			if s.Value != nil {
				bindI(s.Value, val)
			}
			k(st)
		}
		v.loop(d, st, c, k)
	})
}

func (d *loopDesc) test(v *V, st *State, c *Ctx, kt, kf K) {
	if d.condF != nil {
		v.branch(st, d.condF(st), kt, kf)
		return
	}
	if d.cond == nil {
		kt(st)
		return
	}
	v.gather(st, func(kk KV) { v.eval(d.cond, st, c, kk) }, func(st *State, x Value) {
		v.branch(st, x.term(), kt, kf)
	})
}

// peek: constant value of the loop condition, if it has one
func (d *loopDesc) peek(v *V, st *State, c *Ctx) *Term {
	if _, ok := d.node.(*ast.RangeStmt); ok && d.condF != nil {
		if _, isMap := c.fr.pkg.Info.Types[d.node.(*ast.RangeStmt).X].Type.Underlying().(*types.Map); isMap {
			return nil
		}
		t := d.condF(st)
		if t == tTrue || t == tFalse {
			return t
		}
		return nil
	}
	if d.cond == nil {
		return nil
	}
	v.dry++
	defer func() { v.dry-- }()
	var res *Term
	n := 0
	v.eval(d.cond, st.clone(), specCtx(c), func(s *State, x Value) { n++; res = x.term() })
	if n == 1 && (res == tTrue || res == tFalse) {
		return res
	}
	return nil
}

func (d *loopDesc) doPre(v *V, st *State, c *Ctx, k K) {
	if d.preF != nil {
		d.preF(st, c, k)
		return
	}
	k(st)
}

func (d *loopDesc) doPost(v *V, st *State, c *Ctx, k K) {
	if d.postF != nil {
		d.postF(st)
		k(st)
		return
	}
	v.stmtOpt(d.post, st, c, k)
}

// iteration runs one iteration from a state where the condition holds.
func (v *V) iteration(d *loopDesc, st *State, c *Ctx, brk K, end K) {
	v.gather(st, func(kk KV) {
		fin := func(s *State) { kk(s, Value{}) }
		c2 := withBreak(c, d.label, brk, fin)
		d.doPre(v, st, c2, func(st *State) { v.block(d.body.List, st, c2, fin) })
	}, func(st *State, _ Value) { d.doPost(v, st, c, end) })
}

func (v *V) loop(d *loopDesc, st *State, c *Ctx, k0 K) {
	v.gather(st, func(kk KV) {
		k := func(s *State) { kk(s, Value{}) }
		if t := d.peek(v, st, c); t != nil {
			if t == tFalse {
				k(st)
				return
			}
			if v.constUnroll(d, st, c, k) {
				return
			}
		}
		if n := v.con.Unroll; n > 0 {
			v.forkUnroll(d, st, c, k, n)
			return
		}
		v.invLoop(d, st, c, k)
	}, func(st *State, _ Value) { k0(st) })
}

type unrollAbort struct{ d *loopDesc }

func (v *V) constUnroll(d *loopDesc, st *State, c *Ctx, k K) (ok bool) {
	st = st.clone()
	nobl, ncov := len(v.obls), len(v.covers)
	var outs []*State
	restore := v.saveCtl()
	defer func() {
		if r := recover(); r != nil {
			if a, is := r.(unrollAbort); is && a.d == d {
				restore()
				v.obls = v.obls[:nobl]
				v.covers = v.covers[:ncov]
				ok = false
				return
			}
			panic(r)
		}
		if ok {
			for _, s := range outs {
				k(s)
			}
		}
	}()
	stackLen := len(v.stack)
	defer func() { v.stack = v.stack[:min(stackLen, len(v.stack))] }()
	brk := func(s *State) { outs = append(outs, s) }
	var iter func(n int, st *State)
	iter = func(n int, st *State) {
		if st.dead() {
			return
		}
		t := d.peek(v, st, c)
		if t == nil || n > maxUnroll {
			panic(unrollAbort{d})
		}
		if t == tFalse {
			outs = append(outs, st)
			return
		}
		v.iteration(d, st, c, brk, func(s *State) { iter(n+1, s) })
	}
	iter(0, st)
	return true
}

func (v *V) forkUnroll(d *loopDesc, st *State, c *Ctx, k K, n int) {
	var iter func(i int, st *State)
	iter = func(i int, st *State) {
		d.test(v, st, c, func(st *State) {
			if i >= n {
				if v.dry == 0 && !c.spec {
					v.oblig(st, c, tFalse, "unwind", fmt.Sprintf("more than %d iterations", n), d.node.Pos())
				}
				return
			}
			if i > 0 && !v.feasible(st) {
				return
			}
			v.iteration(d, st, c, k, func(s *State) { iter(i+1, s) })
		}, k)
	}
	iter(0, st)
}

func (v *V) feasible(st *State) bool {
	if st.dead() {
		return false
	}
	r := prove(st.hyps(), tFalse, 2*time.Second, true)
	return r.Status != "proved"
}

// ---------- invariants ----------

type heapMod struct {
	node *HNode
	et   types.Type
	refs []*Term
	mark bool
	low  bool // everything allocated since entry to the function under contract
	all  bool
	lset map[int]bool // nil: all leaves
	full bool
}

type modset struct {
	env  map[ckey]map[int]bool
	glob map[types.Object]map[int]bool
	heap map[string]*heapMod
	size int
}

func newModset() *modset {
	return &modset{env: map[ckey]map[int]bool{}, glob: map[types.Object]map[int]bool{}, heap: map[string]*heapMod{}}
}

func (m *modset) addEnv(k ckey, i int) bool {
	if m.env[k] == nil {
		m.env[k] = map[int]bool{}
	}
	if m.env[k][i] {
		return false
	}
	m.env[k][i] = true
	return true
}

func freshNum(name string) int {
	i := strings.LastIndexByte(name, '!')
	if i < 0 {
		return 0
	}
	s := name[i+1:]
	if j := strings.IndexByte(s, '$'); j >= 0 {
		s = s[:j]
	}
	n, err := strconv.Atoi(s)
	if err != nil {
		return 0
	}
	return n
}

func stableTerm(t *Term, ctr int, memo map[*Term]bool) bool {
	if r, ok := memo[t]; ok {
		return r
	}
	r := true
	if t.Op == OVar || t.Op == OUF {
		if freshNum(t.Name) > ctr {
			r = false
		}
	}
	if r {
		for _, a := range t.Args {
			if !stableTerm(a, ctr, memo) {
				r = false
				break
			}
		}
	}
	memo[t] = r
	return r
}

// havoc produces the loop-head state: everything in ms is arbitrary.
func (v *V) havoc(st0 *State, ms *modset) *State {
	st := st0.clone()
	mark := v.limit(st0)
	st.alloc += allocGap
	hi := v.limit(st)
	keys := make([]ckey, 0, len(ms.env))
	for k := range ms.env {
		keys = append(keys, k)
	}
	sortKeys(keys)
	fresh := func(name string, val Value, ls map[int]bool) Value {
		L := append([]*Term{}, val.L...)
		li := leaves(val.T)
		for i := range L {
			if ls[i] {
				L[i] = freshVar(name+"."+li[i].path, li[i].sort)
				annotate(L[i], li[i], hi)
			}
		}
		nv := Value{val.T, L}
		for _, f := range typeFacts(nv) {
			st.add(f, false)
		}
		return nv
	}
	for _, k := range keys {
		st.env[k] = fresh(k.obj.Name(), st.env[k], ms.env[k])
	}
	for _, o := range sortedGlob(st.glob) {
		if ls := ms.glob[o]; ls != nil {
			st.glob[o] = fresh(o.Name(), st.glob[o], ls)
		}
	}
	for _, c := range sortedKeys(ms.heap) {
		hm := ms.heap[c]
		prev := st.heap[c]
		if prev == nil {
			prev = baseNode(hm.node)
		}
		freshCtr++
		n := &HNode{kind: 2, class: c, ls: prev.ls, cs: prev.cs, prev: prev, name: fmt.Sprintf("Hn!%d", freshCtr), refHi: hi, refs: hm.refs}
		if !hm.full {
			n.lset = hm.lset
		}
		if hm.all {
			n.mark = bv(64, 0)
		} else if hm.low {
			n.mark = bvBig(64, firstFresh)
		} else if hm.mark {
			n.mark = bvBig(64, new(big.Int).Add(mark, bigOne))
		}
		st.heap[c] = n
	}
	return st
}

type loopRun struct {
	v      *V
	d      *loopDesc
	c      *Ctx
	st0    *State
	ctr    int
	ms     *modset
	cands  []*cand
	mark   *Term
	writes []writeRec
}

type cand struct {
	desc string
	user bool
	f    func(st *State) *Term // may add facts to st
}

// stubbed context for exploratory runs
func stubCtx(c *Ctx) *Ctx {
	nop := func(*State) {}
	c2 := *c
	c2.ret = func(*State, []Value) {}
	c2.pan = func(*State, string, token.Pos) {}
	c2.brk, c2.cont = nop, nop
	c2.lbrk = map[string]func(*State){}
	for k := range c.lbrk {
		c2.lbrk[k] = nop
	}
	c2.lcont = map[string]func(*State){}
	for k := range c.lcont {
		c2.lcont[k] = nop
	}
	return &c2
}

// explore runs one iteration from st (a loop-head state), returning the states at its end.
func (lr *loopRun) explore(st *State) (ends []*State, writes []writeRec) {
	v := lr.v
	v.dry++
	rec := &recorder{prev: v.rec}
	v.rec = rec
	saved := append([]string{}, v.stack...)
	defer func() {
		v.dry--
		v.rec = rec.prev
		v.stack = saved
	}()
	sc := stubCtx(lr.c)
	lr.d.test(v, st, sc, func(st *State) {
		v.iteration(lr.d, st, sc, func(*State) {}, func(s *State) {
			if !s.dead() {
				ends = append(ends, s)
			}
		})
	}, func(*State) {})
	return ends, rec.writes
}

func (lr *loopRun) diff(head *State, ends []*State, writes []writeRec) bool {
	ms := lr.ms
	ch := false
	for _, e := range ends {
		for k, hv := range head.env {
			if _, ok := lr.st0.env[k]; !ok {
				continue
			}
			ev, ok := e.env[k]
			if !ok {
				continue
			}
			for i := range hv.L {
				if hv.L[i] != ev.L[i] && ms.addEnv(k, i) {
					ch = true
				}
			}
		}
		for o, ev := range e.glob {
			hv, ok := head.glob[o]
			if !ok {
				hv = lr.v.globVal(lr.st0, o)
				head.glob[o] = hv
			}
			for i := range hv.L {
				if hv.L[i] != ev.L[i] {
					if ms.glob[o] == nil {
						ms.glob[o] = map[int]bool{}
					}
					if !ms.glob[o][i] {
						ms.glob[o][i] = true
						lr.v.globVal(lr.st0, o)
						ch = true
					}
				}
			}
		}
	}
	memo := map[*Term]bool{}
	headLimit := lr.v.limit(head)
	for _, w := range writes {
		hm := ms.heap[w.class]
		if hm == nil {
			node := head.heap[w.class]
			if node == nil && len(ends) > 0 {
				node = ends[0].heap[w.class]
			}
			if node == nil {
				for _, e := range ends {
					if e.heap[w.class] != nil {
						node = e.heap[w.class]
					}
				}
			}
			if node == nil {
				continue // written only on paths that leave the loop
			}
			hm = &heapMod{node: node, et: w.T, lset: map[int]bool{}}
			ms.heap[w.class] = hm
			ch = true
		}
		if w.leafs == nil {
			if !hm.full {
				hm.full = true
				ch = true
			}
		} else {
			for i := range w.leafs {
				if !hm.lset[i] {
					hm.lset[i] = true
					ch = true
				}
			}
		}
		var add func(t *Term)
		add = func(t *Term) {
			if t.Op == OIte {
				add(t.Args[1])
				add(t.Args[2])
				return
			}
			if isView(t) {
				return
			}
			if t.Op == OConst && t.Val.Cmp(headLimit) > 0 {
				if !hm.mark {
					hm.mark = true
					ch = true
				}
				return
			}
			if stableTerm(t, lr.ctr, memo) {
				for _, r := range hm.refs {
					if r == t {
						return
					}
				}
				hm.refs = append(hm.refs, t)
				ch = true
				return
			}
			// loop dependent reference: objects the modified variables started with, or fresh ones
			if !hm.mark {
				hm.mark = true
				ch = true
			}
			for k, ls := range ms.env {
				v0 := lr.st0.env[k]
				li := leaves(v0.T)
				for i := range ls {
					if li[i].kind == lkRef && li[i].lift == 0 && !isView(v0.L[i]) {
						has := false
						for _, r := range hm.refs {
							if r == v0.L[i] {
								has = true
							}
						}
						if !has && !(v0.L[i].Op == OConst && v0.L[i].Val.Sign() == 0) {
							hm.refs = append(hm.refs, v0.L[i])
							ch = true
						}
					}
				}
			}
		}
		add(w.ref)
	}
	return ch
}

// region: is a written reference inside the havocked region?
func (lr *loopRun) region(w writeRec) *Term {
	hm := lr.ms.heap[w.class]
	if hm == nil || hm.all {
		return tTrue
	}
	if isView(w.ref) {
		return tTrue
	}
	var cs []*Term
	for _, r := range hm.refs {
		cs = append(cs, eq(r, w.ref))
	}
	if hm.low {
		cs = append(cs, ule(bvBig(64, firstFresh), w.ref))
	} else if hm.mark {
		cs = append(cs, ule(lr.mark, w.ref))
	}
	return or(cs...)
}

func (v *V) invLoop(d *loopDesc, st0 *State, c *Ctx, k K) {
	if v.quant > 0 {
		v.fail(d.node.Pos(), "loop under a quantifier needs a contract or a closed form")
	}
	v.loopDepth++
	if v.loopDepth > 6 {
		v.fail(d.node.Pos(), "loop nesting")
	}
	defer func() { v.loopDepth-- }()
	lr := &loopRun{v: v, d: d, c: c, st0: st0.clone(), ms: newModset()}
	lr.mark = bvBig(64, new(big.Int).Add(v.limit(st0), bigOne))
	lr.ctr = freshCtr
	var head *State
	stable := false
	var headW []writeRec
	for i := 0; i < 8; i++ {
		head = v.havoc(lr.st0, lr.ms)
		ends, ws := lr.explore(head.clone())
		headW = ws
		if !lr.diff(head, ends, ws) {
			stable = true
			lr.auto(head, ends)
			break
		}
	}
	if !stable {
		v.fail(d.node.Pos(), "loop frame does not stabilise")
	}
	_ = headW
	if !c.spec {
		lr.userCands(head)
	}
	// candidates that hold on entry
	lr.filterInit()
	// houdini
	for round := 0; ; round++ {
		h := head.clone()
		lr.assume(h)
		ends, ws := lr.explore(h)
		changed := false
		// region obligations
		var jobs []job
		var classes []string
		memo := map[*Term]bool{}
		_ = memo
		for _, w := range ws {
			g := lr.region(w)
			if g == tTrue {
				continue
			}
			jobs = append(jobs, job{hyps: pcHyps(w.pc), goal: g, timeout: 3 * time.Second})
			classes = append(classes, w.class)
		}
		// preservation
		type ref struct{ c *cand }
		var refs []*cand
		nreg := len(jobs)
		for _, cd := range lr.cands {
			for _, e := range ends {
				s := e.clone()
				g := cd.f(s)
				if g == nil {
					g = tFalse
				}
				if g == tTrue {
					continue
				}
				jobs = append(jobs, job{hyps: s.hyps(), goal: g, timeout: cd.timeout(), quick: !cd.user})
				refs = append(refs, cd)
			}
		}
		// region hyps must be those at the write; approximate by the head facts and all path facts of the ends
		res := proveBatch(jobs)
		bad := map[*cand]bool{}
		lowered := map[string]bool{} // in this round
		for i, r := range res {
			if r.Status == "proved" {
				continue
			}
			if i < nreg {
				hm := lr.ms.heap[classes[i]]
				if !hm.all {
					if hm.low && !lowered[classes[i]] {
						hm.all = true
					} else if !lowered[classes[i]] {
						hm.low = true
						lowered[classes[i]] = true
					}
					changed = true
				}
				if debugInv {
					fmt.Printf("  [region %s: %s goal %s low=%v all=%v]\n", classes[i], r.Status, jobs[i].goal, hm.low, hm.all)
				}
				continue
			}
			bad[refs[i-nreg]] = true
			if debugInv && refs[i-nreg].user {
				fmt.Printf("  [inv dropped: %s at %s: %s (%s)]\n", refs[i-nreg].desc, v.pr.pos(d.node.Pos()), r.Status, firstLines(r.Out, 1))
				if dumpInv != "" && strings.Contains(refs[i-nreg].desc, dumpInv) && r.Query != nil {
					dumpInv = ""
					writeFile("/tmp/inv.smt2", r.Query.emit(nil))
					writeFile("/tmp/inv.smt2.int", r.Query.emitInt())
					_, light := stagedQueries(r.Query.srcHyps, r.Query.srcGoal)
					for i, l := range light.all() {
						writeFile(fmt.Sprintf("/tmp/inv.smt2.light%d", i), l.bv)
						writeFile(fmt.Sprintf("/tmp/inv.smt2.lighti%d", i), l.in)
					}
				}
			}
		}
		if changed {
			head = v.havoc(lr.st0, lr.ms)
		}
		if len(bad) > 0 {
			var live []*cand
			for _, cd := range lr.cands {
				if !bad[cd] {
					live = append(live, cd)
				}
			}
			lr.cands = live
			changed = true
		}
		if !changed {
			break
		}
		if round > 20 {
			v.fail(d.node.Pos(), "invariant inference does not terminate")
		}
	}
	if v.loops != nil {
		v.loops[v.pr.pos(d.node.Pos())] = len(lr.cands)
	}
	// emit obligations for the surviving invariants
	for _, cd := range lr.cands {
		s := lr.st0.clone()
		g := cd.f(s)
		v.oblig(s, c, g, "loop-init", cd.desc, d.node.Pos())
	}
	st := head.clone()
	lr.assume(st)
	if st.dead() {
		return
	}
	rec := &recorder{prev: v.rec}
	v.rec = rec
	d.test(v, st, c, func(st *State) {
		hyp := st.hyps()
		v.iteration(d, st, c, k, func(s *State) {
			for _, cd := range lr.cands {
				s2 := s.clone()
				g := cd.f(s2)
				v.oblig(s2, c, g, "loop-inv", cd.desc, d.node.Pos())
			}
			var chk []*State
			chk = append(chk, s)
			if lr.diffCheck(head, chk) {
				v.fail(d.node.Pos(), "loop frame changed under invariants")
			}
		})
		_ = hyp
	}, k)
	v.rec = rec.prev
	for _, w := range rec.writes {
		g := lr.region(w)
		if g == tTrue {
			continue
		}
		ws := st0.clone()
		ws.pc = w.pc
		v.oblig(ws, c, g, "loop-frame", "write inside the loop frame", d.node.Pos())
	}
}

func (lr *loopRun) diffCheck(head *State, ends []*State) bool {
	for _, e := range ends {
		for k, hv := range head.env {
			if _, ok := lr.st0.env[k]; !ok {
				continue
			}
			ev, ok := e.env[k]
			if !ok {
				continue
			}
			for i := range hv.L {
				if hv.L[i] != ev.L[i] && !lr.ms.env[k][i] {
					return true
				}
			}
		}
	}
	return false
}

func (c *cand) timeout() time.Duration {
	if c.user {
		return 15 * time.Second
	}
	return 2 * time.Second
}

func (lr *loopRun) assume(st *State) {
	for _, cd := range lr.cands {
		if g := cd.f(st); g != nil {
			st.add(g, false)
		}
	}
}

func (lr *loopRun) filterInit() {
	var jobs []job
	var live []*cand
	var cs []*cand
	for _, cd := range lr.cands {
		s := lr.st0.clone()
		g := cd.f(s)
		if g == nil {
			continue
		}
		if g == tTrue {
			live = append(live, cd)
			continue
		}
		if g == tFalse {
			continue
		}
		jobs = append(jobs, job{hyps: s.hyps(), goal: g, timeout: cd.timeout(), quick: !cd.user})
		cs = append(cs, cd)
	}
	for i, r := range proveBatch(jobs) {
		if r.Status == "proved" {
			live = append(live, cs[i])
		} else if debugInv && cs[i].user {
			fmt.Printf("  [inv not initial: %s at %s: %s]\n", cs[i].desc, lr.v.pr.pos(lr.d.node.Pos()), r.Status)
		}
	}
	lr.cands = live
}

// ---------- candidate generation ----------

type cell struct {
	name  string
	get   func(*State) *Term
	init  *Term
	sg    bool
	kind  leafKind
	env   bool
	delta *Term // constant per-iteration change
}

func (lr *loopRun) cells(head *State) []*cell {
	v := lr.v
	var out []*cell
	keys := make([]ckey, 0, len(lr.ms.env))
	for k := range lr.ms.env {
		keys = append(keys, k)
	}
	sortKeys(keys)
	addV := func(name string, get func(*State) Value, v0 Value, ls map[int]bool) {
		li := leaves(v0.T)
		for _, i := range sortedInt(boolMap(ls)) {
			i := i
			if li[i].lift > 0 || li[i].kind == lkArr {
				continue
			}
			sg := false
			if len(v0.L) == 1 {
				sg = isSigned(v0.T)
			}
			out = append(out, &cell{name: name + "." + li[i].path, get: func(s *State) *Term { return get(s).L[i] }, init: v0.L[i], sg: sg, kind: li[i].kind, env: true})
		}
	}
	for _, k := range keys {
		k := k
		addV(k.obj.Name(), func(s *State) Value { return s.env[k] }, lr.st0.env[k], lr.ms.env[k])
	}
	for _, o := range sortedGlob(lr.st0.glob) {
		if ls := lr.ms.glob[o]; ls != nil {
			o := o
			addV(o.Name(), func(s *State) Value { return s.glob[o] }, lr.st0.glob[o], ls)
		}
	}
	for _, cl := range sortedKeys(lr.ms.heap) {
		hm := lr.ms.heap[cl]
		if hm.all || hm.et == nil {
			continue
		}
		if _, isMap := hm.et.Underlying().(*types.Map); isMap {
			continue
		}
		if b, ok := hm.et.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			continue
		}
		li := leaves(hm.et)
		for ri, r := range hm.refs {
			r := r
			if ri > 3 {
				break
			}
			for i := range li {
				i := i
				if li[i].lift > 0 || li[i].kind == lkArr || !(hm.full || hm.lset[i]) {
					continue
				}
				get := func(s *State) *Term { return sel(v.node(s, hm.et).read(r)[i], bv(64, 0)) }
				out = append(out, &cell{name: "heap." + li[i].path, get: get, init: get(lr.st0), sg: li[i].kind == lkScalar && len(li) == 1 && isSigned(hm.et), kind: li[i].kind})
			}
		}
	}
	return out
}

func boolMap(m map[int]bool) map[int]bool { return m }

func (lr *loopRun) auto(head *State, ends []*State) {
	v := lr.v
	cells := lr.cells(head)
	if len(cells) > 40 {
		cells = cells[:40]
	}
	add := func(desc string, f func(*State) *Term) { lr.cands = append(lr.cands, &cand{desc: desc, f: f}) }
	// per-iteration constant deltas
	for _, x := range cells {
		if x.init.Sort.K != SBV {
			continue
		}
		for i, e := range ends {
			d := bvsub(x.get(e), x.get(head))
			if d.Op != OConst || i > 0 && x.delta != d {
				x.delta = nil
				break
			}
			x.delta = d
		}
	}
	// stable bounds
	type bnd struct {
		n string
		t *Term
	}
	var bnds []bnd
	seen := map[*Term]bool{}
	addB := func(n string, t *Term) {
		if !seen[t] && len(bnds) < 28 && t.Sort.K == SBV {
			seen[t] = true
			bnds = append(bnds, bnd{n, t})
		}
	}
	inScope := map[int]bool{}
	for f := lr.c.fr; f != nil; f = f.parent {
		inScope[f.id] = true
	}
	var keys []ckey
	for k := range lr.st0.env {
		if inScope[k.fr] {
			keys = append(keys, k)
		}
	}
	sortKeys(keys)
	for _, k := range keys {
		val := lr.st0.env[k]
		mod := lr.ms.env[k]
		switch {
		case isInteger(val.T) && mod == nil:
			addB(k.obj.Name(), val.L[0])
		case isString(val.T):
			addB("len "+k.obj.Name(), val.L[2])
		default:
			if _, ok := val.T.Underlying().(*types.Slice); ok {
				addB("len "+k.obj.Name(), val.L[2])
			}
		}
	}
	// an object written by the loop changes only inside the declared ranges
	type rng3 struct {
		class      string
		ref, lo, n *Term
	}
	rngSeen := map[rng3]bool{}
	addRange := func(x rng3) {
		hm := lr.ms.heap[x.class]
		pre := lr.st0.heap[x.class]
		if hm == nil || rngSeen[x] || x.lo == nil {
			return
		}
		rngSeen[x] = true
		hit := hm.all
		for _, r := range hm.refs {
			if r == x.ref {
				hit = true
			}
		}
		if !hit {
			return
		}
		if pre == nil {
			pre = baseNode(hm.node)
		}
		add("unchanged outside the slice", func(st *State) *Term {
			now := st.heap[x.class]
			if now == nil {
				return tTrue
			}
			a, b := pre.read(x.ref), now.read(x.ref)
			var cs []*Term
			for i := range a {
				if a[i].Sort.K != SArr {
					return tTrue
				}
				if hm.lset != nil && !hm.lset[i] {
					continue
				}
				k := freshBound()
				cs = append(cs, forall(k, or(ult(bvsub(k, x.lo), x.n), eq(sel(b[i], k), sel(a[i], k)))))
			}
			return and(cs...)
		})
	}
	for _, m := range lr.st0.mods {
		if m.ref != nil {
			addRange(rng3{m.class, m.ref, m.lo, m.n})
		}
	}
	for _, k := range keys {
		val := lr.st0.env[k]
		if sl, ok := val.T.Underlying().(*types.Slice); ok && lr.ms.env[k] == nil {
			if val.L[1].Op == OConst && val.L[1].Val.Sign() == 0 || isView(val.L[0]) {
				continue
			}
			addRange(rng3{classOf(sl.Elem()), val.L[0], val.L[1], val.L[2]})
		}
	}
	if lr.d.condF != nil && len(ends) > 0 {
		// the hidden range bound is part of the condition; recover it from the comparison
		t := lr.d.condF(head.clone())
		if t.Op == OSlt || t.Op == OUlt {
			addB("range end", t.Args[1])
		}
		if t.Op == ONot && (t.Args[0].Op == OSle || t.Args[0].Op == OUle) {
			addB("range end", t.Args[0].Args[0])
		}
	}
	if lr.d.cond != nil {
		info := lr.c.fr.pkg.Info
		v.dry++
		ast.Inspect(lr.d.cond, func(n ast.Node) bool {
			e, ok := n.(ast.Expr)
			if !ok {
				return true
			}
			if _, ok := n.(*ast.FuncLit); ok {
				return false
			}
			tv, ok := info.Types[e]
			if !ok || tv.Type == nil || !tv.IsValue() || !isInteger(tv.Type) {
				return true
			}
			func() {
				restore := v.saveCtl()
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(unsupported); !ok {
							panic(r)
						}
						restore()
					}
				}()
				n := 0
				var t *Term
				v.eval(e, head.clone(), specCtx(lr.c), func(s *State, x Value) {
					n++
					if len(x.L) == 1 {
						t = x.L[0]
					}
				})
				if n == 1 && t != nil && t.Sort.K == SBV && stableTerm(t, lr.ctr, map[*Term]bool{}) {
					if b, ok := tv.Type.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
						for _, w := range []int{8, 16, 32, 64} {
							addB("const", resize(t, w, true))
						}
					} else {
						addB("cond", t)
					}
				}
			}()
			return true
		})
		v.dry--
	}
	mark := lr.mark
	for i, x := range cells {
		x := x
		x0 := x.init
		switch {
		case x0.Sort.K == SBool:
			add(x.name+" unchanged", func(s *State) *Term { return eq(x.get(s), x0) })
			continue
		case x0.Sort.K != SBV:
			if !x.env {
				add(x.name+" unchanged", func(s *State) *Term { return eq(x.get(s), x0) })
			}
			continue
		}
		switch x.kind {
		case lkRef:
			if isView(x0) {
				continue
			}
			add(x.name+" same object", func(s *State) *Term { return eq(x.get(s), x0) })
			add(x.name+" same object or fresh", func(s *State) *Term { return or(eq(x.get(s), x0), ule(mark, x.get(s))) })
			add(x.name+" non-nil", func(s *State) *Term { return not(eq(x.get(s), bv(64, 0))) })
			continue
		case lkIface, lkFunc:
			add(x.name+" unchanged", func(s *State) *Term { return eq(x.get(s), x0) })
			continue
		}
		le := pick(x.sg, sle, ule)
		add(x.name+" >= initial", func(s *State) *Term { return le(x0, x.get(s)) })
		add(x.name+" <= initial", func(s *State) *Term { return le(x.get(s), x0) })
		if x.kind != lkScalar || !x.sg {
		} else {
			add(x.name+" >= 0", func(s *State) *Term { return sle(bv(x0.Sort.W, 0), x.get(s)) })
		}
		if x.kind == lkScalar || x.kind == lkLen || x.kind == lkOff {
			for _, b := range bnds {
				b := b
				if b.t.Sort != x0.Sort || b.t == x0 {
					continue
				}
				add(x.name+" <= "+b.n, func(s *State) *Term { return le(x.get(s), b.t) })
				if x.kind == lkScalar {
					add(x.name+" >= "+b.n, func(s *State) *Term { return le(b.t, x.get(s)) })
				}
			}
		}
		for j, y := range cells {
			y := y
			if j == i || y.init.Sort != x0.Sort || y.kind == lkRef || y.kind == lkIface || y.kind == lkFunc {
				continue
			}
			y0 := y.init
			if j > i {
				add(x.name+", "+y.name+" move together", func(s *State) *Term {
					return eq(bvsub(x.get(s), x0), bvsub(y.get(s), y0))
				})
				add(x.name+", "+y.name+" constant sum", func(s *State) *Term {
					return eq(bvsub(x.get(s), x0), bvsub(y0, y.get(s)))
				})
				if x.delta != nil && y.delta != nil && x.delta != y.delta {
					dx, dy := x.delta.Val, y.delta.Val
					if dx.Sign() != 0 && dy.Sign() != 0 && dx.BitLen() < 10 && dy.BitLen() < 10 {
						add(x.name+", "+y.name+" proportional", func(s *State) *Term {
							return eq(mulc(dy, bvsub(x.get(s), x0)), mulc(dx, bvsub(y.get(s), y0)))
						})
						// scaled bound keeps the linear relation from wrapping
					}
				}
			}
			if x.kind == lkScalar && y.kind == lkScalar {
				add(x.name+" <= "+y.name, func(s *State) *Term { return le(x.get(s), y.get(s)) })
			}
		}
	}
	if len(lr.cands) > 260 {
		lr.cands = lr.cands[:260]
	}
}

// userCands instantiates //gvc:inv ghost functions for this loop.
func (lr *loopRun) userCands(head *State) {
	v := lr.v
	for _, inv := range v.con.set.invsFor(v) {
		lr.instantiate(head, inv)
	}
}

// permInv: try every type-correct binding of invariant parameters, not only those by name;
// skippedPerm: some were left out
var permInv, skippedPerm bool

type invOpt struct {
	desc string
	get  func(st *State) Value
}

func (lr *loopRun) instantiate(head *State, inv *FuncDecl) {
	v := lr.v
	sig := inv.Obj.Type().(*types.Signature)
	np := sig.Params().Len()
	opts := make([][]invOpt, np)
	inScope := map[int]bool{}
	for f := lr.c.fr; f != nil; f = f.parent {
		inScope[f.id] = true
	}
	var keys []ckey
	seenKey := map[ckey]bool{}
	for k := range lr.st0.env {
		if inScope[k.fr] {
			keys = append(keys, k)
			seenKey[k] = true
		}
	}
	for k := range lr.st0.box {
		if inScope[k.fr] && !seenKey[k] {
			keys = append(keys, k)
		}
	}
	sortKeys(keys)
	var ckeys []ckey
	if v.conFrame != nil {
		for k := range lr.st0.env {
			if k.fr == v.conFrame.id {
				ckeys = append(ckeys, k)
			}
		}
		for k := range lr.st0.box {
			if k.fr == v.conFrame.id {
				ckeys = append(ckeys, k)
			}
		}
		sortKeys(ckeys)
	}
	readKey := func(k ckey) func(st *State) Value {
		return func(st *State) Value {
			if r, ok := st.box[k]; ok {
				t := k.obj.Type()
				if _, isArr := t.Underlying().(*types.Array); isArr {
					return v.read(st, v.ptrLoc(mkv(types.NewPointer(t), r)))
				}
				return v.read(st, v.ptrLoc(mkv(types.NewPointer(t), r)))
			}
			return st.env[k]
		}
	}
	for i := 0; i < np; i++ {
		p := sig.Params().At(i)
		if strings.HasPrefix(p.Name(), "entry_") {
			n := strings.TrimPrefix(p.Name(), "entry_")
			for _, k := range ckeys {
				if k.obj.Name() == n && types.Identical(k.obj.Type(), p.Type()) {
					opts[i] = append(opts[i], invOpt{"entry_" + k.obj.Name(), readKey(k)})
				}
			}
			if len(opts[i]) == 0 {
				return
			}
			continue
		}
		var named, typed []invOpt
		for _, k := range keys {
			if !types.Identical(k.obj.Type(), p.Type()) {
				if pt, ok := k.obj.Type().Underlying().(*types.Pointer); !ok || !types.Identical(pt.Elem(), p.Type()) {
					continue
				}
				continue
			}
			o := invOpt{k.obj.Name(), readKey(k)}
			if k.obj.Name() == p.Name() {
				named = append(named, o)
			} else {
				typed = append(typed, o)
			}
		}
		opts[i] = append(named, typed...)
		if len(named) > 0 && !permInv {
			if len(typed) > 0 {
				skippedPerm = true
			}
			opts[i] = named
		}
		if len(opts[i]) == 0 {
			return
		}
		if len(opts[i]) > 8 {
			opts[i] = opts[i][:8]
		}
	}
	n := 0
	var rec func(i int, cur []invOpt)
	rec = func(i int, cur []invOpt) {
		if n > 64 {
			return
		}
		if i == np {
			n++
			sel := append([]invOpt{}, cur...)
			desc := inv.Decl.Name.Name + "("
			for j, o := range sel {
				if j > 0 {
					desc += ","
				}
				desc += o.desc
			}
			desc += ")"
			f := func(st *State) *Term {
				args := make([]Value, np)
				for j, o := range sel {
					args[j] = o.get(st)
				}
				return v.evalPred(inv, args, st, lr.c)
			}
			lr.cands = append(lr.cands, &cand{desc: desc, user: true, f: f})
			return
		}
		for _, o := range opts[i] {
			dup := false
			for _, q := range cur {
				if q.desc == o.desc && !strings.HasPrefix(sig.Params().At(i).Name(), "entry_") {
					dup = true
				}
			}
			if dup {
				continue
			}
			rec(i+1, append(cur[:len(cur):len(cur)], o))
		}
	}
	rec(0, nil)
}

// evalPred evaluates a ghost predicate in a state (adding type facts to it).
func (v *V) evalPred(fd *FuncDecl, args []Value, st *State, c *Ctx) (res *Term) {
	restore := v.saveCtl()
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				restore()
				if debugInv {
					fmt.Println("  [inv unsupported:", fd.Decl.Name.Name, u.msg, "]")
				}
				res = nil
				return
			}
			panic(r)
		}
	}()
	v.dry++
	defer func() { v.dry-- }()
	base := st.pc
	var outs []outcome
	s2 := st.clone()
	v.inlineCall(fd, nil, args, s2, specCtx(c), func(s *State, x Value) { outs = append(outs, outcome{s, x, true}) })
	for i := range outs {
		// a predicate changes nothing: only its value and the facts matter
		o := outs[i].st.clone()
		o.env, o.box, o.glob = st.env, st.box, st.glob
		outs[i].st = o
	}
	outs = v.merge(base, outs)
	if len(outs) != 1 {
		if debugInv {
			fmt.Println("  [inv undecided:", fd.Decl.Name.Name, len(outs), "outcomes]")
		}
		return nil
	}
	var fs []*Term
	for p := outs[0].st.pc; p != nil && p != base; p = p.prev {
		fs = append(fs, p.t)
	}
	for i := len(fs) - 1; i >= 0; i-- {
		st.add(fs[i], false)
	}
	if outs[0].st.alloc > st.alloc {
		st.alloc = outs[0].st.alloc
	}
	// objects allocated while evaluating (ghost copies) stay readable
	for c, h := range outs[0].st.heap {
		if _, ok := st.heap[c]; !ok {
			st.heap[c] = h
		}
	}
	return outs[0].v.term()
}
