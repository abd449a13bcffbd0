package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"
)

type ckey struct {
	fr  int
	obj types.Object
}

type PC struct {
	prev   *PC
	t      *Term
	branch bool
	n      int
}

type modSpec struct {
	class string
	ref   *Term
	lo, n *Term // element range (nil: index 0 object)
	leafA int
	leafB int // -1: all
	loc   *Loc
	all   types.Type // the whole class
}

type deferred struct {
	run func(st *State, k func(*State))
}

type State struct {
	env      map[ckey]Value
	box      map[ckey]*Term
	heap     map[string]*HNode
	glob     map[types.Object]Value
	pc       *PC
	alloc    int64
	mods     []modSpec
	defers   map[int][]deferred
	panicked *Term
}

func (s *State) clone() *State {
	n := *s
	n.env = make(map[ckey]Value, len(s.env)+4)
	for k, v := range s.env {
		n.env[k] = v
	}
	n.box = make(map[ckey]*Term, len(s.box))
	for k, v := range s.box {
		n.box[k] = v
	}
	n.heap = make(map[string]*HNode, len(s.heap))
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.glob = make(map[types.Object]Value, len(s.glob))
	for k, v := range s.glob {
		n.glob[k] = v
	}
	n.defers = make(map[int][]deferred, len(s.defers))
	for k, v := range s.defers {
		n.defers[k] = v[:len(v):len(v)]
	}
	n.mods = s.mods[:len(s.mods):len(s.mods)]
	return &n
}

func (s *State) add(t *Term, branch bool) {
	if t == tTrue {
		return
	}
	n := 1
	if s.pc != nil {
		n = s.pc.n + 1
	}
	s.pc = &PC{s.pc, t, branch, n}
}

func (s *State) has(t *Term) bool {
	for p := s.pc; p != nil; p = p.prev {
		if p.t == t {
			return true
		}
		if p.t.Op == OAnd {
			for _, a := range p.t.Args {
				if a == t {
					return true
				}
			}
		}
	}
	return false
}

func (s *State) hyps() []*Term {
	var out []*Term
	for p := s.pc; p != nil; p = p.prev {
		out = append(out, p.t)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (s *State) dead() bool { return s.pc != nil && s.pc.t == tFalse }

type Frame struct {
	id      int
	parent  *Frame
	fd      *FuncDecl // function (or enclosing function for closures)
	pkg     *Pkg
	sig     *types.Signature
	results []types.Object
	boxset  map[types.Object]bool
	call    string // path description
	entry   map[types.Object]Value
	depth   int
	tsub    map[*types.TypeParam]types.Type
}

type Ctx struct {
	fr     *Frame
	ret    func(*State, []Value)
	pan    func(*State, string, token.Pos)
	brk    func(*State)
	cont   func(*State)
	lbrk   map[string]func(*State)
	lcont  map[string]func(*State)
	label  string // label of the next statement
	spec   bool
	catch  bool
	apply  *applyInfo
	verify bool // contract body under verification
}

type applyInfo struct {
	fd        *FuncDecl
	target    *ast.CallExpr
	result    *[]Value
	done      bool
	site      token.Pos
	outer     *Ctx
	watermark *Term
	resKey    ckey
}

type K = func(*State)
type KV = func(*State, Value)

type Obl struct {
	Contract string
	Kind     string
	Desc     string
	Pos      string
	Label    string
	Hyps     []*Term
	Goal     *Term
	Res      Result
	Cover    bool
	Params   []Value
	PNames   []string
	Heap     map[string]*HNode
}

func (o *Obl) Name() string { return o.Contract + "/" + o.Kind + "/" + o.Desc + "@" + o.Pos }

type V struct {
	pr             *Program
	con            *Contract
	obls           []*Obl
	unsups         []string
	dry            int
	rec            *recorder
	quant          int
	loopDepth      int
	frames         int
	stack          []string
	params         []Value
	pnames         []string
	heap0          map[string]*HNode
	steps          int
	maxSteps       int
	inlined        map[string]bool
	used           map[string]bool
	trusted        map[string]bool
	loops          map[string]int
	covers         []*Obl
	ensuresReached map[string]int
	conFrame       *Frame
}

// saveCtl: the returned function puts the control counters back (after an
// evaluation that was abandoned half way)
func (v *V) saveCtl() func() {
	dry, rec, quant, depth, stack := v.dry, v.rec, v.quant, v.loopDepth, append([]string{}, v.stack...)
	return func() { v.dry, v.rec, v.quant, v.loopDepth, v.stack = dry, rec, quant, depth, stack }
}

type recorder struct {
	writes []writeRec
	prev   *recorder
}

type writeRec struct {
	class string
	T     types.Type
	ref   *Term
	leafs map[int]bool
	pc    *PC
}

var (
	closures = map[string]*Closure{}
	dyns     = map[string]Value{}
	views    = map[string]*Loc{}
	viewKey  = map[string]*Term{}
	tabCtr   int64
)

func tabID() *Term {
	tabCtr++
	return bvBig(64, new(big.Int).Add(viewBase, big.NewInt(tabCtr)))
}

func isView(t *Term) bool { return t.Op == OConst && t.Val.Cmp(viewBase) > 0 }

func mentionsView(t *Term) bool {
	if isView(t) {
		return true
	}
	if t.Op == OIte {
		return mentionsView(t.Args[1]) || mentionsView(t.Args[2])
	}
	return false
}

func (v *V) fail(pos token.Pos, f string, a ...any) {
	panic(unsupported{fmt.Sprintf(f, a...) + " at " + v.pr.pos(pos)})
}

// ---------- obligations ----------

func (v *V) oblig(st *State, c *Ctx, goal *Term, kind, desc string, pos token.Pos) {
	if v.dry > 0 || c.spec || st.dead() {
		return
	}
	if goal == tTrue || st.has(goal) {
		// still counted: discharged by the simplifier
	}
	o := &Obl{Contract: v.con.Name, Kind: kind, Desc: desc, Pos: v.pr.pos(pos), Hyps: st.hyps(), Goal: goal, Params: v.params, PNames: v.pnames, Heap: v.heap0}
	v.obls = append(v.obls, o)
	if len(v.obls) > 6000 {
		v.fail(pos, "too many obligations")
	}
}

// check: runtime-panic condition.
func (v *V) check(st *State, c *Ctx, goal *Term, desc string, pos token.Pos, k K) {
	if c.spec || goal == tTrue {
		k(st)
		return
	}
	if c.catch {
		v.branch(st, goal, k, func(s *State) { c.pan(s, desc, pos) })
		return
	}
	if st.has(goal) {
		k(st)
		return
	}
	v.oblig(st, c, goal, "no-panic", desc, pos)
	st.add(goal, false)
	k(st)
}

func (v *V) branch(st *State, cond *Term, kt, kf K) {
	v.steps++
	if v.steps > v.maxSteps {
		panic(unsupported{"path budget exceeded"})
	}
	if st.dead() {
		return
	}
	switch {
	case cond == tTrue || st.has(cond):
		kt(st)
		return
	case cond == tFalse || st.has(not(cond)):
		kf(st)
		return
	}
	s2 := st.clone()
	st.add(cond, true)
	kt(st)
	s2.add(not(cond), true)
	kf(s2)
}

type outcome struct {
	st  *State
	v   Value
	has bool
}

// gather runs `run`, collecting its outcomes, merges compatible ones and continues.
func (v *V) gather(st *State, run func(k KV), k KV) {
	base := st.pc
	var outs []outcome
	run(func(s *State, x Value) {
		if s.dead() {
			return
		}
		outs = append(outs, outcome{s, x, x.T != nil})
	})
	for _, o := range v.merge(base, outs) {
		k(o.st, o.v)
	}
}

func refSig(v Value, b *strings.Builder) {
	if v.T == nil {
		return
	}
	for i, l := range leaves(v.T) {
		switch l.kind {
		case lkRef, lkIface, lkFunc:
			fmt.Fprintf(b, "%d.", v.L[i].id)
		case lkArr:
			// strings: allow merging
		}
	}
}

func (v *V) merge(base *PC, outs []outcome) []outcome {
	if len(outs) <= 1 {
		return outs
	}
	// common keys
	groups := map[string][]outcome{}
	var order []string
	common := map[ckey]bool{}
	for k := range outs[0].st.env {
		ok := true
		for _, o := range outs[1:] {
			if _, has := o.st.env[k]; !has {
				ok = false
				break
			}
		}
		if ok {
			common[k] = true
		}
	}
	keys := make([]ckey, 0, len(common))
	for k := range common {
		keys = append(keys, k)
	}
	sortKeys(keys)
	bcommon := map[ckey]bool{}
	for k, r := range outs[0].st.box {
		ok := true
		for _, o := range outs[1:] {
			if r2, has := o.st.box[k]; !has || r2 != r {
				ok = false
				break
			}
		}
		if ok {
			bcommon[k] = true
		}
	}
	for _, o := range outs {
		var b strings.Builder
		refSig(o.v, &b)
		b.WriteString("|")
		for _, k := range keys {
			refSig(o.st.env[k], &b)
		}
		b.WriteString("|")
		for _, g := range sortedGlob(o.st.glob) {
			refSig(o.st.glob[g], &b)
		}
		for _, fr := range sortedInt(o.st.defers) {
			fmt.Fprintf(&b, "d%d:%d", fr, len(o.st.defers[fr]))
		}
		fmt.Fprintf(&b, "m%d", len(o.st.mods))
		if o.st.panicked != nil {
			fmt.Fprintf(&b, "p%d", o.st.panicked.id)
		}
		s := b.String()
		if _, ok := groups[s]; !ok {
			order = append(order, s)
		}
		groups[s] = append(groups[s], o)
	}
	var res []outcome
	for _, s := range order {
		g := groups[s]
		if len(g) == 1 {
			res = append(res, g[0])
			continue
		}
		res = append(res, v.mergeGroup(base, g, keys, bcommon))
	}
	return res
}

func sortKeys(k []ckey) {
	for i := 1; i < len(k); i++ {
		for j := i; j > 0 && ckLess(k[j], k[j-1]); j-- {
			k[j], k[j-1] = k[j-1], k[j]
		}
	}
}
func ckLess(a, b ckey) bool {
	if a.fr != b.fr {
		return a.fr < b.fr
	}
	if a.obj.Pos() != b.obj.Pos() {
		return a.obj.Pos() < b.obj.Pos()
	}
	return a.obj.Name() < b.obj.Name()
}
func sortedGlob(m map[types.Object]Value) []types.Object {
	var o []types.Object
	for k := range m {
		o = append(o, k)
	}
	for i := 1; i < len(o); i++ {
		for j := i; j > 0 && (o[j].Pos() < o[j-1].Pos() || o[j].Pos() == o[j-1].Pos() && o[j].Name() < o[j-1].Name()); j-- {
			o[j], o[j-1] = o[j-1], o[j]
		}
	}
	return o
}
func sortedInt[T any](m map[int]T) []int {
	var o []int
	for k := range m {
		o = append(o, k)
	}
	for i := 1; i < len(o); i++ {
		for j := i; j > 0 && o[j] < o[j-1]; j-- {
			o[j], o[j-1] = o[j-1], o[j]
		}
	}
	return o
}

func (v *V) mergeGroup(base *PC, g []outcome, keys []ckey, bcommon map[ckey]bool) outcome {
	n := len(g)
	conds := make([]*Term, n)
	st := g[0].st.clone()
	st.pc = base
	for i, o := range g {
		var cs, facts []*Term
		for p := o.st.pc; p != nil && p != base; p = p.prev {
			if p.branch {
				cs = append(cs, p.t)
			} else {
				facts = append(facts, p.t)
			}
		}
		conds[i] = and(cs...)
		for j := len(facts) - 1; j >= 0; j-- {
			st.add(imp(conds[i], facts[j]), false)
		}
		if o.st.alloc > st.alloc {
			st.alloc = o.st.alloc
		}
	}
	st.add(or(conds...), true)
	mv := func(get func(o outcome) Value) Value {
		r := get(g[n-1])
		L := append([]*Term{}, r.L...)
		for i := n - 2; i >= 0; i-- {
			x := get(g[i])
			for j := range L {
				L[j] = ite(conds[i], x.L[j], L[j])
			}
		}
		return Value{r.T, L}
	}
	env := map[ckey]Value{}
	for _, k := range keys {
		k := k
		env[k] = mv(func(o outcome) Value { return o.st.env[k] })
	}
	st.env = env
	box := map[ckey]*Term{}
	for k := range bcommon {
		box[k] = g[0].st.box[k]
	}
	st.box = box
	gl := map[types.Object]Value{}
	for o := range g[0].st.glob {
		ok := true
		for _, x := range g[1:] {
			if _, h := x.st.glob[o]; !h {
				ok = false
			}
		}
		if ok {
			o := o
			gl[o] = mv(func(x outcome) Value { return x.st.glob[o] })
		}
	}
	// globals read in only some branches: keep the written value if any (reads are idempotent)
	for _, x := range g {
		for o := range x.st.glob {
			if _, ok := gl[o]; !ok {
				o := o
				gl[o] = mv(func(y outcome) Value { return v.globVal(y.st, o) })
			}
		}
	}
	st.glob = gl
	hk := map[string]bool{}
	for _, x := range g {
		for c := range x.st.heap {
			hk[c] = true
		}
	}
	heap := map[string]*HNode{}
	for _, c := range sortedKeys(hk) {
		get := func(x outcome) *HNode {
			if h, ok := x.st.heap[c]; ok {
				return h
			}
			return nil
		}
		var tmpl *HNode
		for _, x := range g {
			if h := get(x); h != nil {
				tmpl = h
			}
		}
		h := get(g[n-1])
		if h == nil {
			h = baseNode(tmpl)
		}
		for i := n - 2; i >= 0; i-- {
			x := get(g[i])
			if x == nil {
				x = baseNode(tmpl)
			}
			if x != h {
				h = &HNode{kind: 3, class: tmpl.class, ls: tmpl.ls, cs: tmpl.cs, c: conds[i], a: x, b: h}
			}
		}
		heap[c] = h
	}
	st.heap = heap
	out := outcome{st: st, has: g[0].has}
	if g[0].has {
		out.v = mv(func(o outcome) Value { return o.v })
	}
	return out
}

// ---------- heap access ----------

var baseNodes = map[string]*HNode{}

func baseNode(t *HNode) *HNode {
	if b, ok := baseNodes[t.class]; ok {
		return b
	}
	b := &HNode{kind: 0, class: t.class, ls: t.ls, cs: t.cs, name: "H0", refHi: oldHi}
	baseNodes[t.class] = b
	return b
}

func (v *V) node(st *State, et types.Type) *HNode {
	c := heapClass(et)
	if h, ok := st.heap[c]; ok {
		return h
	}
	ls := leaves(et)
	b := baseNode(&HNode{class: c, ls: ls, cs: contSorts(ls)})
	st.heap[c] = b
	return b
}

func (v *V) readCont(st *State, et types.Type, ref *Term) []*Term {
	if isView(ref) {
		loc := views[ref.Val.String()]
		if loc == nil {
			unsup("unknown pseudo reference")
		}
		return v.read(st, loc).L
	}
	if ref.Op == OIte && mentionsView(ref) {
		return iteList(ref.Args[0], v.readCont(st, et, ref.Args[1]), v.readCont(st, et, ref.Args[2]))
	}
	return v.node(st, et).read(ref)
}

func (v *V) writeCont(st *State, et types.Type, ref *Term, cont []*Term, leafs map[int]bool) {
	if isView(ref) {
		loc := views[ref.Val.String()]
		v.write(st, loc, Value{loc.T, cont})
		return
	}
	if ref.Op == OIte && mentionsView(ref) {
		c := ref.Args[0]
		o1 := v.readCont(st, et, ref.Args[1])
		v.writeCont(st, et, ref.Args[1], iteList(c, cont, o1), leafs)
		o2 := v.readCont(st, et, ref.Args[2])
		v.writeCont(st, et, ref.Args[2], iteList(c, o2, cont), leafs)
		return
	}
	h := v.node(st, et)
	for r := v.rec; r != nil; r = r.prev {
		r.writes = append(r.writes, writeRec{h.class, et, ref, leafs, st.pc})
	}
	if v.quant > 0 {
		// writes to fresh objects only occur through allocation; allowed
	}
	if h.kind == 1 && h.ref == ref {
		h = h.prev
	}
	st.heap[h.class] = &HNode{kind: 1, class: h.class, ls: h.ls, cs: h.cs, prev: h, ref: ref, cont: cont}
}

func (v *V) allocRef(st *State) *Term {
	st.alloc++
	return bvBig(64, new(big.Int).Add(freshLo, big.NewInt(st.alloc)))
}

func (v *V) limit(st *State) *big.Int {
	return new(big.Int).Add(freshLo, big.NewInt(st.alloc))
}

// new object holding value of type t (pointer target); returns ref
func (v *V) newObj(st *State, val Value) *Term {
	ref := v.allocRef(st)
	v.initObj(st, ref, val)
	return ref
}

func (v *V) initObj(st *State, ref *Term, val Value) {
	if at, ok := val.T.Underlying().(*types.Array); ok {
		v.writeCont(st, at.Elem(), ref, val.L, nil)
		return
	}
	ls := leaves(val.T)
	cont := make([]*Term, len(ls))
	for i, l := range ls {
		s := arrSort(bvSort(64), l.sort)
		cont[i] = store(karr(s, zeroTerm(l.sort)), bv(64, 0), val.L[i])
	}
	v.writeCont(st, val.T, ref, cont, nil)
}

// allocSlice allocates a backing array with the given contents
func (v *V) allocSlice(st *State, et types.Type, cont []*Term) *Term {
	ref := v.allocRef(st)
	v.writeCont(st, et, ref, cont, nil)
	return ref
}

func zeroCont(et types.Type) []*Term {
	ls := leaves(et)
	out := make([]*Term, len(ls))
	for i, l := range ls {
		out[i] = karr(arrSort(bvSort(64), l.sort), zeroTerm(l.sort))
	}
	return out
}

func elemOf(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return u.Elem()
	}
	unsup("elemOf %s", t)
	return nil
}

// ---------- locations ----------

func (v *V) ptrLoc(p Value) *Loc {
	et := p.T.Underlying().(*types.Pointer).Elem()
	ref := p.term()
	if isView(ref) {
		l := views[ref.Val.String()]
		if l == nil {
			unsup("deref of unknown pseudo pointer")
		}
		n := *l
		n.T = et
		return &n
	}
	if at, ok := et.Underlying().(*types.Array); ok {
		return &Loc{kind: 1, class: at.Elem(), ref: ref, idx: bv(64, 0), whole: true, T: et}
	}
	return &Loc{kind: 1, class: et, ref: ref, idx: bv(64, 0), T: et}
}

func (v *V) viewOf(loc *Loc) *Term {
	key := fmt.Sprintf("%d|%v|%p", loc.kind, loc.key.fr, loc.obj)
	if loc.kind == 0 {
		key += fmt.Sprintf("|%p", loc.key.obj)
	}
	if loc.kind == 1 {
		key += fmt.Sprintf("|%s|%d|%d", heapClass(loc.class), loc.ref.id, loc.idx.id)
	}
	for _, s := range loc.steps {
		if s.idx != nil {
			key += fmt.Sprintf("[%d]", s.idx.id)
		} else {
			key += fmt.Sprintf(".%d", s.field)
		}
	}
	key += "|" + classOf(loc.T)
	if t, ok := viewKey[key]; ok {
		return t
	}
	t := tabID()
	viewKey[key] = t
	views[t.Val.String()] = loc
	return t
}

// address of a location as a pointer term
func (v *V) addr(loc *Loc) *Term {
	if loc.kind == 1 && len(loc.steps) == 0 && loc.idx.Op == OConst && loc.idx.Val.Sign() == 0 && !isView(loc.ref) {
		if _, isArr := loc.T.Underlying().(*types.Array); isArr == loc.whole {
			return loc.ref
		}
	}
	return v.viewOf(loc)
}

func (v *V) root(st *State, loc *Loc) Value {
	switch loc.kind {
	case 0:
		x, ok := st.env[loc.key]
		if !ok {
			unsup("variable %s has no value", loc.key.obj.Name())
		}
		return x
	case 2:
		return v.globVal(st, loc.obj)
	case 3:
		x, _ := v.mapGet(st, loc.mapT, loc.ref, loc.mkey)
		return x
	}
	panic("root")
}

func (v *V) read(st *State, loc *Loc) Value {
	if loc.kind == 1 {
		cont := v.readCont(st, loc.class, loc.ref)
		steps := loc.steps
		if loc.whole {
			at := types.NewArray(loc.class, -1)
			val := Value{at, cont}
			if len(steps) == 0 {
				return Value{loc.T, cont}
			}
			return project(val.index(steps[0].idx), steps[1:]).at(loc.T)
		}
		// field prefix narrows the leaf range
		t := loc.class
		a, b := 0, len(cont)
		i := 0
		for i < len(steps) && steps[i].idx == nil {
			stt := t.Underlying().(*types.Struct)
			fa, fb := fieldRange(stt, steps[i].field)
			a, b = a+fa, a+fb
			t = stt.Field(steps[i].field).Type()
			i++
		}
		L := make([]*Term, b-a)
		for j := a; j < b; j++ {
			L[j-a] = sel(cont[j], loc.idx)
		}
		x := project(Value{t, L}, steps[i:])
		r := x.at(loc.T)
		for _, f := range typeFacts(r) {
			if !f.hasBound && !st.has(f) {
				st.add(f, false)
			}
		}
		return r
	}
	return project(v.root(st, loc), loc.steps).at(loc.T)
}

func project(x Value, steps []Step) Value {
	for _, s := range steps {
		if s.idx != nil {
			x = x.index(s.idx)
		} else {
			x = x.field(s.field)
		}
	}
	return x
}

func update(x Value, steps []Step, w Value) Value {
	if len(steps) == 0 {
		return Value{x.T, w.L}
	}
	s := steps[0]
	if s.idx != nil {
		return x.setIndex(s.idx, update(x.index(s.idx), steps[1:], w))
	}
	return x.setField(s.field, update(x.field(s.field), steps[1:], w))
}

func (v *V) write(st *State, loc *Loc, w Value) {
	switch loc.kind {
	case 0:
		st.env[loc.key] = update(v.root(st, loc), loc.steps, w)
		return
	case 2:
		st.glob[loc.obj] = update(v.globVal(st, loc.obj), loc.steps, w)
		return
	case 3:
		if len(loc.steps) > 0 {
			unsup("assignment to field of map element")
		}
		v.mapSet(st, loc.mapT, loc.ref, loc.mkey, w)
		return
	}
	for i, l := range leaves(loc.T) {
		if l.kind == lkRef && l.lift == 0 && i < len(w.L) && mentionsView(w.L[i]) {
			lc := views[w.L[i].Val.String()]
			if w.L[i].Op != OConst || lc == nil || lc.kind == 0 || v.loopDepth > 0 {
				unsup("interior pointer stored in the heap")
			}
		}
	}
	cont := append([]*Term{}, v.readCont(st, loc.class, loc.ref)...)
	steps := loc.steps
	leafs := map[int]bool{}
	if loc.whole {
		if len(steps) == 0 {
			copy(cont, w.L)
		} else {
			x := Value{types.NewArray(loc.class, -1), cont}
			cont = update(x, steps, w).L
		}
		v.writeCont(st, loc.class, loc.ref, cont, nil)
		return
	}
	t := loc.class
	a, b := 0, len(cont)
	i := 0
	for i < len(steps) && steps[i].idx == nil {
		stt := t.Underlying().(*types.Struct)
		fa, fb := fieldRange(stt, steps[i].field)
		a, b = a+fa, a+fb
		t = stt.Field(steps[i].field).Type()
		i++
	}
	L := make([]*Term, b-a)
	for j := a; j < b; j++ {
		L[j-a] = sel(cont[j], loc.idx)
		leafs[j] = true
	}
	nv := update(Value{t, L}, steps[i:], w)
	for j := a; j < b; j++ {
		cont[j] = store(cont[j], loc.idx, nv.L[j-a])
	}
	v.writeCont(st, loc.class, loc.ref, cont, leafs)
}

// ---------- globals ----------

func (v *V) globVal(st *State, o types.Object) Value {
	if x, ok := st.glob[o]; ok {
		return x
	}
	x := v.globInit(o)
	st.glob[o] = x
	return x
}

var globCache = map[types.Object]Value{}

func (v *V) globInit(o types.Object) Value {
	if x, ok := globCache[o]; ok {
		return x
	}
	x := v.globInit0(o)
	globCache[o] = x
	return x
}

func (v *V) globInit0(o types.Object) Value {
	t := o.Type()
	if types.Identical(t, tError) {
		// error variables: distinct non-nil identities
		id := tabID()
		if !v.pr.Assigned[o] && plainErrInit(v.pr.VarInit[o]) {
			plainErrs[id.Val.String()] = true
		}
		return Value{t, []*Term{id}}
	}
	vi := v.pr.VarInit[o]
	exportedScalar := o.Exported() && (isInteger(t) || isBool(t) || isString(t))
	if vi != nil && !v.pr.Assigned[o] && !exportedScalar {
		if vi.expr == nil {
			return zeroValue(t)
		}
		if x, ok := v.staticInit(vi, t); ok {
			return x
		}
	}
	name := "G$" + o.Name()
	if o.Pkg() != nil {
		name = "G$" + o.Pkg().Name() + "." + o.Name()
	}
	ls := leaves(t)
	L := make([]*Term, len(ls))
	for i, l := range ls {
		x := mk(OVar, l.sort, nil, nil, sanitize(name+"."+l.path), 0, 0)
		annotate(x, l, oldHi)
		L[i] = x
	}
	return Value{t, L}
}

// staticInit evaluates simple initialisers (literals, conversions, composite
// literals of constants) of package variables that are never reassigned.
func (v *V) staticInit(vi *varInit, t types.Type) (res Value, ok bool) {
	if vi.n != 1 {
		return
	}
	if _, isSlice := t.Underlying().(*types.Slice); isSlice {
		return
	}
	if _, isPtr := t.Underlying().(*types.Pointer); isPtr {
		return
	}
	restore := v.saveCtl()
	defer func() {
		if r := recover(); r != nil {
			if _, u := r.(unsupported); u {
				restore()
				ok = false
				return
			}
			panic(r)
		}
	}()
	st := &State{env: map[ckey]Value{}, box: map[ckey]*Term{}, heap: map[string]*HNode{}, glob: map[types.Object]Value{}, defers: map[int][]deferred{}}
	v.frames++
	c := &Ctx{fr: &Frame{id: v.frames, pkg: vi.pkg, boxset: map[types.Object]bool{}}, spec: true, pan: func(*State, string, token.Pos) {}}
	n := 0
	v.dry++
	v.eval(vi.expr, st, c, func(s *State, x Value) {
		n++
		v.assignConv(s, c, x, t, vi.expr, func(s *State, y Value) { res = y })
		if s.alloc > 0 {
			n = 99
		}
	})
	v.dry--
	if n != 1 {
		return Value{}, false
	}
	return res, true
}

// ---------- variable binding ----------

func (v *V) bind(st *State, fr *Frame, o types.Object, val Value) {
	if o == nil || o.Name() == "_" && !isParam(o) {
		return
	}
	k := ckey{fr.id, o}
	val = val.at(v.ty(fr, o.Type()))
	if fr.boxset[o] {
		st.box[k] = v.newObj(st, val)
		delete(st.env, k)
		return
	}
	st.env[k] = val
}

func isParam(o types.Object) bool { return false }

func (v *V) ty(fr *Frame, t types.Type) types.Type {
	return t
}

func (v *V) varLoc(st *State, fr *Frame, o types.Object) *Loc {
	for f := fr; f != nil; f = f.parent {
		k := ckey{f.id, o}
		if r, ok := st.box[k]; ok {
			t := o.Type()
			if at, ok := t.Underlying().(*types.Array); ok {
				return &Loc{kind: 1, class: at.Elem(), ref: r, idx: bv(64, 0), whole: true, T: t}
			}
			return &Loc{kind: 1, class: t, ref: r, idx: bv(64, 0), T: t}
		}
		if _, ok := st.env[k]; ok {
			return &Loc{kind: 0, key: k, T: o.Type()}
		}
	}
	if o.Parent() != nil && o.Pkg() != nil && o.Parent() == o.Pkg().Scope() {
		return &Loc{kind: 2, obj: o, T: o.Type()}
	}
	unsup("unbound variable %s", o.Name())
	return nil
}

// boxedVars finds local variables whose address is taken (explicitly, by
// slicing an array, or by an implicit & of a pointer-receiver method call).
func boxedVars(info *types.Info, body ast.Node) map[types.Object]bool {
	m := map[types.Object]bool{}
	markRoot := func(e ast.Expr) {
		for {
			switch x := e.(type) {
			case *ast.ParenExpr:
				e = x.X
				continue
			case *ast.Ident:
				if o, ok := info.Uses[x].(*types.Var); ok && !o.IsField() {
					m[o] = true
				}
			}
			return
		}
	}
	ast.Inspect(body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.UnaryExpr:
			if n.Op == token.AND {
				markRoot(n.X)
			}
		case *ast.SliceExpr:
			if t := info.Types[n.X].Type; t != nil {
				if _, ok := t.Underlying().(*types.Array); ok {
					markRoot(n.X)
				}
			}
		case *ast.SelectorExpr:
			if s := info.Selections[n]; s != nil && s.Kind() == types.MethodVal {
				f := s.Obj().(*types.Func)
				sig := f.Type().(*types.Signature)
				if sig.Recv() != nil {
					if _, ptr := sig.Recv().Type().(*types.Pointer); ptr && len(s.Index()) == 1 {
						if _, isPtr := s.Recv().(*types.Pointer); !isPtr {
							markRoot(n.X)
						}
					}
				}
			}
		}
		return true
	})
	return m
}

// ---------- statements ----------

func (v *V) block(list []ast.Stmt, st *State, c *Ctx, k K) {
	if len(list) == 0 {
		k(st)
		return
	}
	v.stmt(list[0], st, c, func(s *State) { v.block(list[1:], s, c, k) })
}

func (v *V) stmt(s ast.Stmt, st *State, c *Ctx, k K) {
	if st.dead() {
		return
	}
	label := c.label
	if label != "" {
		c2 := *c
		c2.label = ""
		c = &c2
	}
	info := c.fr.pkg.Info
	switch s := s.(type) {
	case nil:
		k(st)
	case *ast.EmptyStmt:
		k(st)
	case *ast.BlockStmt:
		v.block(s.List, st, c, k)
	case *ast.ExprStmt:
		v.eval(s.X, st, c, func(st *State, _ Value) { k(st) })
	case *ast.DeclStmt:
		gd := s.Decl.(*ast.GenDecl)
		if gd.Tok != token.VAR {
			k(st)
			return
		}
		var specs func(i int, st *State)
		specs = func(i int, st *State) {
			if i == len(gd.Specs) {
				k(st)
				return
			}
			vs := gd.Specs[i].(*ast.ValueSpec)
			if len(vs.Values) == 0 {
				for _, n := range vs.Names {
					if o := info.Defs[n]; o != nil {
						v.bind(st, c.fr, o, zeroValue(o.Type()))
					}
				}
				specs(i+1, st)
				return
			}
			v.rhs(vs.Values, len(vs.Names), st, c, func(st *State, vals []Value) {
				v.bindAll(st, c, vs.Names, vals, 0, s, func(st *State) { specs(i+1, st) })
			})
		}
		specs(0, st)
	case *ast.AssignStmt:
		v.assign(s, st, c, k)
	case *ast.IncDecStmt:
		v.lv(s.X, st, c, func(st *State, loc *Loc) {
			x := v.read(st, loc)
			one := bv(x.term().Sort.W, 1)
			var r *Term
			if s.Tok == token.INC {
				r = bvadd(x.term(), one)
			} else {
				r = bvsub(x.term(), one)
			}
			v.write(st, loc, mkv(x.T, r))
			k(st)
		})
	case *ast.IfStmt:
		v.stmtOpt(s.Init, st, c, func(st *State) {
			v.gather(st, func(kk KV) {
				kn := func(s *State) { kk(s, Value{}) }
				v.eval(s.Cond, st, c, func(st *State, cv Value) {
					v.branch(st, cv.term(), func(st *State) { v.block(s.Body.List, st, c, kn) }, func(st *State) {
						if s.Else == nil {
							kn(st)
						} else {
							v.stmt(s.Else, st, c, kn)
						}
					})
				})
			}, func(st *State, _ Value) { k(st) })
		})
	case *ast.ReturnStmt:
		sig := c.fr.sig
		nres := sig.Results().Len()
		if len(s.Results) == 0 {
			var vals []Value
			for _, o := range c.fr.results {
				vals = append(vals, v.read(st, v.varLoc(st, c.fr, o)))
			}
			c.ret(st, vals)
			return
		}
		v.rhs(s.Results, nres, st, c, func(st *State, vals []Value) {
			var conv func(i int, st *State, acc []Value)
			conv = func(i int, st *State, acc []Value) {
				if i == len(vals) {
					c.ret(st, acc)
					return
				}
				v.assignConv(st, c, vals[i], sig.Results().At(i).Type(), s, func(st *State, x Value) {
					conv(i+1, st, append(acc[:len(acc):len(acc)], x))
				})
			}
			conv(0, st, nil)
		})
	case *ast.ForStmt:
		v.stmtOpt(s.Init, st, c, func(st *State) {
			v.loop(&loopDesc{node: s, cond: s.Cond, post: s.Post, body: s.Body, label: label}, st, c, k)
		})
	case *ast.RangeStmt:
		v.rangeStmt(s, label, st, c, k)
	case *ast.BranchStmt:
		var f func(*State)
		if s.Label != nil {
			if s.Tok == token.BREAK {
				f = c.lbrk[s.Label.Name]
			} else if s.Tok == token.CONTINUE {
				f = c.lcont[s.Label.Name]
			}
		} else if s.Tok == token.BREAK {
			f = c.brk
		} else if s.Tok == token.CONTINUE {
			f = c.cont
		}
		if f == nil {
			v.fail(s.Pos(), "branch statement %s", s.Tok)
		}
		f(st)
	case *ast.LabeledStmt:
		c2 := *c
		c2.label = s.Label.Name
		v.stmt(s.Stmt, st, &c2, k)
	case *ast.SwitchStmt:
		v.switchStmt(s, label, st, c, k)
	case *ast.TypeSwitchStmt:
		v.typeSwitch(s, label, st, c, k)
	case *ast.DeferStmt:
		v.deferStmt(s, st, c, k)
	case *ast.GoStmt, *ast.SelectStmt, *ast.SendStmt:
		v.fail(s.Pos(), "unsupported statement %T", s)
	default:
		v.fail(s.Pos(), "unsupported statement %T", s)
	}
}

func (v *V) stmtOpt(s ast.Stmt, st *State, c *Ctx, k K) {
	if s == nil {
		k(st)
		return
	}
	v.stmt(s, st, c, k)
}

// rhs evaluates right-hand sides, expanding a multi-value expression.
func (v *V) rhs(es []ast.Expr, n int, st *State, c *Ctx, k func(*State, []Value)) {
	if len(es) == 1 && n > 1 {
		e := ast.Unparen(es[0])
		switch x := e.(type) {
		case *ast.IndexExpr: // map, ok
			v.eval(x.X, st, c, func(st *State, m Value) {
				mt := m.T.Underlying().(*types.Map)
				v.eval(x.Index, st, c, func(st *State, kv Value) {
					v.assignConv(st, c, kv, mt.Key(), x, func(st *State, kv Value) {
						val, ok := v.mapGet(st, m.T, m.term(), kv)
						k(st, []Value{val, boolV(ok)})
					})
				})
			})
			return
		case *ast.TypeAssertExpr:
			v.eval(x.X, st, c, func(st *State, iv Value) {
				t := c.fr.pkg.Info.Types[x.Type].Type
				v.typeTest(st, c, iv, t, func(st *State, val Value) {
					k(st, []Value{val, boolV(tTrue)})
				}, func(st *State) {
					k(st, []Value{zeroValue(t), boolV(tFalse)})
				})
			})
			return
		case *ast.CallExpr:
			v.eval(x, st, c, func(st *State, tv Value) { k(st, tv.split()) })
			return
		}
		v.fail(es[0].Pos(), "multi-value expression %T", e)
	}
	v.evals(es, st, c, k)
}

func (v *V) evals(es []ast.Expr, st *State, c *Ctx, k func(*State, []Value)) {
	var rec func(i int, st *State, acc []Value)
	rec = func(i int, st *State, acc []Value) {
		if i == len(es) {
			k(st, acc)
			return
		}
		v.eval(es[i], st, c, func(st *State, x Value) { rec(i+1, st, append(acc[:len(acc):len(acc)], x)) })
	}
	rec(0, st, nil)
}

func (v *V) bindAll(st *State, c *Ctx, names []*ast.Ident, vals []Value, i int, n ast.Node, k K) {
	if i == len(names) {
		k(st)
		return
	}
	o := c.fr.pkg.Info.Defs[names[i]]
	if o == nil || names[i].Name == "_" {
		v.bindAll(st, c, names, vals, i+1, n, k)
		return
	}
	v.assignConv(st, c, vals[i], o.Type(), n, func(st *State, x Value) {
		v.bind(st, c.fr, o, x)
		v.bindAll(st, c, names, vals, i+1, n, k)
	})
}

func (v *V) assign(s *ast.AssignStmt, st *State, c *Ctx, k K) {
	info := c.fr.pkg.Info
	if s.Tok == token.DEFINE {
		v.rhs(s.Rhs, len(s.Lhs), st, c, func(st *State, vals []Value) {
			var rec func(i int, st *State)
			rec = func(i int, st *State) {
				if i == len(s.Lhs) {
					k(st)
					return
				}
				id := s.Lhs[i].(*ast.Ident)
				if id.Name == "_" {
					rec(i+1, st)
					return
				}
				if o := info.Defs[id]; o != nil {
					v.assignConv(st, c, vals[i], o.Type(), s, func(st *State, x Value) {
						v.bind(st, c.fr, o, x)
						rec(i+1, st)
					})
					return
				}
				o := info.Uses[id]
				v.assignConv(st, c, vals[i], o.Type(), s, func(st *State, x Value) {
					v.write(st, v.varLoc(st, c.fr, o), x)
					rec(i+1, st)
				})
			}
			rec(0, st)
		})
		return
	}
	if s.Tok != token.ASSIGN {
		var op token.Token
		switch s.Tok {
		case token.ADD_ASSIGN:
			op = token.ADD
		case token.SUB_ASSIGN:
			op = token.SUB
		case token.MUL_ASSIGN:
			op = token.MUL
		case token.QUO_ASSIGN:
			op = token.QUO
		case token.REM_ASSIGN:
			op = token.REM
		case token.AND_ASSIGN:
			op = token.AND
		case token.OR_ASSIGN:
			op = token.OR
		case token.XOR_ASSIGN:
			op = token.XOR
		case token.SHL_ASSIGN:
			op = token.SHL
		case token.SHR_ASSIGN:
			op = token.SHR
		case token.AND_NOT_ASSIGN:
			op = token.AND_NOT
		}
		v.lv(s.Lhs[0], st, c, func(st *State, loc *Loc) {
			v.eval(s.Rhs[0], st, c, func(st *State, y Value) {
				x := v.read(st, loc)
				v.binop(op, x, y, x.T, s, st, c, func(st *State, r Value) {
					v.write(st, loc, r.at(x.T))
					k(st)
				})
			})
		})
		return
	}
	// plain assignment
	v.rhs(s.Rhs, len(s.Lhs), st, c, func(st *State, vals []Value) {
		var rec func(i int, st *State)
		rec = func(i int, st *State) {
			if i == len(s.Lhs) {
				k(st)
				return
			}
			if id, ok := s.Lhs[i].(*ast.Ident); ok && id.Name == "_" {
				rec(i+1, st)
				return
			}
			v.lv(s.Lhs[i], st, c, func(st *State, loc *Loc) {
				v.assignConv(st, c, vals[i], loc.T, s, func(st *State, x Value) {
					if loc.kind == 3 {
						v.check(st, c, not(eq(loc.ref, bv(64, 0))), "assignment to nil map", s.Pos(), func(st *State) {
							v.write(st, loc, x)
							rec(i+1, st)
						})
						return
					}
					v.write(st, loc, x)
					rec(i+1, st)
				})
			})
		}
		rec(0, st)
	})
}

func withBreak(c *Ctx, label string, brk, cont K) *Ctx {
	c2 := *c
	if brk != nil {
		c2.brk = brk
	}
	if cont != nil {
		c2.cont = cont
	}
	if label != "" {
		c2.lbrk = map[string]func(*State){}
		for k, v := range c.lbrk {
			c2.lbrk[k] = v
		}
		c2.lbrk[label] = brk
		if cont != nil {
			c2.lcont = map[string]func(*State){}
			for k, v := range c.lcont {
				c2.lcont[k] = v
			}
			c2.lcont[label] = cont
		}
	}
	return &c2
}

func (v *V) switchStmt(s *ast.SwitchStmt, label string, st *State, c *Ctx, k0 K) {
	v.stmtOpt(s.Init, st, c, func(st *State) {
		v.gather(st, func(kk KV) {
			k := func(s *State) { kk(s, Value{}) }
			c2 := withBreak(c, label, k, nil)
			run := func(st *State, tag *Value) {
				clauses := s.Body.List
				var bodyAt func(i int, st *State)
				bodyAt = func(i int, st *State) {
					cc := clauses[i].(*ast.CaseClause)
					body := cc.Body
					if n := len(body); n > 0 {
						if b, ok := body[n-1].(*ast.BranchStmt); ok && b.Tok == token.FALLTHROUGH {
							v.block(body[:n-1], st, c2, func(st *State) { bodyAt(i+1, st) })
							return
						}
					}
					v.block(body, st, c2, k)
				}
				def := -1
				var try func(i, j int, st *State)
				try = func(i, j int, st *State) {
					if i == len(clauses) {
						if def >= 0 {
							bodyAt(def, st)
						} else {
							k(st)
						}
						return
					}
					cc := clauses[i].(*ast.CaseClause)
					if cc.List == nil {
						def = i
						try(i+1, 0, st)
						return
					}
					if j == len(cc.List) {
						try(i+1, 0, st)
						return
					}
					v.eval(cc.List[j], st, c, func(st *State, x Value) {
						if tag == nil {
							v.branch(st, x.term(), func(st *State) { bodyAt(i, st) }, func(st *State) { try(i, j+1, st) })
							return
						}
						v.equal(st, c, *tag, x, s, func(st *State, e *Term) {
							v.branch(st, e, func(st *State) { bodyAt(i, st) }, func(st *State) { try(i, j+1, st) })
						})
					})
				}
				for i, cl := range clauses {
					if cl.(*ast.CaseClause).List == nil {
						def = i
					}
				}
				try(0, 0, st)
			}
			if s.Tag == nil {
				run(st, nil)
			} else {
				v.eval(s.Tag, st, c, func(st *State, x Value) { run(st, &x) })
			}
		}, func(st *State, _ Value) { k0(st) })
	})
}

func (v *V) typeSwitch(s *ast.TypeSwitchStmt, label string, st *State, c *Ctx, k0 K) {
	info := c.fr.pkg.Info
	v.stmtOpt(s.Init, st, c, func(st *State) {
		var x ast.Expr
		switch a := s.Assign.(type) {
		case *ast.AssignStmt:
			x = a.Rhs[0].(*ast.TypeAssertExpr).X
		case *ast.ExprStmt:
			x = a.X.(*ast.TypeAssertExpr).X
		}
		v.eval(x, st, c, func(st *State, iv Value) {
			v.gather(st, func(kk KV) {
				k := func(s *State) { kk(s, Value{}) }
				c2 := withBreak(c, label, k, nil)
				clauses := s.Body.List
				def := -1
				for i, cl := range clauses {
					if cl.(*ast.CaseClause).List == nil {
						def = i
					}
				}
				body := func(i int, st *State, val Value) {
					cc := clauses[i].(*ast.CaseClause)
					if o := info.Implicits[cc]; o != nil {
						v.bind(st, c.fr, o, val)
					}
					v.block(cc.Body, st, c2, k)
				}
				var try func(i, j int, st *State)
				try = func(i, j int, st *State) {
					if i == len(clauses) {
						if def >= 0 {
							body(def, st, iv)
						} else {
							k(st)
						}
						return
					}
					cc := clauses[i].(*ast.CaseClause)
					if cc.List == nil || j == len(cc.List) {
						try(i+1, 0, st)
						return
					}
					tv := info.Types[cc.List[j]]
					if tv.IsNil() {
						v.branch(st, eq(iv.term(), bv(64, 0)), func(st *State) { body(i, st, iv) }, func(st *State) { try(i, j+1, st) })
						return
					}
					v.typeTest(st, c, iv, tv.Type, func(st *State, val Value) {
						if len(cc.List) > 1 {
							val = iv
						}
						body(i, st, val)
					}, func(st *State) { try(i, j+1, st) })
				}
				try(0, 0, st)
			}, func(st *State, _ Value) { k0(st) })
		})
	})
}

// typeTest: does interface value iv hold dynamic type t?
func (v *V) typeTest(st *State, c *Ctx, iv Value, t types.Type, kt KV, kf K) {
	id := iv.term()
	if id.Op == OConst {
		if id.Val.Sign() == 0 {
			kf(st)
			return
		}
		if d, ok := dyns[id.Val.String()]; ok {
			if isIface(t) {
				if types.Implements(d.T, t.Underlying().(*types.Interface)) {
					kt(st, iv.at(t))
				} else {
					kf(st)
				}
				return
			}
			if types.Identical(d.T, t) {
				kt(st, d)
			} else {
				kf(st)
			}
			return
		}
	}
	if id.Op == OConst && plainErrs[id.Val.String()] && !isIface(t) {
		kf(st)
		return
	}
	if id.Op == OIte {
		v.branch(st, id.Args[0], func(st *State) { v.typeTest(st, c, mkv(iv.T, id.Args[1]), t, kt, kf) }, func(st *State) { v.typeTest(st, c, mkv(iv.T, id.Args[2]), t, kt, kf) })
		return
	}
	if isIface(t) {
		cond := and(not(eq(id, bv(64, 0))), uf("implements$"+classOf(t), boolSort, id))
		v.branch(st, cond, func(st *State) { kt(st, iv.at(t)) }, kf)
		return
	}
	tag := eq(uf("typetag", bvSort(64), id), typeTag(t))
	v.branch(st, and(not(eq(id, bv(64, 0))), tag), func(st *State) {
		if types.Identical(iv.T, tError) {
			// an error of this type is none of those made by errors.New
			for _, e := range sortedKeys(plainErrs) {
				n, _ := new(big.Int).SetString(e, 10)
				st.add(not(eq(id, bvBig(64, n))), false)
			}
		}
		kt(st, v.payload(st, id, t))
	}, kf)
}

func (v *V) payload(st *State, id *Term, t types.Type) Value {
	ls := leaves(t)
	L := make([]*Term, len(ls))
	for i, l := range ls {
		L[i] = uf(fmt.Sprintf("payload$%s$%d", classOf(t), i), l.sort, id)
		annotate(L[i], l, refMax)
	}
	val := Value{t, L}
	for _, f := range typeFacts(val) {
		st.add(f, false)
	}
	return val
}

var typeTags = map[string]int64{}

func typeTag(t types.Type) *Term {
	s := classOf(t)
	if _, ok := typeTags[s]; !ok {
		typeTags[s] = int64(len(typeTags) + 1)
	}
	return bv(64, typeTags[s])
}

func (v *V) deferStmt(s *ast.DeferStmt, st *State, c *Ctx, k K) {
	// evaluate function value and arguments now
	call := s.Call
	v.prepCall(call, st, c, func(st *State, run func(st *State, k KV)) {
		st.defers[c.fr.id] = append(st.defers[c.fr.id][:len(st.defers[c.fr.id]):len(st.defers[c.fr.id])], deferred{func(st *State, k func(*State)) {
			run(st, func(st *State, _ Value) { k(st) })
		}})
		k(st)
	})
}

func (v *V) runDefers(fr *Frame, st *State, k K) {
	d := st.defers[fr.id]
	if len(d) == 0 {
		k(st)
		return
	}
	last := d[len(d)-1]
	st.defers[fr.id] = d[: len(d)-1 : len(d)-1]
	last.run(st, func(st *State) { v.runDefers(fr, st, k) })
}

func isUntypedNil(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == types.UntypedNil
}

// assignConv converts x for assignment to type t.
func (v *V) assignConv(st *State, c *Ctx, x Value, t types.Type, n ast.Node, k KV) {
	if x.T == nil {
		v.fail(n.Pos(), "void value")
	}
	if isUntypedNil(x.T) {
		k(st, zeroValue(t))
		return
	}
	if isIface(t) && !isIface(x.T) {
		k(st, v.toIface(st, x, t))
		return
	}
	if b, ok := x.T.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
		if isInteger(t) && len(x.L) == 1 && x.L[0].Sort.K == SBV {
			w := leaves(t)[0].sort.W
			k(st, mkv(t, resize(x.L[0], w, true)))
			return
		}
	}
	if len(x.L) != len(leaves(t)) {
		v.fail(n.Pos(), "assign %s to %s", x.T, t)
	}
	k(st, x.at(t))
}

func resize(t *Term, w int, sgn bool) *Term {
	if t.Sort.W == w {
		return t
	}
	if t.Sort.W > w {
		return extract(w-1, 0, t)
	}
	if sgn {
		return sext(w, t)
	}
	return zext(w, t)
}

func (v *V) toIface(st *State, x Value, t types.Type) Value {
	if b, ok := x.T.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
		x.T = types.Default(x.T)
	}
	key := "dyn|" + classOf(x.T)
	for _, l := range x.L {
		key += fmt.Sprintf("|%d", l.id)
	}
	id, ok := viewKey[key]
	if !ok {
		id = tabID()
		viewKey[key] = id
		dyns[id.Val.String()] = x
	}
	return Value{t, []*Term{id}}
}

func constOf(tv types.TypeAndValue) (constant.Value, bool) {
	if tv.Value != nil {
		return tv.Value, true
	}
	return nil, false
}
