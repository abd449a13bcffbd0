package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

var (
	debugInv = os.Getenv("GVC_INV") != ""
	dumpInv  = os.Getenv("GVC_INVDUMP")
)

func writeFile(p, s string) { os.MkdirAll(filepath.Dir(p), 0755); os.WriteFile(p, []byte(s), 0644) }

func pcHyps(p *PC) []*Term {
	s := &State{pc: p}
	return s.hyps()
}

type Contract struct {
	Name       string
	Fn         string
	Pkg        *Pkg
	fd         *FuncDecl
	Props      []string
	Target     string
	TargetFd   *FuncDecl
	TargetCall *ast.CallExpr
	Trusted    bool
	Bounded    string
	Lemma      bool
	NoSearch   bool
	Inline     map[string]bool
	InlineAll  bool
	Appliable  bool
	Recursive  bool
	RecDepth   int
	PureFuncs  bool
	Unroll     int
	Timeout    time.Duration
	Err        string
	set        *ContractSet
}

type ContractSet struct {
	pr       *Program
	All      []*Contract
	ByName   map[string]*Contract
	ByFunc   map[*FuncDecl]*Contract
	Opaque   map[string]int
	ByTarget map[string]*Contract
	invs     []*invDecl
}

type invDecl struct {
	fd      *FuncDecl
	targets []string
}

func splitList(s string) []string {
	var out []string
	for _, x := range strings.FieldsFunc(s, func(r rune) bool { return r == ',' || r == ' ' }) {
		out = append(out, x)
	}
	return out
}

func qualify(pkg *Pkg, s string) string {
	if strings.Contains(s, "/") {
		return s
	}
	if i := strings.IndexByte(s, ':'); i >= 0 { // pkgrel:Name
		if s[:i] == "root" {
			return modPath + "." + s[i+1:]
		}
		return modPath + "/" + s[:i] + "." + s[i+1:]
	}
	return pkg.Path + "." + s
}

func collectContracts(pr *Program) *ContractSet {
	cs := &ContractSet{pr: pr, ByName: map[string]*Contract{}, ByFunc: map[*FuncDecl]*Contract{}, Opaque: map[string]int{}, ByTarget: map[string]*Contract{}}
	var fds []*FuncDecl
	for _, fd := range pr.ByObj {
		if fd.Ghost {
			fds = append(fds, fd)
		}
	}
	sort.Slice(fds, func(i, j int) bool { return fds[i].Key < fds[j].Key })
	for _, fd := range fds {
		d := fd.Dirs
		for _, o := range strings.Split(d["opaque"], ";") {
			f := strings.Fields(o)
			if len(f) == 0 {
				continue
			}
			n := 0
			if len(f) > 1 && strings.HasPrefix(f[1], "len=") {
				n, _ = strconv.Atoi(f[1][4:])
			}
			cs.Opaque[qualify(fd.Pkg, f[0])] = n
		}
		if t, ok := d["inv"]; ok {
			cs.invs = append(cs.invs, &invDecl{fd, splitList(t)})
			continue
		}
		props, isC := d["contract"]
		lem, isL := d["lemma"]
		_, isT := d["trusted"]
		if !isC && !isL && !isT {
			continue
		}
		con := &Contract{Fn: fd.Decl.Name.Name, Name: fd.Pkg.Types.Name() + "." + fd.Decl.Name.Name, Pkg: fd.Pkg, fd: fd, Inline: map[string]bool{}, set: cs, Timeout: 20 * time.Second}
		if isL {
			con.Lemma = true
			props = lem
		}
		con.Props = splitList(props)
		con.Trusted = isT
		con.Bounded = d["bounded"]
		if _, ok := d["bounded"]; ok && con.Bounded == "" {
			con.Bounded = "random search"
		}
		_, con.NoSearch = d["nosearch"]
		_, con.InlineAll = d["inlineall"]
		_, con.PureFuncs = d["purefuncs"]
		_, con.Recursive = d["recursive"]
		if s, ok := d["recdepth"]; ok {
			con.RecDepth, _ = strconv.Atoi(s)
		}
		for _, x := range splitList(d["inline"]) {
			con.Inline[qualify(fd.Pkg, x)] = true
		}
		if s, ok := d["unroll"]; ok {
			con.Unroll, _ = strconv.Atoi(s)
		}
		if s, ok := d["timeout"]; ok {
			n, _ := strconv.Atoi(s)
			con.Timeout = time.Duration(n) * time.Second
		}
		if t, ok := d["target"]; ok {
			con.Target = qualify(fd.Pkg, t)
			con.TargetFd = pr.Funcs[con.Target]
			con.TargetCall = findTarget(fd, con.Target)
			if con.TargetCall == nil {
				con.Err = "target " + t + " is not called by the contract (function missing or renamed)"
			}
			con.Appliable = con.TargetCall != nil && appliable(con)
			if _, no := d["noapply"]; no {
				con.Appliable = false
			}
			if con.Appliable {
				if o := cs.ByTarget[con.Target]; o == nil {
					cs.ByTarget[con.Target] = con
				}
			}
		}
		cs.All = append(cs.All, con)
		cs.ByName[con.Name] = con
		cs.ByFunc[fd] = con
	}
	return cs
}

func (cs *ContractSet) invsFor(v *V) []*FuncDecl {
	var out []*FuncDecl
	for _, i := range cs.invs {
		ok := false
		for _, t := range i.targets {
			q := qualify(i.fd.Pkg, t)
			if t == v.con.Fn || q == v.con.Target {
				ok = true
			}
			for _, s := range v.stack {
				if s == q {
					ok = true
				}
			}
		}
		if ok {
			out = append(out, i.fd)
		}
	}
	return out
}

func findTarget(fd *FuncDecl, key string) *ast.CallExpr {
	var res *ast.CallExpr
	ast.Inspect(fd.Decl.Body, func(n ast.Node) bool {
		if c, ok := n.(*ast.CallExpr); ok && res == nil {
			if f, ok := calleeObj(fd.Pkg.Info, c.Fun).(*types.Func); ok && funcKey(f.Origin()) == key {
				res = c
			}
		}
		return res == nil
	})
	return res
}

// a contract can stand for its target at other call sites when the target is
// applied to exactly the contract's parameters, in order
func appliable(con *Contract) bool {
	info := con.Pkg.Info
	var want []types.Object
	sig := con.fd.Obj.Type().(*types.Signature)
	for i := 0; i < sig.Params().Len(); i++ {
		want = append(want, sig.Params().At(i))
	}
	var got []ast.Expr
	if se, ok := ast.Unparen(con.TargetCall.Fun).(*ast.SelectorExpr); ok && info.Selections[se] != nil {
		got = append(got, se.X)
	}
	got = append(got, con.TargetCall.Args...)
	if len(got) != len(want) {
		return false
	}
	for i := range got {
		id, ok := got[i].(*ast.Ident)
		if !ok || info.Uses[id] != want[i] {
			return false
		}
	}
	return true
}

// ---------- verification of one contract ----------

type ConResult struct {
	Con     *Contract
	Obls    []*Obl
	Covers  map[string]bool // label -> reachable (not proved unreachable)
	Unsup   string
	V       *V
	Secs    float64
	Used    []string
	Inlined []string
	Trusted []string
}

func newState() *State {
	return &State{env: map[ckey]Value{}, box: map[ckey]*Term{}, heap: map[string]*HNode{}, glob: map[types.Object]Value{}, defers: map[int][]deferred{}}
}

func newV(pr *Program, con *Contract) *V {
	return &V{pr: pr, con: con, maxSteps: 60000, inlined: map[string]bool{}, used: map[string]bool{}, trusted: map[string]bool{}, loops: map[string]int{}, ensuresReached: map[string]int{}}
}

func generate(pr *Program, con *Contract) (res *ConResult) {
	t0 := time.Now()
	v := newV(pr, con)
	res = &ConResult{Con: con, V: v, Covers: map[string]bool{}}
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(unsupported)
			if !ok {
				if os.Getenv("GVC_PANIC") != "" {
					panic(r)
				}
				u = unsupported{fmt.Sprintf("internal error: %v", r)}
			}
			res.Unsup = u.msg
			if len(v.stack) > 0 {
				res.Unsup += " [in " + strings.Join(v.stack, " > ") + "]"
			}
		}
		res.Obls = v.obls
		res.Used = sortedKeys(v.used)
		res.Inlined = sortedKeys(v.inlined)
		res.Trusted = sortedKeys(v.trusted)
		res.Secs = time.Since(t0).Seconds()
	}()
	if con.Err != "" {
		unsup("%s", con.Err)
	}
	for _, e := range con.Pkg.Errs {
		unsup("contract package does not type-check: %v", e)
	}
	st := newState()
	v.frames++
	fr := &Frame{id: v.frames, fd: con.fd, pkg: con.Pkg, boxset: boxsetOf(con.fd), sig: con.fd.Obj.Type().(*types.Signature)}
	v.conFrame = fr
	var args []Value
	for i := 0; i < fr.sig.Params().Len(); i++ {
		p := fr.sig.Params().At(i)
		x, facts := freshValue(p.Name(), p.Type(), oldHi)
		for _, f := range facts {
			st.add(f, false)
		}
		args = append(args, x)
		v.params = append(v.params, x)
		v.pnames = append(v.pnames, p.Name())
	}
	c := &Ctx{fr: fr, ret: func(*State, []Value) {}, pan: func(*State, string, token.Pos) {}, verify: true}
	v.heap0 = st.heap
	v.runBody(fr, con.fd.Decl.Body, args, nil, st, c, func(*State, Value) {})
	if v.dry != 0 || v.quant != 0 || v.rec != nil {
		unsup("internal error: unbalanced control counters")
	}
	return res
}

func (v *V) verifyTarget(fd *FuncDecl, recv *Value, args []Value, st *State, c *Ctx, e *ast.CallExpr, k KV) {
	pre := st.clone()
	cc := *c
	cc.spec = false
	v.inlineCall(fd, recv, args, st, &cc, func(st *State, x Value) {
		v.frameCheck(pre, st, &cc, e.Pos())
		k(st, x)
	})
}

func (v *V) frameCheck(pre, st *State, c *Ctx, pos token.Pos) {
	if v.dry > 0 {
		return
	}
	mark := bvBig(64, new(big.Int).Add(v.limit(pre), bigOne))
	for _, cl := range sortedKeys(st.heap) {
		post := st.heap[cl]
		preN := pre.heap[cl]
		if preN == nil {
			preN = baseNode(post)
		}
		if post == preN {
			continue
		}
		refs := map[*Term]bool{}
		any := false
		seen := map[*HNode]bool{}
		var walk func(n *HNode)
		walk = func(n *HNode) {
			if n == nil || n == preN || seen[n] {
				return
			}
			seen[n] = true
			switch n.kind {
			case 1:
				refs[n.ref] = true
				walk(n.prev)
			case 2:
				for _, r := range n.refs {
					refs[r] = true
				}
				if n.mark != nil && n.mark.Op == OConst && n.mark.Val.Cmp(mark.Val) < 0 {
					any = true
				}
				walk(n.prev)
			case 3:
				walk(n.a)
				walk(n.b)
			}
		}
		walk(post)
		var list []*Term
		for r := range refs {
			if r.Op == OConst && r.Val.Cmp(mark.Val) >= 0 {
				continue
			}
			list = append(list, r)
		}
		sort.Slice(list, func(i, j int) bool { return list[i].id < list[j].id })
		if any {
			r := freshVar("anyref", bvSort(64))
			r.lo, r.hi = bigOne, v.limit(pre)
			list = append(list, r)
		}
		for _, r := range list {
			a, b := preN.read(r), post.read(r)
			for j := range a {
				if a[j] == b[j] {
					continue
				}
				v.frameObl(st, c, cl, post, r, j, a[j], b[j], mark, pos)
			}
		}
	}
	for _, o := range sortedGlob(st.glob) {
		pv := v.globVal(pre, o)
		qv := st.glob[o]
		allowed := false
		for _, m := range st.mods {
			if m.loc != nil && m.loc.kind == 2 && m.loc.obj == o {
				allowed = true
			}
		}
		if allowed {
			continue
		}
		for i := range pv.L {
			if pv.L[i] != qv.L[i] {
				v.oblig(st, c, eq(pv.L[i], qv.L[i]), "frame", "package variable "+o.Name()+" unchanged", pos)
			}
		}
	}
}

func shortClass(c string) string {
	return strings.ReplaceAll(c, modPath+"/", "")
}

func (v *V) frameObl(st *State, c *Ctx, cl string, n *HNode, r *Term, j int, a, b, mark *Term, pos token.Pos) {
	outside := []*Term{ult(r, mark), not(eq(r, bv(64, 0)))}
	isMap := a.Sort.K != SArr || a.Sort.Idx.K != SBV || a.Sort.Idx.W != 64 || strings.HasPrefix(cl, "map[")
	k := freshBound()
	leaf := ""
	if j < len(n.ls) {
		leaf = n.ls[j].path
	}
	for _, m := range st.mods {
		if m.class == cl && m.all != nil {
			return
		}
		if m.class != cl || m.ref == nil {
			continue
		}
		if m.leafB >= 0 && (j < m.leafA || j >= m.leafB) {
			continue
		}
		same := eq(r, m.ref)
		if isMap || m.lo == nil {
			outside = append(outside, not(same))
			continue
		}
		outside = append(outside, not(and(same, ult(bvsub(k, m.lo), m.n))))
	}
	desc := fmt.Sprintf("only the declared locations of %s change (%s)", shortClass(cl), leaf)
	if isMap {
		v.oblig(st, c, imp(and(outside...), eq(a, b)), "frame", desc, pos)
		return
	}
	body := imp(and(outside...), eq(sel(a, k), sel(b, k)))
	v.oblig(st, c, forall(k, body), "frame", desc, pos)
}

// ---------- applying a contract at a call site ----------

func (v *V) applyContract(con *Contract, all []Value, st *State, c *Ctx, e *ast.CallExpr, k KV) {
	v.frames++
	fr := &Frame{id: v.frames, fd: con.fd, pkg: con.Pkg, boxset: boxsetOf(con.fd), depth: c.fr.depth + 1, sig: con.fd.Obj.Type().(*types.Signature)}
	savedMods := st.mods
	savedPan := st.panicked
	st.mods = nil
	st.panicked = nil
	outer := *c
	site := token.NoPos
	if e != nil {
		site = e.Pos()
	}
	ai := &applyInfo{fd: con.fd, target: con.TargetCall, site: site, outer: &outer}
	resObj := types.NewVar(token.NoPos, nil, fmt.Sprintf("result%d", fr.id), types.Typ[types.Int])
	ai.resKey = ckey{fr.id, resObj}
	ac := &Ctx{fr: c.fr, spec: true, apply: ai, pan: func(*State, string, token.Pos) {}}
	v.stack = append(v.stack, "contract "+con.Name)
	depth := len(v.stack)
	v.runBody(fr, con.fd.Decl.Body, all, nil, st, ac, func(st *State, _ Value) {
		saved := append([]string{}, v.stack...)
		v.stack = v.stack[:depth-1]
		defer func() { v.stack = saved }()
		res, ok := st.env[ai.resKey]
		st.mods = savedMods
		pan := st.panicked
		st.panicked = savedPan
		if !ok {
			if con.Lemma {
				k(st, Value{types.NewTuple(), nil})
				return
			}
			return // path of the contract that does not reach the call (e.g. vacuous)
		}
		if pan != nil {
			if c.catch {
				v.branch(st, not(pan), func(st *State) { k(st, res) }, func(st *State) { c.pan(st, "callee panics", site) })
				return
			}
			v.check(st, c, not(pan), "callee may panic", site, func(st *State) { k(st, res) })
			return
		}
		k(st, res)
	})
	v.stack = v.stack[:depth-1]
}

func (v *V) havocTarget(f *types.Func, st *State, c *Ctx, e *ast.CallExpr, k KV) {
	if v.quant > 0 {
		v.fail(e.Pos(), "contract application under a quantifier")
	}
	ai := c.apply
	wm := bvBig(64, new(big.Int).Add(v.limit(st), bigOne))
	ai.watermark = wm
	for _, m := range st.mods {
		v.havocMod(st, m)
	}
	st.alloc += allocGap
	hi := v.limit(st)
	sig := f.Type().(*types.Signature)
	var res []Value
	for i := 0; i < sig.Results().Len(); i++ {
		x, facts := freshValue(f.Name()+"_r"+strconv.Itoa(i), sig.Results().At(i).Type(), hi)
		for _, ft := range facts {
			st.add(ft, false)
		}
		res = append(res, x)
	}
	var r Value
	if len(res) == 1 {
		r = res[0]
	} else {
		r = tupleVal(res)
	}
	st.env[ai.resKey] = r
	k(st, r)
}

func (v *V) havocMod(st *State, m modSpec) {
	if m.all != nil {
		if v.rec != nil {
			unsup("callee that may change every " + m.class + " called inside a loop")
		}
		prev := v.node(st, m.all)
		freshCtr++
		st.heap[m.class] = &HNode{kind: 2, class: m.class, ls: prev.ls, cs: prev.cs, prev: prev, name: fmt.Sprintf("Hall!%d", freshCtr), refHi: refMax, mark: bv(64, 0)}
		return
	}
	l := m.loc
	if l != nil && (l.kind == 0 || l.kind == 2) {
		x, facts := freshValue("mod", l.T, refMax)
		for _, f := range facts {
			st.add(f, false)
		}
		v.write(st, l, x)
		return
	}
	if l != nil && l.kind == 3 {
		h, _ := v.mapNode(st, l.mapT)
		cont := make([]*Term, len(h.cs))
		for i, s := range h.cs {
			cont[i] = freshVar("modmap", s)
		}
		cont[0].lo, cont[0].hi = bigZero, lenHi
		v.putMap(st, l.mapT, h, l.ref, cont)
		return
	}
	et := l.class
	cont := append([]*Term{}, v.readCont(st, et, m.ref)...)
	ls := leaves(et)
	for i := range cont {
		if m.leafB >= 0 && (i < m.leafA || i >= m.leafB) {
			continue
		}
		if m.n.Op == OConst && m.n.Val.Cmp(bigOne) == 0 && m.leafB >= 0 {
			x := freshVar("mod", ls[i].sort)
			annotate(x, ls[i], refMax)
			cont[i] = store(cont[i], m.lo, x)
			continue
		}
		fr := freshVar("modarr", cont[i].Sort)
		if lo, hi := bounds(ls[i].kind); ls[i].lift == 0 && hi != nil {
			fr.lo, fr.hi = lo, hi
		}
		cont[i] = acopy(cont[i], m.lo, m.n, fr, m.lo)
	}
	v.writeCont(st, et, m.ref, cont, nil)
}

// ---------- batch solving ----------

type job struct {
	hyps    []*Term
	goal    *Term
	timeout time.Duration
	quick   bool
	cover   bool // reachability: only look for an easy contradiction
}

var (
	memoMu  sync.Mutex
	memoRes = map[string]Result{}
)

func proveBatch(jobs []job) []Result {
	res := make([]Result, len(jobs))
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	for i, j := range jobs {
		if trivially(j.hyps, j.goal) {
			res[i] = Result{Status: "proved", Solver: "simplifier"}
			continue
		}
		queryMu.Lock()
		q, light := stagedQueries(j.hyps, j.goal)
		var text, alt string
		if q != nil {
			text, alt = q.emit(nil), q.alt()
		}
		queryMu.Unlock()
		if q == nil {
			res[i] = Result{Status: "proved", Solver: "simplifier"}
			continue
		}
		memoKey := normNames(text)
		if j.cover {
			memoKey = "cover:" + memoKey
		}
		memoMu.Lock()
		r, ok := memoRes[memoKey]
		memoMu.Unlock()
		if ok && (j.cover || r.Status != "unknown") {
			r.Query = q
			res[i] = r
			continue
		}
		wg.Add(1)
		sem <- struct{}{}
		go func(i int, j job, text, memoKey string, q *Query) {
			defer wg.Done()
			defer func() { <-sem }()
			var r Result
			if j.cover {
				r = solveCover(light, text)
			} else {
				r = solveStaged(light, text, alt, j.timeout, j.quick)
			}
			memoMu.Lock()
			memoRes[memoKey] = r
			memoMu.Unlock()
			r.Query = q
			res[i] = r
		}(i, j, text, memoKey, q)
	}
	wg.Wait()
	return res
}

// normNames renames the numbered symbols of a query in order of appearance
func normNames(text string) string {
	var out strings.Builder
	num := map[string]int{}
	for i := 0; i < len(text); {
		c := text[i]
		if c != '!' {
			out.WriteByte(c)
			i++
			continue
		}
		j := i + 1
		for j < len(text) && text[j] >= '0' && text[j] <= '9' {
			j++
		}
		if j == i+1 {
			out.WriteByte(c)
			i++
			continue
		}
		k := text[i:j]
		n, ok := num[k]
		if !ok {
			n = len(num)
			num[k] = n
		}
		fmt.Fprintf(&out, "!%d", n)
		i = j
	}
	return out.String()
}
