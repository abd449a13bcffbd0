package trie

import (
	"bytes"
	"io"
	"io/ioutil"
	"math/rand"

	"github.com/ThinkiumGroup/go-common"
	"github.com/ThinkiumGroup/go-common/db"
)

// C12: node caches and node operations

// gvValEq: same dynamic value, where values can be compared
func gvSameNodeRest(n *node, o node) bool {
	return n.generation == o.generation && gvForall(0, 16, func(i int) bool { return n.children[i] == o.children[i] })
}

//gvc:contract C12
//gvc:target node.setPrefix
func c_node_setPrefix(n *node, p []byte) {
	gvRequires(n != nil)
	old := *n
	want := gvClone(p)
	oldp := gvClone(n.prefix)
	gvModPtr(n)
	gvModSlice(n.prefix)
	n.setPrefix(p)
	gvEnsures("the node has the new prefix", gvEqBytes(n.prefix, want))
	same := bytes.Equal(oldp, want)
	gvEnsures("a changed prefix drops the node hash and the header hash and marks the node dirty", same || n.dirty && n.hash == nil && n.headerhash == nil)
	gvEnsures("an unchanged prefix keeps the caches", !same || n.dirty == old.dirty && gvEqBytes(n.hash, old.hash) && gvEqBytes(n.headerhash, old.headerhash))
	gvEnsures("nothing appears from nothing", (old.hash != nil || n.hash == nil) && (old.headerhash != nil || n.headerhash == nil) && (old.value == nil) == (n.value == nil) && (old.valuehash == nil) == (n.valuehash == nil))
	gvEnsures("children and generation stay", gvSameNodeRest(n, old))
	gvEnsures("the caller's bytes are not kept", n.prefix == nil || gvFresh(n.prefix) || gvSameArray(n.prefix, old.prefix))
	gvEnsures("value caches stay", gvSameArray(n.valuehash, old.valuehash) && len(n.valuehash) == len(old.valuehash) && len(n.valuestream) == len(old.valuestream))
}

//gvc:contract C12
//gvc:target node.chopPrefixHead
func c_node_chopPrefixHead(n *node, l int) {
	gvRequires(n != nil && l >= 0)
	old := *n
	gvModPtr(n)
	err := n.chopPrefixHead(l)
	gvEnsures("fails exactly when there is less prefix than that", (err != nil) == (l > len(old.prefix)))
	gvEnsures("failure changes nothing", err == nil || len(n.prefix) == len(old.prefix) && n.dirty == old.dirty && len(n.hash) == len(old.hash) && len(n.headerhash) == len(old.headerhash))
	gvEnsures("rest of the prefix", err != nil || gvSliceOf(n.prefix, old.prefix, l, len(old.prefix)))
	gvEnsures("caches dropped and dirty", err != nil || old.prefix == nil || n.dirty && n.hash == nil && n.headerhash == nil)
	gvEnsures("children and generation stay", gvSameNodeRest(n, old))
}

//gvc:contract C12
//gvc:target node.chopPrefixTail
func c_node_chopPrefixTail(n *node, l int) {
	gvRequires(n != nil && l >= 0)
	old := *n
	gvModPtr(n)
	err := n.chopPrefixTail(l)
	gvEnsures("fails exactly when there is less prefix than that", (err != nil) == (l > len(old.prefix)))
	gvEnsures("failure changes nothing", err == nil || len(n.prefix) == len(old.prefix) && n.dirty == old.dirty && len(n.hash) == len(old.hash) && len(n.headerhash) == len(old.headerhash))
	gvEnsures("beginning of the prefix", err != nil || gvSliceOf(n.prefix, old.prefix, 0, len(old.prefix)-l))
	gvEnsures("caches dropped and dirty", err != nil || old.prefix == nil || n.dirty && n.hash == nil && n.headerhash == nil)
	gvEnsures("children and generation stay", gvSameNodeRest(n, old))
}

//gvc:contract C12
//gvc:target node.setChild
func c_node_setChild(n *node, index int, child *node, k int) {
	gvRequires(n != nil && index >= 0 && index < 16 && k >= 0 && k < 16)
	old := *n
	gvModPtr(n)
	r := n.setChild(index, child)
	gvEnsures("returns the child that was there", r == old.children[index])
	gvEnsures("puts the child there, leaves the others", n.children[k] == gvNodeIte(k == index, child, old.children[k]))
	gvEnsures("caches dropped and dirty", n.dirty && n.hash == nil && n.headerhash == nil)
	gvEnsures("prefix and generation stay", len(n.prefix) == len(old.prefix) && gvSameArray(n.prefix, old.prefix) && n.generation == old.generation)
}

func gvNodeIte(c bool, a, b *node) *node {
	if c {
		return a
	}
	return b
}

//gvc:contract C12
//gvc:target node.setValue
func c_node_setValue(n *node, v interface{}) {
	gvRequires(n != nil)
	old := *n
	gvModPtr(n)
	changed, oldv, delta := n.setValue(v)
	gvEnsures("unchanged only when there was no value and there is none", changed == (old.value != nil || v != nil))
	gvEnsures("the value is there", (n.value == nil) == (v == nil))
	gvEnsures("the old value is returned", (oldv == nil) == (old.value == nil))
	gvEnsures("count of values follows", gvImp(old.value == nil && v != nil, delta == 1) && gvImp(old.value != nil && v == nil, delta == -1) && gvImp((old.value == nil) == (v == nil), delta == 0))
	gvEnsures("nothing to do, nothing done", changed || n.dirty == old.dirty && (n.hash == nil) == (old.hash == nil) && gvSameArray(n.hash, old.hash) && len(n.hash) == len(old.hash))
	gvEnsures("the header does not depend on the value", gvSameArray(n.headerhash, old.headerhash) && len(n.headerhash) == len(old.headerhash) && (n.headerhash == nil) == (old.headerhash == nil))
	gvEnsures("value hash, value stream and node hash dropped, dirty", !changed || n.dirty && n.hash == nil && n.valuehash == nil && n.valuestream == nil)
	gvEnsures("children, prefix and generation stay", gvSameNodeRest(n, old) && len(n.prefix) == len(old.prefix) && gvSameArray(n.prefix, old.prefix))
}

//gvc:contract C12
//gvc:target node.setValue
//gvc:noapply
func c_node_setValueInt(n *node, v int, w int) {
	gvRequires(n != nil)
	n.value = w
	gvModPtr(n)
	changed, oldv, delta := n.setValue(v)
	x, ok := n.value.(int)
	y, ok2 := oldv.(int)
	gvEnsures("holds the new value and hands back the old one", changed && ok && x == v && ok2 && y == w && delta == 0)
}

//gvc:contract C12
//gvc:target isEmptyNodeHash
func c_isEmptyNodeHash(h []byte) {
	r := isEmptyNodeHash(h)
	gvEnsures("too short for a hash or the hash of the empty node", r == (len(h) < common.HashLength || bytes.Equal(h, common.EmptyNodeHashSlice)))
}

//gvc:contract C12
//gvc:target node.hasChildren
func c_node_hasChildren(n *node) {
	gvRequires(n != nil)
	r := n.hasChildren()
	gvEnsures("some child", r == gvExists(0, 16, func(i int) bool { return n.children[i] != nil }))
}

//gvc:contract C12
//gvc:target node.isCollapsed
func c_node_isCollapsed(n *node) {
	gvRequires(n != nil)
	r := n.isCollapsed()
	gvEnsures("a node hash and nothing else", r == (len(n.hash) >= common.HashLength && !bytes.Equal(n.hash, common.EmptyNodeHashSlice) && n.value == nil && len(n.valuehash) == 0 && gvForall(0, 16, func(i int) bool { return n.children[i] == nil })))
}

//gvc:contract C12
//gvc:target node.isValueCollapsed
func c_node_isValueCollapsed(n *node) {
	gvRequires(n != nil)
	r := n.isValueCollapsed()
	gvEnsures("a value hash without the value", r == (len(n.valuehash) >= common.HashLength && n.value == nil))
}

//gvc:contract C12
//gvc:target node.isEmpty
func c_node_isEmpty(n *node) {
	gvRequires(n != nil)
	r := n.isEmpty()
	gvEnsures("nothing in it and no hash of anything", r == (len(n.prefix) == 0 && n.value == nil && gvForall(0, 16, func(i int) bool { return n.children[i] == nil }) &&
		(len(n.hash) < common.HashLength || bytes.Equal(n.hash, common.EmptyNodeHashSlice)) && len(n.valuehash) == 0))
}

//gvc:contract C12
//gvc:target node.canCollapse
func c_node_canCollapse(n *node) {
	gvRequires(n != nil)
	r := n.canCollapse()
	gvEnsures("a dirty node is never folded away", !n.dirty || !r)
	gvEnsures("clean, not the empty node, not folded", r == (!n.dirty && !bytes.Equal(n.hash, common.EmptyNodeHashSlice) && !n.isCollapsed()))
}

//gvc:contract C12
//gvc:target node.shouldCollapse
//gvc:noapply
func c_node_shouldCollapse(n *node, gen, lmt uint64) {
	gvRequires(n != nil && gen >= n.generation)
	r := n.shouldCollapse(gen, lmt)
	gvEnsures("old enough and foldable", r == (gen-n.generation > lmt && n.canCollapse()))
}

//gvc:contract C12
//gvc:target node.shouldCollapseValue
func c_node_shouldCollapseValue(n *node, lmt int) {
	gvRequires(n != nil)
	r := n.shouldCollapseValue(lmt)
	gvEnsures("clean node with a long unfolded value", r == (!n.dirty && len(n.valuestream) > lmt && !(len(n.valuehash) >= common.HashLength && n.value == nil)))
}

//gvc:contract C12
//gvc:target node.HashValue
//gvc:noapply
func c_node_HashValue_cached(n *node) {
	gvRequires(n != nil && n.hash != nil)
	r, err := n.HashValue()
	gvEnsures("the cached hash", err == nil && gvSameArray(r, n.hash) && len(r) == len(n.hash))
}

//gvc:contract C12
//gvc:target Trie.createNode
func c_Trie_createNode(t *Trie, s *node, prefix []byte, childIndex int) {
	gvRequires(s != nil && childIndex < 16)
	old := *s
	gvModPtr(s)
	r := t.createNode(s, prefix, childIndex)
	gvEnsures("new node with the prefix", r != nil && r != s && gvEqBytes(r.prefix, prefix) && (r.prefix == nil || gvFresh(r.prefix)))
	gvEnsures("nothing else in it", r.value == nil && gvForall(0, 16, func(i int) bool { return r.children[i] == nil }) && r.hash == nil && r.valuehash == nil && r.headerhash == nil && r.generation == old.generation)
	gvEnsures("hung under the start node when an index is given", childIndex < 0 || s.children[gvIte(childIndex < 0, 0, childIndex)] == r && s.dirty && s.hash == nil && s.headerhash == nil)
	gvEnsures("otherwise the start node stays", childIndex >= 0 || s.dirty == old.dirty && len(s.hash) == len(old.hash) && gvSameNodeRest(s, old))
}

// Loading a folded node from the database is outside the contracts: it is
// assumed to write the fields of that node only, and not to mark it dirty.

//gvc:trusted C12
//gvc:target Trie.expandNode
func c_Trie_expandNode(t *Trie, n *node) {
	old := n.dirty
	gvModPtr(n)
	_ = t.expandNode(n)
	gvEnsures("stays clean", n.dirty == old)
}

//gvc:trusted C12
//gvc:target node.expandValue
func c_node_expandValue(n *node, a db.DataAdapter) {
	old := n.dirty
	gvModPtr(n)
	_ = n.expandValue(a)
	gvEnsures("stays clean", n.dirty == old)
}

//gvc:contract C12
//gvc:target Trie.insert
//gvc:recursive
func c_Trie_insert(t *Trie, s *node, p []byte, off int, v interface{}) {
	gvRequires(t != nil && s != nil && off >= 0)
	gvRequires(gvForall(0, len(p), func(k int) bool { return p[k] < 16 }))
	loaded := !s.isCollapsed() && !s.isValueCollapsed()
	had := s.value != nil
	gvModAll(s)
	gvModPtr(&t.valueCount)
	var changed, repl bool
	var root *node
	pan := gvPanics(func() { changed, repl, root = t.insert(s, p, off, v) })
	gvEnsures("a value at the end of the key is a change", pan || !loaded || off < len(p) || !had && v == nil || changed)
	gvEnsures("a change below a node marks it dirty and drops its hash", pan || !changed || repl || s.dirty && s.hash == nil)
	gvEnsures("a replacing node is dirty and has no stale hash", pan || !repl || changed && root != nil && root.dirty && root.hash == nil && root.headerhash == nil)
}

//gvc:contract C12
//gvc:target Trie.putLocked
func c_Trie_putLocked(t *Trie, key []byte, v interface{}) {
	gvRequires(t != nil && t.root != nil && len(key) < 1<<40)
	gvModAll(t.root)
	gvModPtr(t)
	var changed bool
	pan := gvPanics(func() { changed = t.putLocked(key, v) })
	gvEnsures("a changed trie is dirty and has no stale root hash", pan || !changed || t.root != nil && t.root.dirty && t.root.hash == nil)
}

//gvc:contract C12
//gvc:target node.mergeTheLastChild
func c_node_merge(n *node, t *Trie, i int) {
	gvRequires(n != nil && t != nil && i >= 0 && i < 16)
	old := *n
	ch := n.children[i]
	only := ch != nil && ch != n && gvForall(0, 16, func(j int) bool { return j == i || n.children[j] == nil })
	none := gvForall(0, 16, func(j int) bool { return n.children[j] == nil })
	gvModAll(n)
	var b byte
	gvModAll(&b)
	var merged bool
	pan := gvPanics(func() { merged = n.mergeTheLastChild(t) })
	gvEnsures("a node with a value stays", pan || old.value == nil || !merged)
	gvEnsures("a node without a value merges with its only child", pan || !(only && old.value == nil) || merged)
	gvEnsures("a node without children stays", pan || !none || !merged)
	gvEnsures("a merged node is dirty and has no stale hash", pan || !merged || n.dirty && n.hash == nil && n.headerhash == nil)
	gvEnsures("the prefix grows by the child index and the child's prefix", pan || !(merged && only) || len(n.prefix) == len(old.prefix)+1+len(ch.prefix))
	gvEnsures("the value of the child comes up", pan || !(merged && only) || (n.value == nil) == (ch.value == nil))
	gvEnsures("a value that came up is hashed anew", pan || !(merged && only && ch.value != nil) || n.valuehash == nil && n.valuestream == nil)
	gvEnsures("the children of the child come up", pan || !(merged && only) || gvForall(0, 16, func(j int) bool { return n.children[j] == ch.children[j] }))
}

//gvc:contract C12
//gvc:target Trie.removeValue
func c_Trie_removeValue(t *Trie, n *node) {
	gvRequires(t != nil && n != nil)
	had := n.value != nil
	gvModAll(n)
	var b byte
	gvModAll(&b)
	gvModPtr(&t.valueCount)
	var changed, remove bool
	pan := gvPanics(func() { changed, remove, _ = t.removeValue(n) })
	gvEnsures("a node that loses its value is dirty and has no stale hash", pan || !changed || n.dirty && n.hash == nil)
	gvEnsures("a lost value is a change", pan || changed || !had)
	gvEnsures("only a node without value and children is to be removed", pan || !remove || n.value == nil && gvForall(0, 16, func(j int) bool { return n.children[j] == nil }))
}

//gvc:contract C12
//gvc:target Trie.delete
//gvc:recursive
func c_Trie_delete(t *Trie, s *node, p []byte, off int) {
	gvRequires(t != nil && s != nil && off >= 0)
	loaded := !s.isCollapsed() && !s.isValueCollapsed()
	had := s.value != nil
	gvModAll(s)
	var b byte
	gvModAll(&b)
	gvModPtr(&t.valueCount)
	var changed, remove bool
	pan := gvPanics(func() { changed, remove, _ = t.delete(s, p, off) })
	gvEnsures("a value lost at the end of the key is a change", pan || !loaded || off < len(p) || !had || changed)
	gvEnsures("a deletion below a node marks it dirty and drops its hash", pan || !changed || s.dirty && s.hash == nil)
	gvEnsures("only a node without value and children is to be removed", pan || !remove || s.value == nil && gvForall(0, 16, func(j int) bool { return s.children[j] == nil }))
}

//gvc:contract C12
//gvc:target Trie.deleteLocked
func c_Trie_deleteLocked(t *Trie, key []byte) {
	gvRequires(t != nil && t.root != nil && len(key) < 1<<40)
	gvModAll(t.root)
	var b byte
	gvModAll(&b)
	gvModPtr(t)
	var changed bool
	pan := gvPanics(func() { changed, _ = t.deleteLocked(key) })
	gvEnsures("a changed trie is dirty and has no stale root hash", pan || !changed || t.root != nil && t.root.dirty && t.root.hash == nil)
}

// gvFailAdapter fails to save its failAt-th node
type gvFailAdapter struct{ n, failAt int }

func (a *gvFailAdapter) Load(key []byte) ([]byte, error) { return nil, db.ErrNotFound }
func (a *gvFailAdapter) Save(key []byte, value []byte) error {
	a.n++
	if a.n == a.failAt {
		return db.ErrReadOnly
	}
	return nil
}
func (a *gvFailAdapter) Clone() db.DataAdapter { return a }

//gvc:finding C12
func finding_commitError() {
	for at := 1; at <= 4; at++ {
		a := &gvFailAdapter{failAt: at}
		t := NewTrieWithValueFuncs(nil, a, nil,
			func(v interface{}, w io.Writer) error { _, err := w.Write(v.([]byte)); return err },
			func(r io.Reader) (interface{}, error) { return nil, db.ErrNotFound },
			func(v interface{}, vb []byte) ([]byte, error) { h := common.Hash256(vb); return h[:], nil })
		t.Put([]byte{1, 2, 3}, []byte("one"))
		t.Put([]byte{1, 2, 4}, []byte("two"))
		t.Put([]byte{0x81, 2, 4}, []byte("three"))
		err := t.Commit()
		gvEnsures("Commit reports a node that could not be saved", a.n < at || err != nil)
	}
}

// gvSaveLog records whether a save failed; as the node adapter of a trie it
// stands for any adapter
type gvSaveLog struct {
	failed bool
	m      map[string][]byte
	left   int // fails when it gets to zero
}

func (a *gvSaveLog) Load(key []byte) ([]byte, error) {
	if v, ok := a.m[string(key)]; ok {
		return v, nil
	}
	return nil, db.ErrNotFound
}
func (a *gvSaveLog) Save(key []byte, value []byte) error {
	a.left--
	if a.left == 0 {
		a.failed = true
		return db.ErrReadOnly
	}
	a.m[string(key)] = append([]byte(nil), value...)
	return nil
}
func (a *gvSaveLog) Clone() db.DataAdapter               { return a }

//gvc:trusted C12
//gvc:target Trie.saveOneNode
func c_Trie_saveOneNode(t *Trie, n *node) {
	a, ok := t.nodeAdapter.(*gvSaveLog)
	gvRequires(ok && a != nil)
	old := a.failed
	gvModAll(n)
	gvModPtr(a)
	err := t.saveOneNode(n)
	gvEnsures("a failed save is reported", a.failed == (old || err != nil))
	gvEnsures("a saved node is clean", err != nil || !n.dirty)
}

//gvc:contract C12
//gvc:target Trie.iterateSave
//gvc:recursive
func c_Trie_iterateSave(t *Trie, n *node) {
	gvRequires(t != nil && n != nil)
	a, ok := t.nodeAdapter.(*gvSaveLog)
	gvRequires(ok && a != nil)
	old := a.failed
	gvModAll(n)
	gvModPtr(a)
	var err error
	pan := gvPanics(func() { err = t.iterateSave(n) })
	gvEnsures("a node that could not be saved is reported", pan || !a.failed || old || err != nil)
	gvEnsures("a saved node is clean", pan || err != nil || !n.dirty)
}

//gvc:contract C12
//gvc:target Trie.commitLocked
func c_Trie_commitLocked(t *Trie) {
	gvRequires(t != nil && t.root != nil)
	a, ok := t.nodeAdapter.(*gvSaveLog)
	gvRequires(ok && a != nil)
	old := a.failed
	gen := t.gen
	gvModAll(t.root)
	gvModPtr(t)
	gvModPtr(a)
	var err error
	pan := gvPanics(func() { err = t.commitLocked() })
	gvEnsures("a node that could not be saved is reported", pan || !a.failed || old || err != nil)
	gvEnsures("a committed trie is clean", pan || err != nil || t.root != nil && !t.root.dirty)
	gvEnsures("a new generation begins", pan || t.gen == gvIteU(err == nil, gen+1, gen))
}

// Hashing is outside these contracts: it is assumed to fill caches only (of
// any node) and to leave dirty marks, values and children alone.

//gvc:trusted C12
//gvc:target node.computeHash
func c_node_computeHash_frame(n *node, ptype ProofType, proofs *ProofChain) {
	gvRequires(n != nil && proofs == nil)
	old := *n
	gvModAll(n)
	h, err := n.computeHash(ptype, proofs)
	gvEnsures("a hash or an error", err != nil || h != nil)
	gvEnsures("only caches change", n.dirty == old.dirty && (n.value == nil) == (old.value == nil) && gvSameNodeRest(n, old) && gvSameArray(n.prefix, old.prefix) && len(n.prefix) == len(old.prefix))
}

//gvc:trusted C12
//gvc:target node.valueHash
func c_node_valueHash_frame(n *node) {
	gvRequires(n != nil)
	old := *n
	gvModPtr(n)
	_, _, _ = n.valueHash()
	gvEnsures("only the value caches change", n.dirty == old.dirty && (n.value == nil) == (old.value == nil) && gvSameNodeRest(n, old) && gvSameArray(n.prefix, old.prefix) && len(n.prefix) == len(old.prefix) && gvSameArray(n.hash, old.hash) && len(n.hash) == len(old.hash) && gvSameArray(n.headerhash, old.headerhash) && len(n.headerhash) == len(old.headerhash))
}

//gvc:contract C12
//gvc:target node.collapse
func c_node_collapse(n *node) {
	gvRequires(n != nil)
	folded := n.isCollapsed()
	old := *n
	gvModAll(n)
	err := n.collapse()
	gvEnsures("folding does not touch the dirty mark", n.dirty == old.dirty)
	gvEnsures("a folded node stays", !folded || err == common.ErrAlreadyDone && gvSameNodeRest(n, old))
	gvEnsures("a folded node has its hash and nothing else", err != nil || n.hash != nil && n.value == nil && n.valuehash == nil && n.valuestream == nil && gvForall(0, 16, func(i int) bool { return n.children[i] == nil }))
	gvEnsures("a failure keeps children and value", err == nil || gvSameNodeRest(n, old) && (n.value == nil) == (old.value == nil))
}

//gvc:contract C12
//gvc:target node.collapseValue
func c_node_collapseValue(n *node) {
	gvRequires(n != nil)
	folded := n.isValueCollapsed()
	old := *n
	gvModPtr(n)
	err := n.collapseValue()
	gvEnsures("folding does not touch the dirty mark", n.dirty == old.dirty)
	gvEnsures("a folded value stays", !folded || err == common.ErrAlreadyDone)
	gvEnsures("the children stay", gvSameNodeRest(n, old))
	gvEnsures("a folded value is gone", err != nil || n.value == nil && n.valuestream == nil)
}

// Loading, saving and hashing a node are assumed above. This run of fixed
// histories over one store stands in for them (bounded): what was put is found
// in the trie, in a second trie opened on the committed root hash, and the root
// hash does not depend on the history; a failing store is reported.
//
//gvc:finding C12
func finding_histories() {
	for seed := int64(0); seed < 300; seed++ {
		r := rand.New(rand.NewSource(seed))
		t := gvRandTrie(rand.New(rand.NewSource(4)))
		for _, k := range gvAllKeys() {
			t.Delete(k)
		}
		m := map[string]byte{}
		for n := r.Intn(24); n > 0; n-- {
			k := gvAllKeys()[r.Intn(len(gvAllKeys()))]
			_, had := m[string(k)]
			switch r.Intn(8) {
			case 0:
				_, _ = t.HashValue()
			case 1:
				if r.Intn(2) == 0 {
					t.gen += maxGenSize + 2 // old nodes are folded away
				}
				gvEnsures("a healthy store is no error", t.Commit() == nil && !t.IsDirty())
				if r.Intn(2) == 0 {
					_ = t.Collapse()
				}
			case 2, 3:
				c, _ := t.Delete(k)
				gvEnsures("a deletion is a change when the key was there", c == had)
				delete(m, string(k))
			default:
				m[string(k)] = byte(r.Intn(200))
				gvEnsures("a put is a change", t.Put(k, []byte{m[string(k)]}))
			}
		}
		h, err := t.HashValue()
		gvEnsures("hashed", err == nil)
		if r.Intn(3) == 0 {
			a, b := t.nodeAdapter.(*gvSaveLog), t.valueAdapter.(*gvSaveLog)
			if r.Intn(2) == 0 {
				a, b = b, a
			}
			a.left = 1 + r.Intn(4)
			wasDirty := t.IsDirty()
			err = t.Commit()
			gvEnsures("a node or value that could not be saved is reported and the trie stays dirty", !a.failed || err != nil && t.IsDirty() && wasDirty)
			a.left = 0
		}
		gvEnsures("a healthy store is no error", t.Commit() == nil && !t.IsDirty())
		h2, _ := t.HashValue()
		gvEnsures("committing does not change the root", bytes.Equal(h, h2))
		t2 := t.Inherit(h2)
		fresh := gvRandTrie(rand.New(rand.NewSource(4)))
		for _, k := range gvAllKeys() {
			fresh.Delete(k)
		}
		for _, k := range gvAllKeys() {
			x, in := m[string(k)]
			v, ok := t2.Get(k)
			gvEnsures("the committed trie holds what was put and not deleted", ok == in && (!in || len(v.([]byte)) == 1 && v.([]byte)[0] == x))
			v, ok = t.Get(k)
			gvEnsures("so does the trie itself", ok == in && (!in || len(v.([]byte)) == 1 && v.([]byte)[0] == x))
			if in {
				fresh.Put(k, []byte{x})
			}
		}
		h3, _ := fresh.HashValue()
		gvEnsures("the root depends on the content only", len(m) == 0 || bytes.Equal(h3, h2))
	}
}

func gvAllKeys() [][]byte {
	var ks [][]byte
	for _, a := range []byte{0, 1, 0x10} {
		for _, b := range []byte{0, 1, 2, 0x20} {
			ks = append(ks, []byte{a, b, 7}, []byte{a, b, 8})
		}
	}
	return ks
}

// ---------- inputs for the search ----------

func gvRandTrie(r *rand.Rand) *Trie {
	a := &gvSaveLog{m: map[string][]byte{}}
	t := NewTrieWithValueFuncs(nil, a, &gvSaveLog{m: map[string][]byte{}},
		func(v interface{}, w io.Writer) error { _, err := w.Write(v.([]byte)); return err },
		func(rd io.Reader) (interface{}, error) { return ioutil.ReadAll(rd) },
		func(v interface{}, vb []byte) ([]byte, error) { h := common.Hash256(vb); return h[:], nil })
	gvSteps(t, r, r.Intn(8))
	a.left = 0
	return t
}

func gvRandTrieKey(r *rand.Rand) []byte {
	k := []byte{byte(r.Intn(2)*16 + r.Intn(3)), byte(r.Intn(3) * 16)}
	return k[:1+r.Intn(2)]
}

func gvSteps(t *Trie, r *rand.Rand, n int) {
	for ; n > 0; n-- {
		switch r.Intn(7) {
		case 0:
			_, _ = t.HashValue()
		case 1:
			_ = t.Commit()
		case 2:
			t.Delete(gvRandTrieKey(r))
		case 3:
			if !t.IsDirty() && r.Intn(3) == 0 {
				_ = t.Collapse()
			}
		default:
			t.Put(gvRandTrieKey(r), []byte{byte(r.Intn(3))})
		}
	}
}

// gvRandNodeOf: some node of the trie
func gvRandNodeOf(t *Trie, r *rand.Rand) *node {
	n := t.root
	for r.Intn(3) != 0 {
		var cs []*node
		for _, c := range n.children {
			if c != nil {
				cs = append(cs, c)
			}
		}
		if len(cs) == 0 {
			break
		}
		n = cs[r.Intn(len(cs))]
	}
	return n
}

func gvRandNibbles(r *rand.Rand) []byte {
	return keyToPrefix(gvRandTrieKey(r))
}

func gen_c_Trie_insert(r *rand.Rand) (*Trie, *node, []byte, int, interface{}) {
	t := gvRandTrie(r)
	p := gvRandNibbles(r)
	return t, gvRandNodeOf(t, r), p, r.Intn(2) * r.Intn(len(p)+1), []byte{byte(r.Intn(3))}
}

func gen_c_Trie_putLocked(r *rand.Rand) (*Trie, []byte, interface{}) {
	return gvRandTrie(r), gvRandTrieKey(r), []byte{byte(r.Intn(3))}
}

func gen_c_node_merge(r *rand.Rand) (*node, *Trie, int) {
	t := gvRandTrie(r)
	n := gvRandNodeOf(t, r)
	if r.Intn(2) == 0 {
		n.value = nil
	}
	if r.Intn(2) == 0 {
		one := false
		for i := range n.children {
			if n.children[i] != nil {
				if one {
					n.children[i] = nil
				}
				one = true
			}
		}
	}
	i := r.Intn(16)
	for j := range n.children {
		if n.children[j] != nil {
			i = j
		}
	}
	if r.Intn(3) == 0 {
		n.valuehash = make([]byte, common.HashLength)
	}
	return n, t, i
}

func gen_c_Trie_removeValue(r *rand.Rand) (*Trie, *node) {
	t := gvRandTrie(r)
	return t, gvRandNodeOf(t, r)
}

func gen_c_Trie_delete(r *rand.Rand) (*Trie, *node, []byte, int) {
	t, n, p, off, _ := gen_c_Trie_insert(r)
	return t, n, p, off
}

func gen_c_Trie_deleteLocked(r *rand.Rand) (*Trie, []byte) {
	return gvRandTrie(r), gvRandTrieKey(r)
}

func gvFailing(t *Trie, r *rand.Rand) {
	t.nodeAdapter.(*gvSaveLog).left = r.Intn(5)
}

func gen_c_Trie_iterateSave(r *rand.Rand) (*Trie, *node) {
	t := gvRandTrie(r)
	gvFailing(t, r)
	return t, gvRandNodeOf(t, r)
}

func gen_c_Trie_commitLocked(r *rand.Rand) *Trie {
	t := gvRandTrie(r)
	gvFailing(t, r)
	return t
}

func gen_c_node_setValueInt(r *rand.Rand) (*node, int, int) {
	t := gvRandTrie(r)
	return gvRandNodeOf(t, r), r.Intn(2), r.Intn(2)
}

func gen_c_node_setValue(r *rand.Rand) (*node, interface{}) {
	t := gvRandTrie(r)
	n := gvRandNodeOf(t, r)
	if r.Intn(3) == 0 {
		return n, nil
	}
	if n.value != nil {
		n.value = 1
	}
	if r.Intn(3) == 0 { // the same pointer again
		x := &gvSaveLog{}
		if n.value != nil {
			n.value = x
		}
		return n, x
	}
	return n, r.Intn(3)
}
