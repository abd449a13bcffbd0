package db

import (
	"errors"
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"

	"github.com/ThinkiumGroup/go-common"
	lru "github.com/hashicorp/golang-lru"
)

// C19: key prefixes, overlays, caches and batches of databases

var errNotABatch = errors.New("not a batch of this database")

// gvVal is a stored value
type gvVal struct{ b []byte }

// gvBase stands for any database below a wrapper. When err is set every
// operation fails with it and changes nothing.
type gvBase struct {
	m      map[string]gvVal
	err    error
	writes int
	got    int // batches with the watched entry
	last   *gvBatch
}

func (d *gvBase) Put(key, value []byte) error {
	d.writes++
	if d.err != nil {
		return d.err
	}
	d.m[string(key)] = gvVal{value}
	return nil
}
func (d *gvBase) Has(key []byte) (bool, error) {
	if d.err != nil {
		return false, d.err
	}
	_, ok := d.m[string(key)]
	return ok, nil
}
func (d *gvBase) Get(key []byte) ([]byte, error) {
	if d.err != nil {
		return nil, d.err
	}
	return d.m[string(key)].b, nil
}
func (d *gvBase) Delete(key []byte) error {
	d.writes++
	if d.err != nil {
		return d.err
	}
	delete(d.m, string(key))
	return nil
}
func (d *gvBase) NewBatch() Batch { return &gvBatch{} }
func (d *gvBase) Batch(batch Batch) error {
	d.writes++
	if d.err != nil {
		return d.err
	}
	b, ok := batch.(*gvBatch)
	if !ok {
		return errNotABatch
	}
	d.got += b.has
	d.last = b
	return nil
}
func (d *gvBase) Close() error { return nil }

// gvBatch remembers its last command and how often it holds the watched entry
type gvBatch struct {
	key, value []byte
	n, has     int
}

func (b *gvBatch) Put(key, value []byte) error {
	b.key, b.value = key, value
	b.n++
	return nil
}
func (b *gvBatch) Delete(key []byte) error {
	b.key, b.value = key, nil
	b.n++
	return nil
}
func (b *gvBatch) Size() int { return b.n }

func gvRandKey(r *rand.Rand) []byte {
	k := make([]byte, r.Intn(3))
	for i := range k {
		k[i] = byte(r.Intn(2))
	}
	return k
}

func gvRandBase(r *rand.Rand) *gvBase {
	d := &gvBase{m: map[string]gvVal{}}
	for i := r.Intn(6); i > 0; i-- {
		d.m[string(gvRandKey(r))] = gvVal{gvRandKey(r)}
	}
	if r.Intn(4) == 0 {
		d.err = ErrNotFound
	}
	return d
}

//gvc:contract C19
//gvc:target PrefixKey
func c_PrefixKey(prefix, key []byte) {
	gvRequires(len(prefix) < 1<<40 && len(key) < 1<<40)
	r := PrefixKey(prefix, key)
	gvEnsures("prefix and key", string(r) == string(prefix)+string(key))
	gvEnsures("the prefix first", len(r) == len(prefix)+len(key) && gvForall(0, len(prefix), func(k int) bool { return r[k] == prefix[k] }))
	gvEnsures("then the key", gvForall(0, len(key), func(k int) bool { return r[len(prefix)+k] == key[k] }))
	gvEnsures("new slice", gvFresh(r))
}

//gvc:contract C19
//gvc:target PrefixKey2
func c_PrefixKey2(p1, p2, key []byte) {
	gvRequires(len(p1) < 1<<40 && len(p2) < 1<<40 && len(key) < 1<<40)
	r := PrefixKey2(p1, p2, key)
	gvEnsures("length", len(r) == len(p1)+len(p2)+len(key))
	gvEnsures("the first prefix first", gvForall(0, len(p1), func(k int) bool { return r[k] == p1[k] }))
	gvEnsures("then the second prefix", gvForall(0, len(p2), func(k int) bool { return r[len(p1)+k] == p2[k] }))
	gvEnsures("then the key", gvForall(0, len(key), func(k int) bool { return r[len(p1)+len(p2)+k] == key[k] }))
	gvEnsures("new slice", gvFresh(r))
}

//gvc:contract C19
//gvc:target CopySlice
func c_CopySlice(val []byte) {
	r := CopySlice(val)
	gvEnsures("same bytes", gvEqBytes(r, val) && (r == nil) == (val == nil))
	gvEnsures("new slice", r == nil || gvFresh(r))
}

// Two keys under one prefix are stored under one key only when they are equal.

//gvc:lemma C19
func l_prefixInjective(prefix, a, b []byte) {
	gvRequires(len(prefix) < 1<<40 && len(a) < 1<<40 && len(b) < 1<<40)
	x, y := PrefixKey(prefix, a), PrefixKey(prefix, b)
	gvRequires(gvEqBytes(x, y))
	gvAssert("same length", len(a) == len(b))
	gvAssert("same key", gvForall(0, len(a), func(k int) bool { return x[len(prefix)+k] == y[len(prefix)+k] && a[k] == b[k] }))
}

func gen_l_prefixInjective(r *rand.Rand) ([]byte, []byte, []byte) {
	a := gvRandKey(r)
	return gvRandKey(r), a, a
}

//gvc:contract C19
//gvc:target GetNilError
func c_GetNilError(d *gvBase, key []byte) {
	gvRequires(d != nil)
	want := d.m[string(key)].b
	r, err := GetNilError(d, key)
	gvEnsures("errors of the database pass through", d.err == nil || r == nil && err == d.err)
	gvEnsures("nothing stored is an error", d.err != nil || (err == ErrNotFound) == (len(want) == 0))
	gvEnsures("otherwise what is stored", d.err != nil || len(want) == 0 || err == nil && gvEqBytes(r, want))
}

func gen_c_GetNilError(r *rand.Rand) (*gvBase, []byte) { return gvRandBase(r), gvRandKey(r) }

// ---------- prefixed adapter ----------

//gvc:contract C19
//gvc:target keyPrefixedDataAdapter.key
func c_kpda_key(k *keyPrefixedDataAdapter, key []byte) {
	gvRequires(k != nil && len(k.keyPrefix) < 1<<40 && len(key) < 1<<40)
	r := k.key(key)
	gvEnsures("prefix and key", string(r) == string(k.keyPrefix)+string(key))
}

func gvStored(d *gvBase, k string) (string, bool) {
	x, ok := d.m[k]
	return string(x.b), ok
}

//gvc:contract C19
//gvc:target keyPrefixedDataAdapter.Save
func c_kpda_Save(d *gvBase, prefix []byte, key, value []byte, other string) {
	gvRequires(d != nil && d.m != nil && len(prefix) < 1<<40 && len(key) < 1<<40)
	k := &keyPrefixedDataAdapter{database: d, keyPrefix: prefix}
	full := string(prefix) + string(key)
	was, had := gvStored(d, other)
	gvModPtr(d)
	gvModMap(d.m)
	err := k.Save(key, value)
	x, ok := gvStored(d, full)
	y, oky := gvStored(d, other)
	gvEnsures("errors pass through", err == d.err)
	gvEnsures("stored under the prefixed key", err != nil || ok && x == string(value))
	gvEnsures("no other key is touched", err == nil && other == full || y == was && oky == had)
}

func gen_c_kpda_Save(r *rand.Rand) (*gvBase, []byte, []byte, []byte, string) {
	return gvRandBase(r), gvRandKey(r), gvRandKey(r), gvRandKey(r), string(gvRandKey(r))
}

//gvc:contract C19
//gvc:target keyPrefixedDataAdapter.Delete
func c_kpda_Delete(d *gvBase, prefix []byte, key []byte, other string) {
	gvRequires(d != nil && d.m != nil && len(prefix) < 1<<40 && len(key) < 1<<40)
	k := &keyPrefixedDataAdapter{database: d, keyPrefix: prefix}
	full := string(prefix) + string(key)
	was, had := gvStored(d, other)
	gvModPtr(d)
	gvModMap(d.m)
	err := k.Delete(key)
	_, ok := gvStored(d, full)
	y, oky := gvStored(d, other)
	gvEnsures("errors pass through", err == d.err)
	gvEnsures("the prefixed key is gone", err != nil || !ok)
	gvEnsures("no other key is touched", err == nil && other == full || y == was && oky == had)
}

func gen_c_kpda_Delete(r *rand.Rand) (*gvBase, []byte, []byte, string) {
	return gvRandBase(r), gvRandKey(r), gvRandKey(r), string(gvRandKey(r))
}

//gvc:contract C19
//gvc:target keyPrefixedDataAdapter.Load
func c_kpda_Load(d *gvBase, prefix []byte, key []byte) {
	gvRequires(d != nil && len(prefix) < 1<<40 && len(key) < 1<<40)
	k := &keyPrefixedDataAdapter{database: d, keyPrefix: prefix}
	x, ok := gvStored(d, string(prefix)+string(key))
	r, err := k.Load(key)
	has, err2 := k.Has(key)
	gvEnsures("errors pass through", err == d.err && err2 == d.err)
	gvEnsures("what is stored under the prefixed key", err != nil || string(r) == x && has == ok)
}

func gen_c_kpda_Load(r *rand.Rand) (*gvBase, []byte, []byte) {
	return gvRandBase(r), gvRandKey(r), gvRandKey(r)
}

//gvc:contract C19
//gvc:target keyPrefixedDataAdapter.NewBatch
func c_kpda_NewBatch(d *gvBase, prefix []byte, key, value []byte, del bool) {
	gvRequires(d != nil && len(prefix) < 1<<40 && len(key) < 1<<40)
	k := &keyPrefixedDataAdapter{database: d, keyPrefix: prefix}
	b := k.NewBatch()
	var err error
	if del {
		err = b.Delete(key)
	} else {
		err = b.Put(key, value)
	}
	kb, ok := b.(*KeyBatch)
	gvEnsures("batch of the database below", ok && err == nil)
	x, ok := kb.batch.(*gvBatch)
	gvEnsures("the command goes to the prefixed key", ok && x.n == 1 && string(x.key) == string(prefix)+string(key) && (del || gvEqBytes(x.value, value)))
	gvEnsures("size", b.Size() == 1)
}

func gen_c_kpda_NewBatch(r *rand.Rand) (*gvBase, []byte, []byte, []byte, bool) {
	return gvRandBase(r), gvRandKey(r), gvRandKey(r), gvRandKey(r), r.Intn(2) == 0
}

//gvc:contract C19
//gvc:target keyPrefixedDataAdapter.Batch
func c_kpda_Batch(d *gvBase, prefix []byte, key, value []byte, del bool) {
	gvRequires(d != nil && d.last == nil && len(prefix) < 1<<40 && len(key) < 1<<40)
	k := &keyPrefixedDataAdapter{database: d, keyPrefix: prefix}
	b := k.NewBatch()
	var err error
	if del {
		err = b.Delete(key)
	} else {
		err = b.Put(key, value)
	}
	gvModPtr(d)
	err2 := k.Batch(b)
	x := d.last
	gvEnsures("errors pass through", err == nil && err2 == d.err)
	gvEnsures("the batch of the database below is written", err2 != nil || x != nil && x.n == 1)
	gvEnsures("with the command on the prefixed key", err2 != nil || x == nil || string(x.key) == string(prefix)+string(key) && (del || gvEqBytes(x.value, value)) && (!del || x.value == nil))
	gvEnsures("nothing is written on failure", err2 == nil || x == nil)
}

func gen_c_kpda_Batch(r *rand.Rand) (*gvBase, []byte, []byte, []byte, bool) {
	return gen_c_kpda_NewBatch(r)
}

//gvc:contract C19
//gvc:target keyPrefixedDataAdapter.Clone
func c_kpda_Clone(d *gvBase, prefix []byte) {
	gvRequires(d != nil)
	k := &keyPrefixedDataAdapter{database: d, keyPrefix: prefix}
	r := k.Clone()
	x, ok := r.(*keyPrefixedDataAdapter)
	gvEnsures("the same prefix on the same database", ok && gvEqBytes(x.keyPrefix, prefix) && x.database == Database(d))
}

func gen_c_kpda_Clone(r *rand.Rand) (*gvBase, []byte) { return gvRandBase(r), gvRandKey(r) }

// ---------- key-converting database ----------

func gvConv(prefix []byte) func([]byte) []byte {
	return func(k []byte) []byte { return PrefixKey(prefix, k) }
}

//gvc:contract C19
//gvc:target KeyDatabase.Put
func c_KeyDatabase_Put(d *gvBase, prefix []byte, key, value []byte, other string) {
	gvRequires(d != nil && d.m != nil && len(prefix) < 1<<40 && len(key) < 1<<40)
	k := &KeyDatabase{database: d, keyFunc: gvConv(prefix)}
	full := string(prefix) + string(key)
	was, had := gvStored(d, other)
	gvModPtr(d)
	gvModMap(d.m)
	err := k.Put(key, value)
	x, ok := gvStored(d, full)
	y, oky := gvStored(d, other)
	gvEnsures("errors pass through", err == d.err)
	gvEnsures("stored under the converted key", err != nil || ok && x == string(value))
	gvEnsures("no other key is touched", err == nil && other == full || y == was && oky == had)
}

func gen_c_KeyDatabase_Put(r *rand.Rand) (*gvBase, []byte, []byte, []byte, string) {
	return gen_c_kpda_Save(r)
}

//gvc:contract C19
//gvc:target KeyDatabase.Delete
func c_KeyDatabase_Delete(d *gvBase, prefix []byte, key []byte, other string) {
	gvRequires(d != nil && d.m != nil && len(prefix) < 1<<40 && len(key) < 1<<40)
	k := &KeyDatabase{database: d, keyFunc: gvConv(prefix)}
	full := string(prefix) + string(key)
	was, had := gvStored(d, other)
	gvModPtr(d)
	gvModMap(d.m)
	err := k.Delete(key)
	_, ok := gvStored(d, full)
	y, oky := gvStored(d, other)
	gvEnsures("errors pass through", err == d.err)
	gvEnsures("the converted key is gone", err != nil || !ok)
	gvEnsures("no other key is touched", err == nil && other == full || y == was && oky == had)
}

func gen_c_KeyDatabase_Delete(r *rand.Rand) (*gvBase, []byte, []byte, string) {
	return gen_c_kpda_Delete(r)
}

//gvc:contract C19
//gvc:target KeyDatabase.Get
func c_KeyDatabase_Get(d *gvBase, prefix []byte, key []byte) {
	gvRequires(d != nil && len(prefix) < 1<<40 && len(key) < 1<<40)
	k := &KeyDatabase{database: d, keyFunc: gvConv(prefix)}
	x, ok := gvStored(d, string(prefix)+string(key))
	r, err := k.Get(key)
	has, err2 := k.Has(key)
	gvEnsures("errors pass through", err == d.err && err2 == d.err)
	gvEnsures("what is stored under the converted key", err != nil || string(r) == x && has == ok)
}

func gen_c_KeyDatabase_Get(r *rand.Rand) (*gvBase, []byte, []byte) { return gen_c_kpda_Load(r) }

//gvc:contract C19
//gvc:target KeyDatabase.Batch
func c_KeyDatabase_Batch(d *gvBase, prefix []byte, key, value []byte, del bool) {
	gvRequires(d != nil && d.last == nil && len(prefix) < 1<<40 && len(key) < 1<<40)
	k := &KeyDatabase{database: d, keyFunc: gvConv(prefix)}
	b := k.NewBatch()
	var err error
	if del {
		err = b.Delete(key)
	} else {
		err = b.Put(key, value)
	}
	gvModPtr(d)
	err2 := k.Batch(b)
	x := d.last
	gvEnsures("errors pass through", err == nil && err2 == d.err)
	gvEnsures("the batch of the database below is written", err2 != nil || x != nil && x.n == 1)
	gvEnsures("with the command on the converted key", err2 != nil || x == nil || string(x.key) == string(prefix)+string(key) && (del || gvEqBytes(x.value, value)) && (!del || x.value == nil))
	gvEnsures("nothing is written on failure", err2 == nil || x == nil)
}

func gen_c_KeyDatabase_Batch(r *rand.Rand) (*gvBase, []byte, []byte, []byte, bool) {
	return gen_c_kpda_NewBatch(r)
}

//gvc:contract C19
//gvc:target keyPrefixedDataAdapter.Rebase
func c_kpda_Rebase(d, d2 *gvBase, prefix []byte) {
	gvRequires(d != nil && d2 != nil)
	k := &keyPrefixedDataAdapter{database: d, keyPrefix: prefix}
	r, err := k.Rebase(d2)
	x, ok := r.(*keyPrefixedDataAdapter)
	gvEnsures("an adapter with the same prefix on the new database", err == nil && ok && x != k && gvEqBytes(x.keyPrefix, prefix) && x.database == Database(d2))
	gvEnsures("the adapter stays", k.database == Database(d) && gvEqBytes(k.keyPrefix, prefix))
}

func gen_c_kpda_Rebase(r *rand.Rand) (*gvBase, *gvBase, []byte) {
	return gvRandBase(r), gvRandBase(r), gvRandKey(r)
}

//gvc:contract C19
//gvc:target NewKeyPrefixedDataAdapter
func c_NewKPDA(d *gvBase, prefix []byte) {
	gvRequires(d != nil)
	r := NewKeyPrefixedDataAdapter(d, prefix)
	x, ok := r.(*keyPrefixedDataAdapter)
	gvEnsures("prefix and database kept", ok && gvEqBytes(x.keyPrefix, prefix) && x.database == Database(d))
	gvEnsures("prefix copied", x.keyPrefix == nil || gvFresh(x.keyPrefix))
}

func gen_c_NewKPDA(r *rand.Rand) (*gvBase, []byte) { return gvRandBase(r), gvRandKey(r) }

// ---------- read-only ----------

//gvc:contract C19
//gvc:target readOnlyDB.Put
func c_ro_Put(d *gvBase, key, value []byte) {
	gvRequires(d != nil)
	r := &readOnlyDB{dbase: d}
	n := d.writes
	e1 := r.Put(key, value)
	gvEnsures("refused", e1 == ErrReadOnly && d.writes == n)
}

func gen_c_ro_Put(r *rand.Rand) (*gvBase, []byte, []byte) {
	return gvRandBase(r), gvRandKey(r), gvRandKey(r)
}

//gvc:contract C19
//gvc:target readOnlyDB.Delete
func c_ro_Delete(d *gvBase, key []byte) {
	gvRequires(d != nil)
	r := &readOnlyDB{dbase: d}
	n := d.writes
	e1 := r.Delete(key)
	gvEnsures("refused", e1 == ErrReadOnly && d.writes == n)
}

func gen_c_ro_Delete(r *rand.Rand) (*gvBase, []byte) { return gvRandBase(r), gvRandKey(r) }

//gvc:contract C19
//gvc:target readOnlyDB.Batch
func c_ro_Batch(d *gvBase, b *gvBatch) {
	gvRequires(d != nil)
	r := &readOnlyDB{dbase: d}
	n := d.writes
	e1 := r.Batch(b)
	gvEnsures("refused", e1 == ErrReadOnly && d.writes == n)
}

func gen_c_ro_Batch(r *rand.Rand) (*gvBase, *gvBatch) { return gvRandBase(r), &gvBatch{} }

//gvc:contract C19
//gvc:target readOnlyDB.Get
func c_ro_Get(d *gvBase, key []byte) {
	gvRequires(d != nil)
	r := &readOnlyDB{dbase: d}
	x, ok := gvStored(d, string(key))
	b, err := r.Get(key)
	has, err2 := r.Has(key)
	gvEnsures("reads pass through", err == d.err && err2 == d.err && (err != nil || string(b) == x && has == ok))
}

func gen_c_ro_Get(r *rand.Rand) (*gvBase, []byte) { return gvRandBase(r), gvRandKey(r) }

//gvc:contract C19
//gvc:target ReadOnly
func c_ReadOnly(d *gvBase, again bool) {
	gvRequires(d != nil)
	var below Database = d
	if again {
		below = ReadOnly(d)
	}
	r := ReadOnly(below)
	x, ok := r.(*readOnlyDB)
	gvEnsures("read-only view of the database", ok && x.dbase == Database(d))
	gvEnsures("a read-only database is its own view", !again || r == below)
}

func gen_c_ReadOnly(r *rand.Rand) (*gvBase, bool) { return gvRandBase(r), r.Intn(2) == 0 }

// ---------- memory database ----------

func gvMem(m *MemDB, k string) (string, bool) {
	x, ok := m.mem.Load(k)
	if !ok {
		return "", false
	}
	return string(x.([]byte)), true
}

// gvMemOK: nothing stored is nil
func gvMemOK(m *MemDB, k string) bool {
	x, ok := m.mem.Load(k)
	if !ok {
		return true
	}
	return x.([]byte) != nil
}

func gvRandMem(r *rand.Rand) *MemDB {
	m := &MemDB{}
	for i := r.Intn(6); i > 0; i-- {
		m.mem.Store(string(gvRandKey(r)), gvRandKey(r))
	}
	return m
}

//gvc:contract C19
//gvc:target MemDB.Put
func c_mem_Put(m *MemDB, key, value []byte, other string) {
	gvRequires(m != nil && gvMemOK(m, other))
	was, had := gvMem(m, other)
	gvModPtr(m)
	err := m.Put(key, value)
	x, ok := gvMem(m, string(key))
	y, oky := gvMem(m, other)
	gvEnsures("nil is refused", (err != nil) == (key == nil || value == nil) && (err == nil || err == common.ErrNil))
	gvEnsures("stored", err != nil || ok && x == string(value))
	gvEnsures("nothing stored is nil", gvMemOK(m, other))
	gvEnsures("no other key is touched", err == nil && other == string(key) || y == was && oky == had)
}

func gen_c_mem_Put(r *rand.Rand) (*MemDB, []byte, []byte, string) {
	return gvRandMem(r), gvRandKey(r), gvRandKey(r), string(gvRandKey(r))
}

//gvc:contract C19
//gvc:target MemDB.Delete
func c_mem_Delete(m *MemDB, key []byte, other string) {
	gvRequires(m != nil)
	was, had := gvMem(m, other)
	gvModPtr(m)
	err := m.Delete(key)
	_, ok := gvMem(m, string(key))
	y, oky := gvMem(m, other)
	gvEnsures("gone", err == nil && !ok)
	gvEnsures("no other key is touched", other == string(key) || y == was && oky == had)
}

func gen_c_mem_Delete(r *rand.Rand) (*MemDB, []byte, string) {
	return gvRandMem(r), gvRandKey(r), string(gvRandKey(r))
}

//gvc:contract C19
//gvc:target MemDB.Get
func c_mem_Get(m *MemDB, key []byte) {
	gvRequires(m != nil)
	x, ok := gvMem(m, string(key))
	b, err := m.Get(key)
	gvEnsures("what is stored, nil when nothing is", err == nil && (ok || b == nil) && (!ok || string(b) == x))
	gvEnsures("something stored is not nil", !ok || !gvMemOK(m, string(key)) || b != nil)
	gvEnsures("a copy", b == nil || gvFresh(b))
}

func gen_c_mem_Get(r *rand.Rand) (*MemDB, []byte) { return gvRandMem(r), gvRandKey(r) }

//gvc:contract C19
//gvc:target MemDB.Has
func c_mem_Has(m *MemDB, key []byte) {
	gvRequires(m != nil)
	_, ok := gvMem(m, string(key))
	has, err := m.Has(key)
	gvEnsures("whether it is stored", err == nil && has == ok)
}

func gen_c_mem_Has(r *rand.Rand) (*MemDB, []byte) { return gvRandMem(r), gvRandKey(r) }

//gvc:contract C19
//gvc:target memBatch.Put
func c_memBatch_Put(b *memBatch, key, value []byte, i int) {
	gvRequires(b != nil && len(b.cmds) < 1<<40 && 0 <= i && i < len(b.cmds))
	n, was := len(b.cmds), b.cmds[i]
	gvModPtr(b)
	gvModCap(b.cmds)
	err := b.Put(key, value)
	last := b.cmds[n]
	gvEnsures("one more command", err == nil && len(b.cmds) == n+1 && b.Size() == n+1)
	gvEnsures("the command", last.typ == putBatcher && gvEqBytes(last.key, key) && gvEqBytes(last.value, value) && (last.value == nil) == (value == nil))
	gvEnsures("key and value as they are now", (last.key == nil || gvFresh(last.key)) && (last.value == nil || gvFresh(last.value)))
	gvEnsures("the earlier commands stay", b.cmds[i] == was)
}

func gvRandBatch(r *rand.Rand) *memBatch {
	b := &memBatch{}
	for i := r.Intn(6); i > 0; i-- {
		if r.Intn(3) == 0 {
			b.cmds = append(b.cmds, &batcher{typ: deleteBatcher, key: gvRandKey(r)})
		} else {
			b.cmds = append(b.cmds, &batcher{typ: putBatcher, key: gvRandKey(r), value: gvRandKey(r)})
		}
	}
	return b
}

func gen_c_memBatch_Put(r *rand.Rand) (*memBatch, []byte, []byte, int) {
	b := gvRandBatch(r)
	return b, gvRandKey(r), gvRandKey(r), r.Intn(len(b.cmds) + 1)
}

//gvc:contract C19
//gvc:target memBatch.Delete
func c_memBatch_Delete(b *memBatch, key []byte, i int) {
	gvRequires(b != nil && len(b.cmds) < 1<<40 && 0 <= i && i < len(b.cmds))
	n, was := len(b.cmds), b.cmds[i]
	gvModPtr(b)
	gvModCap(b.cmds)
	err := b.Delete(key)
	last := b.cmds[n]
	gvEnsures("one more command", err == nil && len(b.cmds) == n+1 && b.Size() == n+1)
	gvEnsures("the command", last.typ == deleteBatcher && gvEqBytes(last.key, key))
	gvEnsures("the key as it is now", last.key == nil || gvFresh(last.key))
	gvEnsures("the earlier commands stay", b.cmds[i] == was)
}

func gen_c_memBatch_Delete(r *rand.Rand) (*memBatch, []byte, int) {
	b := gvRandBatch(r)
	return b, gvRandKey(r), r.Intn(len(b.cmds) + 1)
}

// gvLastOn: command last is the last one of the first n on the key; -1 when
// there is none
func gvLastOn(cmds []*batcher, n int, key string, last int) bool {
	return -1 <= last && last < n && (last < 0 || gvStr(cmds[gvIte(last < 0, 0, last)].key) == key) &&
		gvForall(0, n, func(j int) bool { return !(j > last) || gvStr(cmds[j].key) != key })
}

func gvCmdsOK(cmds []*batcher) bool {
	return gvForall(0, len(cmds), func(j int) bool {
		return cmds[j] != nil && cmds[j].key != nil && (cmds[j].typ == deleteBatcher || cmds[j].typ == putBatcher && cmds[j].value != nil)
	})
}

//gvc:contract C19
//gvc:target MemDB.Batch
func c_mem_Batch(m *MemDB, b *memBatch, key string, last int) {
	gvRequires(m != nil && b != nil && gvCmdsOK(b.cmds) && gvLastOn(b.cmds, len(b.cmds), key, last))
	was, had := gvMem(m, key)
	gvModPtr(m)
	err := m.Batch(b)
	x, ok := gvMem(m, key)
	gvEnsures("never fails", err == nil)
	gvEnsures("a key without commands stays", last >= 0 || x == was && ok == had)
	gvEnsures("the last command on a key decides: deleted", last < 0 || b.cmds[last].typ != deleteBatcher || !ok)
	gvEnsures("the last command on a key decides: put", last < 0 || b.cmds[last].typ != putBatcher || ok && x == string(b.cmds[last].value))
}

//gvc:inv MemDB.Batch
func inv_mem_Batch1(m *MemDB, b *memBatch, i int, entry_key string, entry_last int, entry_was string, entry_had bool) bool {
	return 0 <= i && i <= len(b.cmds)
}

//gvc:inv MemDB.Batch
func inv_mem_Batch2(m *MemDB, b *memBatch, i int, entry_key string, entry_last int, entry_was string, entry_had bool) bool {
	x, ok := gvMem(m, entry_key)
	return entry_last >= 0 || x == entry_was && ok == entry_had
}

//gvc:inv MemDB.Batch
func inv_mem_Batch3(m *MemDB, b *memBatch, i int, entry_key string, entry_last int, entry_was string, entry_had bool) bool {
	_, ok := gvMem(m, entry_key)
	return !(0 <= entry_last && entry_last < i && b.cmds[gvIte(entry_last < 0, 0, entry_last)].typ == deleteBatcher) || !ok
}

//gvc:inv MemDB.Batch
func inv_mem_Batch4(m *MemDB, b *memBatch, i int, entry_key string, entry_last int, entry_was string, entry_had bool) bool {
	x, ok := gvMem(m, entry_key)
	return !(0 <= entry_last && entry_last < i && b.cmds[gvIte(entry_last < 0, 0, entry_last)].typ == putBatcher) || ok && x == string(b.cmds[gvIte(entry_last < 0, 0, entry_last)].value)
}

func gen_c_mem_Batch(r *rand.Rand) (*MemDB, *memBatch, string, int) {
	b := gvRandBatch(r)
	key := string(gvRandKey(r))
	last := -1
	for i, c := range b.cmds {
		if string(c.key) == key {
			last = i
		}
	}
	return gvRandMem(r), b, key, last
}

// ---------- temporary overlay ----------

// gvTmp: what an overlay shows under a key
func gvTmp(t *temporaryDB, base *gvBase, m *MemDB, k string) (string, bool) {
	if _, del := t.deleted[k]; del {
		return "", false
	}
	if x, ok := gvMem(m, k); ok {
		return x, true
	}
	return gvStored(base, k)
}

func gvRandTmp(r *rand.Rand) (*gvBase, *MemDB, map[string]struct{}) {
	d := map[string]struct{}{}
	for i := r.Intn(4); i > 0; i-- {
		d[string(gvRandKey(r))] = struct{}{}
	}
	return gvRandBase(r), gvRandMem(r), d
}

//gvc:contract C19
//gvc:target temporaryDB.Put
func c_tmp_Put(base *gvBase, m *MemDB, deleted map[string]struct{}, key, value []byte, other string) {
	gvRequires(base != nil && m != nil && deleted != nil)
	t := &temporaryDB{read: base, mem: m, deleted: deleted}
	was, had := gvTmp(t, base, m, other)
	n := base.writes
	gvModPtr(m)
	gvModPtr(t)
	gvModMap(deleted)
	err := t.Put(key, value)
	x, ok := gvTmp(t, base, m, string(key))
	y, oky := gvTmp(t, base, m, other)
	gvEnsures("nil is refused", (err != nil) == (key == nil || value == nil))
	gvEnsures("shown from now on", err != nil || ok && x == string(value))
	gvEnsures("no other key is touched", err == nil && other == string(key) || y == was && oky == had)
	gvEnsures("nothing is written below", base.writes == n)
	gvEnsures("unlocked", gvUnlocked(&t.lock))
}

func gen_c_tmp_Put(r *rand.Rand) (*gvBase, *MemDB, map[string]struct{}, []byte, []byte, string) {
	a, b, c := gvRandTmp(r)
	return a, b, c, gvRandKey(r), gvRandKey(r), string(gvRandKey(r))
}

//gvc:contract C19
//gvc:target temporaryDB.Delete
func c_tmp_Delete(base *gvBase, m *MemDB, deleted map[string]struct{}, key []byte, other string) {
	gvRequires(base != nil && m != nil && deleted != nil)
	t := &temporaryDB{read: base, mem: m, deleted: deleted}
	was, had := gvTmp(t, base, m, other)
	n := base.writes
	gvModPtr(m)
	gvModPtr(t)
	gvModMap(deleted)
	err := t.Delete(key)
	_, ok := gvTmp(t, base, m, string(key))
	y, oky := gvTmp(t, base, m, other)
	gvEnsures("gone from now on", err == nil && !ok)
	gvEnsures("no other key is touched", other == string(key) || y == was && oky == had)
	gvEnsures("nothing is written below", base.writes == n)
	gvEnsures("unlocked", gvUnlocked(&t.lock))
}

func gen_c_tmp_Delete(r *rand.Rand) (*gvBase, *MemDB, map[string]struct{}, []byte, string) {
	a, b, c := gvRandTmp(r)
	return a, b, c, gvRandKey(r), string(gvRandKey(r))
}

//gvc:contract C19
//gvc:target temporaryDB.Get
func c_tmp_Get(base *gvBase, m *MemDB, deleted map[string]struct{}, key []byte) {
	gvRequires(base != nil && m != nil && base.err == nil && gvMemOK(m, string(key)))
	t := &temporaryDB{read: base, mem: m, deleted: deleted}
	x, ok := gvTmp(t, base, m, string(key))
	r, err := t.Get(key)
	gvEnsures("no error", err == nil)
	gvEnsures("what the overlay shows", !ok || string(r) == x)
	gvEnsures("nil when nothing is shown", ok || r == nil)
	gvEnsures("unlocked", gvUnlocked(&t.lock))
}

func gen_c_tmp_Get(r *rand.Rand) (*gvBase, *MemDB, map[string]struct{}, []byte) {
	a, b, c := gvRandTmp(r)
	return a, b, c, gvRandKey(r)
}

//gvc:contract C19
//gvc:target temporaryDB.Has
func c_tmp_Has(base *gvBase, m *MemDB, deleted map[string]struct{}, key []byte) {
	gvRequires(base != nil && m != nil && base.err == nil)
	t := &temporaryDB{read: base, mem: m, deleted: deleted}
	_, ok := gvTmp(t, base, m, string(key))
	has, err := t.Has(key)
	gvEnsures("whether the overlay shows it", err == nil && has == ok)
	gvEnsures("unlocked", gvUnlocked(&t.lock))
}

func gen_c_tmp_Has(r *rand.Rand) (*gvBase, *MemDB, map[string]struct{}, []byte) {
	return gen_c_tmp_Get(r)
}

//gvc:contract C19
//gvc:target temporaryDB.Batch
//gvc:timeout 120
func c_tmp_Batch(base *gvBase, m *MemDB, deleted map[string]struct{}, b *memBatch, key string, last int) {
	gvRequires(base != nil && m != nil && deleted != nil && b != nil && gvCmdsOK(b.cmds) && gvLastOn(b.cmds, len(b.cmds), key, last))
	t := &temporaryDB{read: base, mem: m, deleted: deleted}
	was, had := gvTmp(t, base, m, key)
	n := base.writes
	gvModPtr(m)
	gvModPtr(t)
	gvModMap(deleted)
	err := t.Batch(b)
	x, ok := gvTmp(t, base, m, key)
	gvEnsures("never fails", err == nil)
	gvEnsures("a key without commands stays", last >= 0 || x == was && ok == had)
	gvEnsures("the last command on a key decides: deleted", last < 0 || b.cmds[last].typ != deleteBatcher || !ok)
	gvEnsures("the last command on a key decides: put", last < 0 || b.cmds[last].typ != putBatcher || ok && x == string(b.cmds[last].value))
	gvEnsures("nothing is written below", base.writes == n)
	gvEnsures("unlocked", gvUnlocked(&t.lock))
}

//gvc:inv temporaryDB.Batch
func inv_tmp_Batch1(t *temporaryDB, entry_base *gvBase, entry_m *MemDB, b *memBatch, i int, entry_key string, entry_last int, entry_was string, entry_had bool) bool {
	return 0 <= i && i <= len(b.cmds)
}

//gvc:inv temporaryDB.Batch
func inv_tmp_Batch2(t *temporaryDB, entry_base *gvBase, entry_m *MemDB, b *memBatch, i int, entry_key string, entry_last int, entry_was string, entry_had bool) bool {
	x, ok := gvTmp(t, entry_base, entry_m, entry_key)
	return entry_last >= 0 || x == entry_was && ok == entry_had
}

//gvc:inv temporaryDB.Batch
func inv_tmp_Batch3(t *temporaryDB, entry_base *gvBase, entry_m *MemDB, b *memBatch, i int, entry_key string, entry_last int, entry_was string, entry_had bool) bool {
	_, ok := gvTmp(t, entry_base, entry_m, entry_key)
	return !(0 <= entry_last && entry_last < i && b.cmds[gvIte(entry_last < 0, 0, entry_last)].typ == deleteBatcher) || !ok
}

//gvc:inv temporaryDB.Batch
func inv_tmp_Batch4(t *temporaryDB, entry_base *gvBase, entry_m *MemDB, b *memBatch, i int, entry_key string, entry_last int, entry_was string, entry_had bool) bool {
	x, ok := gvTmp(t, entry_base, entry_m, entry_key)
	return !(0 <= entry_last && entry_last < i && b.cmds[gvIte(entry_last < 0, 0, entry_last)].typ == putBatcher) || ok && x == string(b.cmds[gvIte(entry_last < 0, 0, entry_last)].value)
}

func gen_c_tmp_Batch(r *rand.Rand) (*gvBase, *MemDB, map[string]struct{}, *memBatch, string, int) {
	a, m, d := gvRandTmp(r)
	_, b, k, l := gen_c_mem_Batch(r)
	return a, m, d, b, k, l
}

// ---------- cached database ----------

// gvCoherent: what is cached under a key is what is stored there
func gvCoherent(c *lru.Cache, d *gvBase, k string) bool {
	v, ok := c.Peek(k)
	if !ok {
		return true
	}
	x, has := gvStored(d, k)
	return has && string(v.([]byte)) == x
}

func gvRandCache(r *rand.Rand) (*gvBase, *lru.Cache) {
	d := gvRandBase(r)
	c, _ := lru.New(3)
	for k, v := range d.m {
		if r.Intn(2) == 0 {
			c.Add(k, v.b)
		}
	}
	return d, c
}

//gvc:contract C19
//gvc:target cachedDB.Put
func c_cached_Put(d *gvBase, c *lru.Cache, key, value []byte, other string) {
	gvRequires(d != nil && d.m != nil && c != nil && gvCoherent(c, d, other))
	t := &cachedDB{baseDB: d, cache: c}
	was, had := gvStored(d, other)
	gvModPtr(d)
	gvModPtr(c)
	gvModPtr(t)
	gvModMap(d.m)
	err := t.Put(key, value)
	x, ok := gvStored(d, string(key))
	y, oky := gvStored(d, other)
	gvEnsures("errors pass through", err == d.err)
	gvEnsures("stored", err != nil || ok && x == string(value))
	gvEnsures("no other key is touched", err == nil && other == string(key) || y == was && oky == had)
	gvEnsures("the cache agrees with the database", gvCoherent(c, d, other))
	gvEnsures("unlocked", gvUnlocked(&t.lock))
}

func gen_c_cached_Put(r *rand.Rand) (*gvBase, *lru.Cache, []byte, []byte, string) {
	d, c := gvRandCache(r)
	return d, c, gvRandKey(r), gvRandKey(r), string(gvRandKey(r))
}

//gvc:contract C19
//gvc:target cachedDB.Delete
func c_cached_Delete(d *gvBase, c *lru.Cache, key []byte, other string) {
	gvRequires(d != nil && d.m != nil && c != nil && gvCoherent(c, d, other))
	t := &cachedDB{baseDB: d, cache: c}
	was, had := gvStored(d, other)
	gvModPtr(d)
	gvModPtr(c)
	gvModPtr(t)
	gvModMap(d.m)
	err := t.Delete(key)
	_, ok := gvStored(d, string(key))
	y, oky := gvStored(d, other)
	gvEnsures("errors pass through", err == d.err)
	gvEnsures("gone", err != nil || !ok)
	gvEnsures("no other key is touched", err == nil && other == string(key) || y == was && oky == had)
	gvEnsures("the cache agrees with the database", gvCoherent(c, d, other))
	gvEnsures("unlocked", gvUnlocked(&t.lock))
}

func gen_c_cached_Delete(r *rand.Rand) (*gvBase, *lru.Cache, []byte, string) {
	d, c := gvRandCache(r)
	return d, c, gvRandKey(r), string(gvRandKey(r))
}

//gvc:contract C19
//gvc:target cachedDB.Get
func c_cached_Get(d *gvBase, c *lru.Cache, key []byte, other string) {
	gvRequires(d != nil && d.m != nil && c != nil && gvCoherent(c, d, other) && gvCoherent(c, d, string(key)))
	stored, has := d.m[string(key)]
	gvRequires(has == (stored.b != nil))
	t := &cachedDB{baseDB: d, cache: c}
	x := string(stored.b)
	gvModPtr(c)
	gvModPtr(t)
	r, err := t.Get(key)
	gvEnsures("what is stored", err != nil || string(r) == x)
	gvEnsures("an error of the database passes through", err == nil || err == d.err)
	gvEnsures("the cache agrees with the database", gvCoherent(c, d, other))
	gvEnsures("unlocked", gvUnlocked(&t.lock))
}

func gen_c_cached_Get(r *rand.Rand) (*gvBase, *lru.Cache, []byte, string) {
	return gen_c_cached_Delete(r)
}

//gvc:contract C19
//gvc:target cachedDB.Has
func c_cached_Has(d *gvBase, c *lru.Cache, key []byte, other string) {
	gvRequires(d != nil && d.m != nil && c != nil && gvCoherent(c, d, other) && gvCoherent(c, d, string(key)))
	t := &cachedDB{baseDB: d, cache: c}
	_, ok := gvStored(d, string(key))
	gvModPtr(c)
	gvModPtr(t)
	has, err := t.Has(key)
	gvEnsures("whether it is stored", err != nil || has == ok)
	gvEnsures("an error of the database passes through", err == nil || err == d.err)
	gvEnsures("the cache agrees with the database", gvCoherent(c, d, other))
	gvEnsures("unlocked", gvUnlocked(&t.lock))
}

func gen_c_cached_Has(r *rand.Rand) (*gvBase, *lru.Cache, []byte, string) {
	return gen_c_cached_Delete(r)
}

//gvc:contract C19
//gvc:target cachedBatch.Put
func c_cachedBatch_Put(b *gvBatch, keys map[string]struct{}, key, value []byte, other string) {
	gvRequires(b != nil && keys != nil)
	cb := &cachedBatch{batch: b, keys: keys}
	_, had := keys[other]
	n := b.n
	gvModPtr(b)
	gvModMap(keys)
	err := cb.Put(key, value)
	_, in := keys[string(key)]
	_, has := keys[other]
	gvEnsures("the command goes to the batch below", err == nil && b.n == n+1 && gvEqBytes(b.key, key) && gvEqBytes(b.value, value))
	gvEnsures("the key is noted", in)
	gvEnsures("no other key is noted", has == (had || other == string(key)))
	gvEnsures("size", cb.Size() == b.Size())
}

func gen_c_cachedBatch_Put(r *rand.Rand) (*gvBatch, map[string]struct{}, []byte, []byte, string) {
	return &gvBatch{}, map[string]struct{}{"a": {}, string(gvRandKey(r)): {}}, gvRandKey(r), gvRandKey(r), string(gvRandKey(r))
}

//gvc:contract C19
//gvc:target cachedBatch.Delete
func c_cachedBatch_Delete(b *gvBatch, keys map[string]struct{}, key []byte, other string) {
	gvRequires(b != nil && keys != nil)
	cb := &cachedBatch{batch: b, keys: keys}
	_, had := keys[other]
	n := b.n
	gvModPtr(b)
	gvModMap(keys)
	err := cb.Delete(key)
	_, in := keys[string(key)]
	_, has := keys[other]
	gvEnsures("the command goes to the batch below", err == nil && b.n == n+1 && gvEqBytes(b.key, key) && b.value == nil)
	gvEnsures("the key is noted", in)
	gvEnsures("no other key is noted", has == (had || other == string(key)))
}

func gen_c_cachedBatch_Delete(r *rand.Rand) (*gvBatch, map[string]struct{}, []byte, string) {
	return &gvBatch{}, map[string]struct{}{"a": {}, string(gvRandKey(r)): {}}, gvRandKey(r), string(gvRandKey(r))
}

//gvc:contract C19
//gvc:target KeyBatch.Put
func c_KeyBatch_Put(b *gvBatch, key, value []byte) {
	gvRequires(b != nil)
	kb := &KeyBatch{batch: b}
	n := b.n
	gvModPtr(b)
	err := kb.Put(key, value)
	gvEnsures("without a conversion the key itself", err == nil && b.n == n+1 && gvEqBytes(b.key, key) && gvEqBytes(b.value, value))
	err = kb.Delete(key)
	gvEnsures("deletes likewise", err == nil && b.n == n+2 && gvEqBytes(b.key, key) && b.value == nil && kb.Size() == b.n)
}

//gvc:contract C19
//gvc:target cachedDB.NewBatch
func c_cached_NewBatch(d *gvBase, c *lru.Cache, key, value []byte) {
	gvRequires(d != nil && c != nil)
	t := &cachedDB{baseDB: d, cache: c}
	gvModPtr(t)
	b := t.NewBatch()
	cb, ok := b.(*cachedBatch)
	gvEnsures("a batch that notes its keys", ok && cb != nil && cb.keys != nil && len(cb.keys) == 0)
	x, ok := cb.batch.(*gvBatch)
	gvEnsures("over a batch of the database below", ok && x != nil && x.n == 0)
	gvEnsures("unlocked", gvUnlocked(&t.lock))
}

func gen_c_cached_NewBatch(r *rand.Rand) (*gvBase, *lru.Cache, []byte, []byte) {
	d, c := gvRandCache(r)
	return d, c, gvRandKey(r), gvRandKey(r)
}

// ---------- batch writing ----------

//gvc:rec
func gvCountTrue(oks []bool, n int) int {
	if n <= 0 {
		return 0
	}
	if oks[n-1] {
		return gvCountTrue(oks, n-1) + 1
	}
	return gvCountTrue(oks, n-1)
}

// gvWatch: entry q is what the batches are watched for; entry bad fails
func gvWatch(oks []bool, q, bad int) func(j int, w Writer) (bool, error) {
	return func(j int, w Writer) (bool, error) {
		if j == bad {
			return false, ErrNotFound
		}
		if !oks[j] {
			return false, nil
		}
		if j == q {
			if b, ok := w.(*gvBatch); ok && b != nil {
				b.has++
			}
		}
		return true, nil
	}
}

//gvc:contract C19
//gvc:target BatchWrite
func c_BatchWrite(d *gvBase, threshold, length int, oks []bool, q, bad int) {
	gvRequires(d != nil && d.got == 0 && length <= len(oks) && 0 <= q && q < length)
	gvModPtr(d)
	count, err := BatchWrite(d, threshold, length, gvWatch(oks, q, bad))
	gvEnsures("a failing element is reported", !(0 <= bad && bad < length) || err != nil)
	gvEnsures("a failing database is reported", d.err == nil || err == d.err || err == ErrNotFound || gvCountTrue(oks, length) == 0)
	gvEnsures("otherwise no error", err == nil || d.err != nil || 0 <= bad && bad < length)
	gvEnsures("every element is written exactly once", err != nil || d.got == gvIte(oks[q], 1, 0))
	gvEnsures("no element is written more than once", err == nil || d.got <= 1)
	gvEnsures("and counted", err != nil || count == gvCountTrue(oks, length))
}

//gvc:inv BatchWrite
func inv_BatchWrite1(i, index, length int) bool {
	return 0 <= i && (i <= length || i == 0) && 0 <= index
}

//gvc:inv BatchWrite
func inv_BatchWrite2(index int, batch Batch) bool {
	b, ok := batch.(*gvBatch)
	return index == 0 || ok && b != nil && gvFresh(b)
}

//gvc:inv BatchWrite
func inv_BatchWrite3(i, index int, batch Batch, entry_d *gvBase, entry_oks []bool, entry_q int) bool {
	b, ok := batch.(*gvBatch)
	if index == 0 || !ok || b == nil {
		return entry_d.got == gvIte(entry_q < i && entry_oks[entry_q], 1, 0)
	}
	return entry_d.got+b.has == gvIte(entry_q < i && entry_oks[entry_q], 1, 0) && 0 <= b.has && 0 <= entry_d.got
}

//gvc:inv BatchWrite
func inv_BatchWrite4(i, index, count int, entry_oks []bool) bool {
	return count+index == gvCountTrue(entry_oks, i) && 0 <= count && 0 <= index && count+index <= i && count <= i && index <= i
}

//gvc:inv BatchWrite
func inv_BatchWrite5(i int, entry_bad int) bool {
	return !(0 <= entry_bad && entry_bad < i)
}

func gen_c_BatchWrite(r *rand.Rand) (*gvBase, int, int, []bool, int, int) {
	d := gvRandBase(r)
	n := 1 + r.Intn(6)
	oks := make([]bool, n)
	for i := range oks {
		oks[i] = r.Intn(2) == 0
	}
	return d, r.Intn(4), n, oks, r.Intn(n), r.Intn(4*n) - 3*n
}

//gvc:inv BatchWrite
func inv_BatchWrite6(count int, entry_d *gvBase) bool {
	return entry_d.err == nil || count == 0
}

//gvc:finding C19
func finding_ldbBatch() {
	dir, err := ioutil.TempDir("", "gvcldb")
	if err != nil {
		return
	}
	defer os.RemoveAll(dir)
	d, err := NewLDB(filepath.Join(dir, "ldb"))
	if err != nil {
		return
	}
	b := d.NewBatch()
	_ = b.Put([]byte("k"), []byte("v"))
	gvEnsures("a batch is written", d.Batch(b) == nil)
	v, err := d.Get([]byte("k"))
	gvEnsures("and read back", err == nil && string(v) == "v")
	v, err = d.Get([]byte("absent"))
	gvEnsures("a missing key reads as nil", err == nil && v == nil)
	_ = d.db.Close()
	b = d.NewBatch()
	_ = b.Put([]byte("k"), []byte("w"))
	gvEnsures("a failed write of a batch is reported", d.Batch(b) != nil)
}

// gvHistory runs random commands on a database and on a plain map and compares
// every answer (stand-in, bounded: the loop over the keys of a batch, and
// goleveldb itself, are outside the contracts)
func gvHistory(name string, d Database, r *rand.Rand, steps int, m map[string]string, clean bool) {
	key := func() []byte {
		k := make([]byte, 1+r.Intn(2))
		for i := range k {
			k[i] = byte(r.Intn(3))
		}
		return k
	}
	for i := 0; i < steps; i++ {
		k, v := key(), []byte{byte(r.Intn(256)), 1}
		switch r.Intn(5) {
		case 0:
			gvEnsures(name+": put succeeds", d.Put(k, v) == nil)
			m[string(k)] = string(v)
		case 1:
			gvEnsures(name+": delete succeeds", d.Delete(k) == nil)
			delete(m, string(k))
		case 2:
			b := d.NewBatch()
			n := r.Intn(4)
			for j := 0; j < n; j++ {
				k, v := key(), []byte{byte(r.Intn(256)), 2}
				if r.Intn(2) == 0 {
					gvEnsures(name+": put in a batch succeeds", b.Put(k, v) == nil)
					m[string(k)] = string(v)
				} else {
					gvEnsures(name+": delete in a batch succeeds", b.Delete(k) == nil)
					delete(m, string(k))
				}
				k[0] = 77 // the caller may reuse its slices
				v[0] = 77
			}
			gvEnsures(name+": size of a batch", b.Size() == n)
			gvEnsures(name+": batch succeeds", d.Batch(b) == nil)
		}
		for j := 0; j < 3; j++ {
			k := key()
			w, in := m[string(k)]
			has, err := d.Has(k)
			gvEnsures(name+": has what was put and not deleted", err == nil && has == in)
			x, err := d.Get(k)
			gvEnsures(name+": reads what was put last", err == nil && (x != nil) == in && string(x) == w)
		}
	}
}

//gvc:finding C19
func finding_histories() {
	dir, err := ioutil.TempDir("", "gvcldb")
	if err != nil {
		return
	}
	defer os.RemoveAll(dir)
	open := func(n string) *LDB {
		d, err := NewLDB(filepath.Join(dir, n))
		if err != nil {
			panic(err)
		}
		return d
	}
	r := rand.New(rand.NewSource(1))
	for round := 0; round < 3; round++ {
		p := string(rune('a' + round))
		l := open("l" + p)
		gvHistory("LDB", l, r, 150, map[string]string{}, true)
		gvEnsures("LDB closes", l.Close() == nil)
		gvHistory("MemDB", NewMemDB(), r, 300, map[string]string{}, true)
		// cached
		c, err := NewCachedDBWithPath(filepath.Join(dir, "c"+p), 2+3*round)
		gvEnsures("a cached database opens", err == nil)
		m := map[string]string{}
		gvHistory("cachedDB", c, r, 300, m, true)
		n := open("n" + p)
		gvEnsures("put", n.Put([]byte{1}, []byte("new")) == nil)
		op, od := c.(Replaceable).Replace("newpath", n)
		gvEnsures("Replace gives the old database back", op == filepath.Join(dir, "c"+p) && od != nil)
		gvHistory("replaced cachedDB", c, r, 200, map[string]string{"\x01": "new"}, true)
		gvHistory("database below a replaced cachedDB", od, r, 100, m, true)
		gvEnsures("closes", c.Close() == nil && od.Close() == nil)
		// temporary
		base := NewMemDB()
		bm := map[string]string{}
		gvHistory("MemDB", base, r, 60, bm, true)
		tm := map[string]string{}
		for k, v := range bm {
			tm[k] = v
		}
		gvHistory("temporaryDB", Temporary(base), r, 300, tm, true)
		gvHistory("base of a temporaryDB", base, r, 100, bm, true)
		// prefixed
		base = NewMemDB()
		a, b := NewKeyPrefixedDataAdapter(base, []byte("x")), NewKeyPrefixedDataAdapter(base, []byte("xx"))
		ma, mb := map[string]string{}, map[string]string{}
		for i := 0; i < 8; i++ {
			gvHistory("prefixed adapter", a.(Database), r, 40, ma, true)
			gvHistory("another prefixed adapter", b.(Database), r, 40, mb, true)
		}
		gvHistory("key database", &KeyDatabase{database: NewMemDB(), keyFunc: gvConv([]byte("q"))}, r, 200, map[string]string{}, true)
	}
}
