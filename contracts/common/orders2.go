package common

import "math/rand"

// C03: byte-wise orders on identifiers, chain ids and data servers; equality of identifiers and lists.
// The order is stated with a ghost position d: the first byte at which the operands differ decides.

//gvc:contract C03
//gvc:target NodeID.Compare
func c_NodeID_Compare(a, b *NodeID, d int) {
	r := a.Compare(b)
	gvEnsures("nil is smallest", gvImp(a == nil && b != nil, r < 0) && gvImp(a != nil && b == nil, r > 0) && gvImp(a == nil && b == nil, r == 0))
	if a != nil && b != nil {
		gvEnsures("zero iff equal", (r == 0) == (*a == *b))
		if 0 <= d && d < NodeIDBytes && gvForall(0, d, func(k int) bool { return a[k] == b[k] }) && a[d] != b[d] {
			gvEnsures("the first different byte decides", (r < 0) == (a[d] < b[d]))
		}
	}
	gvEnsures("in -1..1", r >= -1 && r <= 1)
}

func gen_c_NodeID_Compare(r *rand.Rand) (*NodeID, *NodeID, int) {
	var a, b NodeID
	r.Read(a[:])
	b = a
	d := r.Intn(NodeIDBytes)
	switch r.Intn(6) {
	case 0:
		return nil, &a, d
	case 1:
		return &a, nil, d
	case 2:
		return &a, &b, d
	case 3:
		return nil, nil, d
	}
	r.Read(b[d:])
	return &a, &b, d
}

//gvc:contract C03
//gvc:target Address.Cmp
func c_Address_Cmp(a, b *Address, d int) {
	r := a.Cmp(b)
	gvEnsures("nil is smallest", gvImp(a == nil && b != nil, r < 0) && gvImp(a != nil && b == nil, r > 0) && gvImp(a == nil && b == nil, r == 0))
	if a != nil && b != nil {
		gvEnsures("zero iff equal", (r == 0) == (*a == *b))
		if 0 <= d && d < AddressLength && gvForall(0, d, func(k int) bool { return a[k] == b[k] }) && a[d] != b[d] {
			gvEnsures("the first different byte decides", (r < 0) == (a[d] < b[d]))
		}
	}
	gvEnsures("in -1..1", r >= -1 && r <= 1)
}

func gen_c_Address_Cmp(r *rand.Rand) (*Address, *Address, int) {
	var a, b Address
	r.Read(a[:])
	b = a
	d := r.Intn(AddressLength)
	switch r.Intn(6) {
	case 0:
		return nil, &a, d
	case 1:
		return &a, nil, d
	case 2:
		return &a, &b, d
	case 3:
		return nil, nil, d
	}
	r.Read(b[d:])
	return &a, &b, d
}

//gvc:lemma C03
func l_NodeID_order(a, b, c *NodeID) {
	gvEnsures("reflexive", a.Compare(a) == 0)
	gvEnsures("antisymmetric", a.Compare(b) == -b.Compare(a))
	gvEnsures("transitive", !(a.Compare(b) <= 0 && b.Compare(c) <= 0) || a.Compare(c) <= 0)
}

//gvc:lemma C03
func l_Address_order(a, b, c *Address) {
	gvEnsures("reflexive", a.Cmp(a) == 0)
	gvEnsures("antisymmetric", a.Cmp(b) == -b.Cmp(a))
	gvEnsures("transitive", !(a.Cmp(b) <= 0 && b.Cmp(c) <= 0) || a.Cmp(c) <= 0)
}

//gvc:contract C03
//gvc:target ChainID.Compare
func c_ChainID_Compare(a, b ChainID) {
	r := a.Compare(b)
	gvEnsures("zero iff equal", (r == 0) == (a == b))
	gvEnsures("nil is smallest, else numeric", (r < 0) == (a != b && (a == NilChainID || b != NilChainID && a < b)))
	gvEnsures("in -1..1", r >= -1 && r <= 1)
}

func gen_c_ChainID_Compare(r *rand.Rand) (ChainID, ChainID) {
	f := func() ChainID {
		switch r.Intn(4) {
		case 0:
			return NilChainID
		case 1:
			return ChainID(r.Intn(3))
		case 2:
			return NilChainID + ChainID(r.Intn(3)) - 1
		}
		return ChainID(r.Uint32())
	}
	return f(), f()
}

//gvc:lemma C03
func l_ChainID_order(a, b, c ChainID) {
	gvEnsures("antisymmetric", a.Compare(b) == -b.Compare(a))
	gvEnsures("transitive", gvImp(a.Compare(b) <= 0 && b.Compare(c) <= 0, a.Compare(c) <= 0))
}

//gvc:contract C03
//gvc:target Dataserver.Compare
func c_Dataserver_Compare(a, b Dataserver, d int) {
	r := a.Compare(b)
	gvEnsures("zero iff same chain and node", (r == 0) == (a.ChainID == b.ChainID && a.NodeIDString == b.NodeIDString))
	gvEnsures("ordered by chain first", gvImp(a.ChainID != b.ChainID, (r < 0) == (a.ChainID < b.ChainID)))
	if a.ChainID == b.ChainID && 0 <= d && d < len(a.NodeIDString) && d < len(b.NodeIDString) &&
		gvForall(0, d, func(k int) bool { return a.NodeIDString[k] == b.NodeIDString[k] }) && a.NodeIDString[d] != b.NodeIDString[d] {
		gvEnsures("then by node", (r < 0) == (a.NodeIDString[d] < b.NodeIDString[d]))
	}
	gvEnsures("in -1..1", r >= -1 && r <= 1)
}

func gen_c_Dataserver_Compare(r *rand.Rand) (Dataserver, Dataserver, int) {
	var a, b Dataserver
	x := make([]byte, r.Intn(6))
	r.Read(x)
	a.NodeIDString = string(x)
	if r.Intn(2) == 0 && len(x) > 0 {
		x[r.Intn(len(x))]++
	}
	b.NodeIDString = string(x)
	a.ChainID, b.ChainID = uint32(r.Intn(2)), uint32(r.Intn(2))
	a.IP, b.IP = "1", string(rune('1'+r.Intn(2)))
	return a, b, r.Intn(6)
}

//gvc:lemma C03
func l_Dataserver_order(a, b Dataserver) {
	gvEnsures("reflexive", a.Compare(a) == 0)
	gvEnsures("antisymmetric", a.Compare(b) == -b.Compare(a))
}

//gvc:contract C03
//gvc:target Address.Equal
func c_Address_Equal(a, b *Address) {
	r := a.Equal(b)
	gvEnsures("nil equals only nil", gvImp(a == nil || b == nil, r == (a == nil && b == nil)))
	if a != nil && b != nil {
		gvEnsures("same value", r == (*a == *b))
		gvEnsures("agrees with Cmp", r == (a.Cmp(b) == 0))
	}
}

func gen_c_Address_Equal(r *rand.Rand) (*Address, *Address) {
	a, b, _ := gen_c_Address_Cmp(r)
	return a, b
}

//gvc:contract C03
//gvc:target Hash.Equal
func c_Hash_Equal(a, b *Hash) {
	r := a.Equal(b)
	gvEnsures("nil equals only nil", gvImp(a == nil || b == nil, r == (a == nil && b == nil)))
	if a != nil && b != nil {
		gvEnsures("same value", r == (*a == *b))
	}
}

func gen_c_Hash_Equal(r *rand.Rand) (*Hash, *Hash) {
	var a, b Hash
	r.Read(a[:])
	b = a
	switch r.Intn(5) {
	case 0:
		return nil, &a
	case 1:
		return &a, nil
	case 2:
		return nil, nil
	case 3:
		b[r.Intn(HashLength)] ^= 1
	}
	return &a, &b
}

//gvc:contract C03
//gvc:target Seed.Equal
func c_Seed_Equal(a, b *Seed) {
	r := a.Equal(b)
	gvEnsures("nil equals only nil", gvImp(a == nil || b == nil, r == (a == nil && b == nil)))
	if a != nil && b != nil {
		gvEnsures("same value", r == (*a == *b))
	}
}

func gen_c_Seed_Equal(r *rand.Rand) (*Seed, *Seed) {
	var a, b Seed
	r.Read(a[:])
	b = a
	switch r.Intn(5) {
	case 0:
		return nil, &a
	case 1:
		return &a, nil
	case 2:
		return nil, nil
	case 3:
		b[r.Intn(SeedLength)] ^= 1
	}
	return &a, &b
}

//gvc:contract C03
//gvc:target NodeIDs.Less
func c_NodeIDs_Less(ns NodeIDs, i, j, d int) {
	gvRequires(0 <= i && i < len(ns) && 0 <= j && j < len(ns))
	r := ns.Less(i, j)
	gvEnsures("irreflexive on equal ids", gvImp(ns[i] == ns[j], !r))
	if 0 <= d && d < NodeIDBytes && gvForall(0, d, func(k int) bool { return ns[i][k] == ns[j][k] }) && ns[i][d] != ns[j][d] {
		gvEnsures("the first different byte decides", r == (ns[i][d] < ns[j][d]))
	}
}

func gen_c_NodeIDs_Less(r *rand.Rand) (NodeIDs, int, int, int) {
	ns := make(NodeIDs, 1+r.Intn(4))
	d := r.Intn(NodeIDBytes)
	for i := range ns {
		ns[i][d] = byte(r.Intn(256))
	}
	return ns, r.Intn(len(ns)), r.Intn(len(ns)), d
}

//gvc:contract C03
//gvc:target NodeIDs.Equal
func c_NodeIDs_Equal(a, b NodeIDs) {
	r := a.Equal(b)
	gvEnsures("same ids at the same places", r == (len(a) == len(b) && gvForall(0, len(a), func(k int) bool { return a[k] == b[k] })))
}

func gen_c_NodeIDs_Equal(r *rand.Rand) (NodeIDs, NodeIDs) {
	a := make(NodeIDs, r.Intn(4))
	for i := range a {
		a[i][r.Intn(NodeIDBytes)] = byte(r.Intn(256))
	}
	b := make(NodeIDs, len(a), len(a)+1)
	copy(b, a)
	switch r.Intn(4) {
	case 0:
		if len(b) > 0 {
			b[r.Intn(len(b))][r.Intn(NodeIDBytes)] ^= 4
		}
	case 1:
		b = append(b, NodeID{})
	}
	return a, b
}

//gvc:contract C03
//gvc:target ChainIDs.Less
func c_ChainIDs_Less(ids ChainIDs, i, j int) {
	gvRequires(0 <= i && i < len(ids) && 0 <= j && j < len(ids))
	r := ids.Less(i, j)
	gvEnsures("nil is smallest, else numeric", r == (ids[i] != ids[j] && (ids[i] == NilChainID || ids[j] != NilChainID && ids[i] < ids[j])))
}

//gvc:contract C03
//gvc:target ChainIDs.Equal
func c_ChainIDs_Equal(a, b ChainIDs) {
	r := a.Equal(b)
	gvEnsures("same ids at the same places, nil only equals nil", r == ((a == nil) == (b == nil) && len(a) == len(b) && gvForall(0, len(a), func(k int) bool { return a[k] == b[k] })))
}

func gen_c_ChainIDs_Equal(r *rand.Rand) (ChainIDs, ChainIDs) {
	a := make(ChainIDs, r.Intn(4))
	for i := range a {
		a[i] = ChainID(r.Intn(3))
	}
	b := a.Clone()
	switch r.Intn(5) {
	case 0:
		if len(b) > 0 {
			b[r.Intn(len(b))]++
		}
	case 1:
		b = append(b, 0)
	case 2:
		return nil, a
	}
	return a, b
}

//gvc:contract C03
//gvc:target DataNodes.Less
func c_DataNodes_Less(ds DataNodes, i, j, d int) {
	gvRequires(0 <= i && i < len(ds) && 0 <= j && j < len(ds))
	r := ds.Less(i, j)
	gvEnsures("genesis nodes come first", gvImp(ds[i].IsGenesis != ds[j].IsGenesis, r == ds[i].IsGenesis))
	gvEnsures("irreflexive", gvImp(i == j, !r))
	if ds[i].IsGenesis == ds[j].IsGenesis && 0 <= d && d < NodeIDBytes && gvForall(0, d, func(k int) bool { return ds[i].NodeID[k] == ds[j].NodeID[k] }) && ds[i].NodeID[d] != ds[j].NodeID[d] {
		gvEnsures("then the first different byte decides", r == (ds[i].NodeID[d] < ds[j].NodeID[d]))
	}
}

func gen_c_DataNodes_Less(r *rand.Rand) (DataNodes, int, int, int) {
	ns := make(DataNodes, 1+r.Intn(4))
	d := r.Intn(NodeIDBytes)
	for i := range ns {
		ns[i].NodeID[d] = byte(r.Intn(256))
		ns[i].IsGenesis = r.Intn(2) == 0
	}
	return ns, r.Intn(len(ns)), r.Intn(len(ns)), d
}

//gvc:contract C03
//gvc:target MoreTimes.Equal
func c_MoreTimes_Equal(a, b MoreTimes) {
	r := a.Equal(b)
	gvEnsures("same pairs at the same places, nil only equals nil", r == ((a == nil) == (b == nil) && len(a) == len(b) && gvForall(0, len(a), func(k int) bool { return a[k].Index == b[k].Index && a[k].Times == b[k].Times })))
}

func gen_c_MoreTimes_Equal(r *rand.Rand) (MoreTimes, MoreTimes) {
	a := make(MoreTimes, r.Intn(4))
	for i := range a {
		a[i] = MoreTime{Index: r.Intn(3), Times: r.Intn(3)}
	}
	b := a.Clone()
	switch r.Intn(5) {
	case 0:
		if len(b) > 0 {
			b[r.Intn(len(b))].Times++
		}
	case 1:
		b = append(b, MoreTime{})
	case 2:
		return nil, a
	}
	return a, b
}

//gvc:contract C03
//gvc:target fullBorder.compared
func c_fullBorder_compared(f fullBorder, i int) {
	r := f.compared(i)
	gvEnsures("before, inside or behind", r == gvIte(i < f[0], -1, gvIte(i <= f[1], 0, 1)))
}

//gvc:inv NodeIDs.Equal
func inv_NodeIDs_Equal(ns, os NodeIDs, i int) bool {
	return gvForall(0, i, func(k int) bool { return ns[k] == os[k] })
}

//gvc:inv ChainIDs.Equal
func inv_ChainIDs_Equal(ids, os ChainIDs, i int) bool {
	return gvForall(0, i, func(k int) bool { return ids[k] == os[k] })
}

//gvc:inv MoreTimes.Equal
func inv_MoreTimes_Equal(ms, os MoreTimes, gv_i int) bool {
	return gvForall(0, gv_i, func(k int) bool { return ms[k] == os[k] })
}

//gvc:contract C03
//gvc:target HashLess
func c_HashLess(a, b Hash, d int) {
	r := HashLess(a, b)
	gvEnsures("irreflexive", gvImp(a == b, !r))
	gvEnsures("total", gvImp(a != b, r != HashLess(b, a)))
	if 0 <= d && d < HashLength && gvForall(0, d, func(k int) bool { return a[k] == b[k] }) && a[d] != b[d] {
		gvEnsures("the first different byte decides", r == (a[d] < b[d]))
	}
}

func gen_c_HashLess(r *rand.Rand) (Hash, Hash, int) {
	var a, b Hash
	r.Read(a[:])
	b = a
	d := r.Intn(HashLength)
	b[d] = byte(r.Intn(256))
	return a, b, d
}
