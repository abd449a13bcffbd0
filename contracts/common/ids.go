package common

// C01: fixed-size identifiers from bytes

// gvRightAt: byte k of b right-aligned into n bytes
func gvRightAt(b []byte, n, k int) byte {
	if len(b)-n+k < 0 {
		return 0
	}
	return b[len(b)-n+k]
}

//gvc:contract C01
//gvc:target BytesToHash
func c_BytesToHash(b []byte) {
	h := BytesToHash(b)
	gvEnsures("last bytes right-aligned", gvForall(0, 32, func(k int) bool { return h[k] == gvRightAt(b, 32, k) }))
}

//gvc:contract C01
//gvc:target BytesToHashP
func c_BytesToHashP(b []byte) {
	h := BytesToHashP(b)
	gvEnsures("last bytes right-aligned", h != nil && gvFresh(h) && gvForall(0, 32, func(k int) bool { return h[k] == gvRightAt(b, 32, k) }))
}

//gvc:contract C01
//gvc:target BytesToAddress
func c_BytesToAddress(b []byte) {
	h := BytesToAddress(b)
	gvEnsures("last bytes right-aligned", gvForall(0, 20, func(k int) bool { return h[k] == gvRightAt(b, 20, k) }))
}

//gvc:contract C01
//gvc:target BytesToAddressP
func c_BytesToAddressP(b []byte) {
	h := BytesToAddressP(b)
	gvEnsures("last bytes right-aligned", h != nil && gvFresh(h) && gvForall(0, 20, func(k int) bool { return h[k] == gvRightAt(b, 20, k) }))
}

//gvc:contract C01
//gvc:target BytesToNodeID
func c_BytesToNodeID(b []byte) {
	h := BytesToNodeID(b)
	gvEnsures("last bytes right-aligned", gvForall(0, NodeIDBytes, func(k int) bool { return h[k] == gvRightAt(b, NodeIDBytes, k) }))
}

//gvc:contract C01
//gvc:target BytesToNodeIDP
func c_BytesToNodeIDP(b []byte) {
	h := BytesToNodeIDP(b)
	gvEnsures("last bytes right-aligned", h != nil && gvFresh(h) && gvForall(0, NodeIDBytes, func(k int) bool { return h[k] == gvRightAt(b, NodeIDBytes, k) }))
}

//gvc:contract C01
//gvc:target ParseNodeIDBytes
func c_ParseNodeIDBytes(b []byte) {
	h, err := ParseNodeIDBytes(b)
	gvEnsures("never fails", err == nil && h != nil && gvFresh(h))
	gvEnsures("last bytes right-aligned", gvForall(0, NodeIDBytes, func(k int) bool { return h[k] == gvRightAt(b, NodeIDBytes, k) }))
}

//gvc:contract C01
//gvc:target BytesToSeed
func c_BytesToSeed(b []byte) {
	h := BytesToSeed(b)
	gvEnsures("last bytes right-aligned", gvForall(0, SeedLength, func(k int) bool { return h[k] == gvRightAt(b, SeedLength, k) }))
}

//gvc:contract C01
//gvc:target BytesToSeedP
func c_BytesToSeedP(b []byte) {
	h := BytesToSeedP(b)
	gvEnsures("last bytes right-aligned", h != nil && gvFresh(h) && gvForall(0, SeedLength, func(k int) bool { return h[k] == gvRightAt(b, SeedLength, k) }))
}

//gvc:contract C01
//gvc:target NewHash
func c_NewHash(b []byte) {
	gvRequires(len(b) == 32)
	h := NewHash(b)
	gvEnsures("exactly the bytes", h != nil && gvFresh(h) && gvForall(0, 32, func(k int) bool { return h[k] == b[k] }))
}

//gvc:contract C01
//gvc:target Hash.SetBytes
func c_Hash_SetBytes(h *Hash, b []byte) {
	gvRequires(h != nil)
	gvModPtr(h)
	old := gvClone(b)
	pre := *h
	h.SetBytes(b)
	gvEnsures("the last bytes end up at the right", gvForall(0, 32, func(k int) bool { return len(old)-32+k < 0 || h[k] == gvRightAt(old, 32, k) }))
	gvEnsures("the bytes before them are kept or cleared", gvForall(0, 32-len(old), func(k int) bool { return h[k] == pre[k] || h[k] == 0 }))
}

//gvc:contract C01
//gvc:target Address.SetBytes
func c_Address_SetBytes(h *Address, b []byte) {
	gvRequires(h != nil)
	gvModPtr(h)
	old := gvClone(b)
	pre := *h
	h.SetBytes(b)
	gvEnsures("the last bytes end up at the right", gvForall(0, 20, func(k int) bool { return len(old)-20+k < 0 || h[k] == gvRightAt(old, 20, k) }))
	gvEnsures("the bytes before them are kept or cleared", gvForall(0, 20-len(old), func(k int) bool { return h[k] == pre[k] || h[k] == 0 }))
}

//gvc:contract C01
//gvc:target NodeID.SetBytes
func c_NodeID_SetBytes(h *NodeID, b []byte) {
	gvRequires(h != nil)
	gvModPtr(h)
	old := gvClone(b)
	pre := *h
	h.SetBytes(b)
	gvEnsures("the last bytes end up at the right", gvForall(0, NodeIDBytes, func(k int) bool {
		return len(old)-NodeIDBytes+k < 0 || h[k] == gvRightAt(old, NodeIDBytes, k)
	}))
	gvEnsures("the bytes before them are kept or cleared", gvForall(0, NodeIDBytes-len(old), func(k int) bool { return h[k] == pre[k] || h[k] == 0 }))
}

//gvc:contract C01
//gvc:target Seed.SetBytes
func c_Seed_SetBytes(h *Seed, b []byte) {
	gvRequires(h != nil)
	gvModPtr(h)
	old := gvClone(b)
	pre := *h
	r := h.SetBytes(b)
	gvEnsures("returns its receiver", r == h)
	gvEnsures("the last bytes end up at the right", gvForall(0, SeedLength, func(k int) bool {
		return len(old)-SeedLength+k < 0 || h[k] == gvRightAt(old, SeedLength, k)
	}))
	gvEnsures("the bytes before them are kept or cleared", gvForall(0, SeedLength-len(old), func(k int) bool { return h[k] == pre[k] || h[k] == 0 }))
}

// round trips and views

//gvc:lemma C01
func l_Hash_roundtrip(h Hash) {
	gvEnsures("Bytes then BytesToHash", BytesToHash(h.Bytes()) == h)
	gvEnsures("pointer form", *BytesToHashP(h.Bytes()) == h)
	gvEnsures("length", len(h.Bytes()) == 32)
}

//gvc:lemma C01
func l_Address_roundtrip(h Address) {
	gvEnsures("Bytes then BytesToAddress", BytesToAddress(h.Bytes()) == h)
	gvEnsures("length", len(h.Bytes()) == 20)
}

//gvc:lemma C01
func l_NodeID_roundtrip(h NodeID) {
	gvEnsures("Bytes then BytesToNodeID", BytesToNodeID(h.Bytes()) == h)
	gvEnsures("length", len(h.Bytes()) == NodeIDBytes)
}

//gvc:lemma C01
func l_Seed_roundtrip(h Seed) {
	gvEnsures("Byte then BytesToSeed", BytesToSeed(h.Byte()) == h)
	gvEnsures("length", len(h.Byte()) == SeedLength)
}

//gvc:contract C01
//gvc:target Hash.Slice
func c_Hash_Slice(h *Hash) {
	r := h.Slice()
	gvEnsures("nil for nil", (r == nil) == (h == nil))
	gvEnsures("a view of the hash", h == nil || gvSliceOf(r, h[:], 0, 32))
}

//gvc:contract C01
//gvc:target Address.Slice
func c_Address_Slice(h *Address) {
	r := h.Slice()
	gvEnsures("nil for nil", (r == nil) == (h == nil))
	gvEnsures("a view of the address", h == nil || gvSliceOf(r, h[:], 0, 20))
}

//gvc:contract C01
//gvc:target Seed.Slice
func c_Seed_Slice(h *Seed) {
	r := h.Slice()
	gvEnsures("nil for nil", (r == nil) == (h == nil))
	gvEnsures("a view of the seed", h == nil || gvSliceOf(r, h[:], 0, SeedLength))
}

//gvc:contract C01
//gvc:target NodeID.Bytes
func c_NodeID_Bytes(h *NodeID) {
	gvRequires(h != nil)
	r := h.Bytes()
	gvEnsures("a view of the node id", gvSliceOf(r, h[:], 0, NodeIDBytes))
}

//gvc:contract C01
//gvc:target Hash.Bytes
func c_Hash_Bytes(h Hash) {
	r := h.Bytes()
	gvEnsures("all bytes, private memory", len(r) == 32 && gvFresh(r) && gvForall(0, 32, func(k int) bool { return r[k] == h[k] }))
}

//gvc:contract C01
//gvc:target Address.Bytes
func c_Address_Bytes(h Address) {
	r := h.Bytes()
	gvEnsures("all bytes, private memory", len(r) == 20 && gvFresh(r) && gvForall(0, 20, func(k int) bool { return r[k] == h[k] }))
}

//gvc:contract C01
//gvc:target Hash.Clone
func c_Hash_Clone(h *Hash) {
	r := h.Clone()
	gvEnsures("nil for nil", (r == nil) == (h == nil))
	gvEnsures("equal copy in own memory", h == nil || *r == *h && gvFresh(r))
}

//gvc:contract C01
//gvc:target Address.Clone
func c_Address_Clone(h *Address) {
	r := h.Clone()
	gvEnsures("nil for nil", (r == nil) == (h == nil))
	gvEnsures("equal copy in own memory", h == nil || *r == *h && gvFresh(r))
}

//gvc:contract C01
//gvc:target Address.Copy
func c_Address_Copy(h Address) {
	r := h.Copy()
	gvEnsures("equal copy in own memory", r != nil && *r == h && gvFresh(r))
}

//gvc:contract C01
//gvc:target NodeID.Clone
func c_NodeID_Clone(h *NodeID) {
	r := h.Clone()
	gvEnsures("nil for nil", (r == nil) == (h == nil))
	gvEnsures("equal copy in own memory", h == nil || *r == *h && gvFresh(r))
}

//gvc:contract C01
//gvc:target NodeID.New
func c_NodeID_New(h NodeID) {
	r := h.New()
	gvEnsures("equal copy in own memory", r != nil && *r == h && gvFresh(r))
}

//gvc:contract C01
//gvc:target Seed.Clone
func c_Seed_Clone(h *Seed) {
	r := h.Clone()
	gvEnsures("nil for nil", (r == nil) == (h == nil))
	gvEnsures("equal copy in own memory", h == nil || *r == *h && gvFresh(r))
}

//gvc:lemma C01
func l_Address_ForRLP(a *Address) {
	f := a.ForRLP()
	gvEnsures("never nil, nil as zero", f != nil && gvFresh(f) && (a == nil && *f == Address{} || a != nil && *f == *a))
	g := f.FromRLP()
	gvEnsures("comes back, zero as nil", (g == nil) == (a == nil || *a == Address{}))
	gvEnsures("same value back", g == nil || *g == *a)
}

//gvc:lemma C01
func l_Hash_ForRLP(a *Hash) {
	f := a.ForRLP()
	gvEnsures("never nil, nil as zero", f != nil && gvFresh(f) && (a == nil && *f == Hash{} || a != nil && *f == *a))
	g := f.FromRLP()
	gvEnsures("comes back, zero as nil", (g == nil) == (a == nil || *a == Hash{}))
	gvEnsures("same value back", g == nil || *g == *a)
}

//gvc:contract C01
//gvc:target Address.Value
func c_Address_Value(a *Address) {
	v := a.Value()
	gvEnsures("the address, zero for nil", a == nil && v == Address{} || a != nil && v == *a)
}

//gvc:contract C01
//gvc:target Address.Hash
func c_Address_Hash(a Address) {
	h := a.Hash()
	gvEnsures("left-padded with zeros", gvForall(0, 12, func(k int) bool { return h[k] == 0 }) && gvForall(0, 20, func(k int) bool { return h[12+k] == a[k] }))
}

//gvc:contract C01
//gvc:target NodeID.isZero
func c_NodeID_isZero(n NodeID) {
	r := n.isZero()
	gvEnsures("all bytes zero", r == (n == NodeID{}))
}

//gvc:inv NodeID.isZero
func inv_isZero(nid NodeID, gv_i int) bool {
	return gvForall(0, gv_i, func(k int) bool { return nid[k] == 0 })
}

//gvc:contract C01
//gvc:target Hash.SliceEqual
func c_Hash_SliceEqual(h *Hash, val []byte) {
	r := h.SliceEqual(val)
	gvEnsures("same bytes, nil as empty", h == nil && r == (len(val) == 0) || h != nil && r == gvEqBytes(h[:], val))
}

//gvc:contract C01
//gvc:target CopyHashs
func c_CopyHashs(hs []Hash) {
	r := CopyHashs(hs)
	gvEnsures("nil stays nil", (r == nil) == (hs == nil) && len(r) == len(hs))
	gvEnsures("same elements in own memory", gvFresh(r) && gvForall(0, len(hs), func(i int) bool { return r[i] == hs[i] }))
}

//gvc:contract C01
//gvc:target HashsEquals
func c_HashsEquals(a, b []Hash) {
	r := HashsEquals(a, b)
	gvEnsures("equal exactly when all elements are", r == ((a == nil) == (b == nil) && len(a) == len(b) && gvForall(0, len(a), func(i int) bool { return i >= len(b) || a[i] == b[i] })))
}

//gvc:inv HashsEquals
func inv_HashsEquals(hs1, hs2 []Hash, i int) bool {
	return gvForall(0, i, func(j int) bool { return hs1[j] == hs2[j] })
}

// chain ids

//gvc:lemma C01
func l_ChainID_roundtrip(id ChainID) {
	b := id.Bytes()
	gvEnsures("four bytes in own memory", len(b) == 4 && gvFresh(b))
	gvEnsures("Bytes comes back", BytesToChainID(b) == id)
	f := id.Formalize()
	gvEnsures("Formalize comes back", ChainID(0).FromFormalize(f) == id)
}

//gvc:lemma C01
func l_ChainID_injective(a, b ChainID) {
	gvEnsures("distinct encodings", gvEqBytes(a.Bytes(), b.Bytes()) == (a == b))
}

//gvc:contract C01
//gvc:target ParseBytesToNodeIds
func c_ParseBytesToNodeIds(s []byte) {
	r, err := ParseBytesToNodeIds(s)
	gvEnsures("accepted exactly for a multiple of the id length", (err == nil) == (len(s)%NodeIDBytes == 0))
	gvEnsures("all ids", err != nil && len(r) == 0 || err == nil && len(r)*NodeIDBytes == len(s))
	gvEnsures("ids are the consecutive chunks", gvForall(0, len(r), func(i int) bool {
		return gvForall(0, NodeIDBytes, func(k int) bool { return r[i][k] == s[i*NodeIDBytes+k] })
	}))
}

//gvc:inv ParseBytesToNodeIds
func inv_ParseBytesToNodeIds(s []byte, nodeids []NodeID, p int) bool {
	return p >= 0 && p <= len(s) && p == len(nodeids)*NodeIDBytes && len(s)%NodeIDBytes == 0
}

//gvc:inv ParseBytesToNodeIds
func inv_ParseBytesToNodeIds2(s []byte, nodeids []NodeID, p int) bool {
	return gvForall(0, len(nodeids), func(i int) bool {
		return gvForall(0, NodeIDBytes, func(k int) bool { return nodeids[i][k] == s[i*NodeIDBytes+k] })
	})
}

//gvc:contract C01
//gvc:target ParseBytesToNodeIdBytes
func c_ParseBytesToNodeIdBytes(s []byte) {
	r, err := ParseBytesToNodeIdBytes(s)
	gvEnsures("accepted exactly for a multiple of the id length", (err == nil) == (len(s)%NodeIDBytes == 0))
	gvEnsures("all ids", err != nil && len(r) == 0 || err == nil && len(r)*NodeIDBytes == len(s))
	gvEnsures("own memory", gvForall(0, len(r), func(i int) bool { return gvFresh(r[i]) }))
	gvEnsures("ids are the consecutive chunks", gvForall(0, len(r), func(i int) bool {
		return len(r[i]) == NodeIDBytes && gvForall(0, NodeIDBytes, func(k int) bool { return r[i][k] == s[i*NodeIDBytes+k] })
	}))
}

//gvc:inv ParseBytesToNodeIdBytes
func inv_ParseBytesToNodeIdBytes(s []byte, nodeids [][]byte, p int) bool {
	return p >= 0 && p <= len(s) && p == len(nodeids)*NodeIDBytes && len(s)%NodeIDBytes == 0
}

//gvc:inv ParseBytesToNodeIdBytes
func inv_ParseBytesToNodeIdBytes2(s []byte, nodeids [][]byte, p int) bool {
	return gvForall(0, len(nodeids), func(i int) bool { return gvFresh(nodeids[i]) && len(nodeids[i]) == NodeIDBytes })
}

//gvc:inv ParseBytesToNodeIdBytes
func inv_ParseBytesToNodeIdBytes3(s []byte, nodeids [][]byte, p int) bool {
	return gvForall(0, len(nodeids), func(i int) bool {
		return gvForall(0, NodeIDBytes, func(k int) bool { return nodeids[i][k] == s[i*NodeIDBytes+k] })
	})
}

//gvc:contract C01
//gvc:target PackNodeIdsToBytes
func c_PackNodeIdsToBytes(ids []NodeID) {
	gvRequires(len(ids) < 1<<40)
	r := PackNodeIdsToBytes(ids)
	gvEnsures("ids laid end to end", len(r) == len(ids)*NodeIDBytes && gvFresh(r))
	gvEnsures("every id at its offset", gvForall(0, len(ids), func(i int) bool {
		return gvForall(0, NodeIDBytes, func(k int) bool { return r[i*NodeIDBytes+k] == ids[i][k] })
	}))
}

//gvc:inv PackNodeIdsToBytes
func inv_PackNodeIds(nodeIds []NodeID, bs []byte, i int) bool {
	return gvForall(0, i, func(j int) bool {
		return gvForall(0, NodeIDBytes, func(k int) bool { return bs[j*NodeIDBytes+k] == nodeIds[j][k] })
	})
}
