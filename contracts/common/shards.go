package common

import "math/rand"

// C15: sharding

//gvc:contract C15
//gvc:target Bits.Bit
func c_Bits_Bit(bs Bits, index BitIndex) {
	gvRequires(index >= 0)
	r := bs.Bit(index)
	gvEnsures("bit counted from the highest bit of the first byte, false beyond the end",
		r == (int(index) < 8*len(bs) && bs[gvIte(int(index) < 8*len(bs), int(index)/8, 0)]&(1<<(7-uint(index)%8)) != 0))
}

//gvc:contract C15
//gvc:target Bits.Bits
func c_Bits_Bits(bs Bits, length int) {
	gvRequires(length < 1<<40)
	gvOracleOnly(length < 1<<20)
	r := bs.Bits(length)
	n := gvIte(length < 0, 0, gvIte(length > 8*len(bs), 8*len(bs), length))
	gvEnsures("as many bits as asked for, or all there are", len(r) == n)
	gvEnsures("bits from the highest one on", gvForall(0, len(r), func(k int) bool { return r[k] == (bs[k>>3]&(1<<(7-uint(k)&7)) != 0) }))
}

func gen_c_Bits_Bits(r *rand.Rand) (Bits, int) {
	b := make([]byte, r.Intn(40))
	r.Read(b)
	return Bits(b), r.Intn(400) - 20
}

//gvc:contract C15
//gvc:target Bits.Byte
func c_Bits_Byte(bs Bits, index int) {
	v, e := bs.Byte(index)
	gvEnsures("exists exactly for an index inside", e == (index >= 0 && index < len(bs)))
	gvEnsures("the byte, or zero", !e && v == 0 || e && v == bs[index])
}

//gvc:contract C15
//gvc:target AddressShard.IsValid
func c_AddressShard_IsValid(s *AddressShard) {
	r := s.IsValid()
	gvEnsures("index within address and value", r == (s != nil && s.Index > 0 && s.Index <= 160 && len(s.Value)*8 >= int(s.Index)))
}

//gvc:contract C15
//gvc:target BitIndex.BytePos
func c_BytePos(p BitIndex) {
	gvRequires(p >= 0)
	r := p.BytePos()
	gvEnsures("byte of the bit", r == int(p)/8)
}

//gvc:contract C15
//gvc:target BitIndex.BitPos
func c_BitPos(p BitIndex) {
	gvRequires(p >= 0)
	r := p.BitPos()
	gvEnsures("bit within its byte", r == uint(p)%8)
}

//gvc:contract C15
//gvc:target AddressShard.IsIn
func c_AddressShard_IsIn(s *AddressShard, addr Address) {
	gvRequires(s == nil || s.Index >= 0)
	r := s.IsIn(addr)
	gvEnsures("nil holds nothing", s != nil || !r)
	if s != nil && s.IsValid() && s.Index < 160 && len(s.Value) > int(s.Index)/8 {
		n := int(s.Index) / 8
		gvEnsures("exactly the addresses that start with the value up to and including bit Index", r == ((s.Value[n]^addr[n])>>(7-uint(s.Index)%8) == 0 &&
			gvForall(0, n, func(k int) bool { return s.Value[k] == addr[k] })))
	}
}

//gvc:contract C15
//gvc:target AccountShards.index
//gvc:unroll 2
func c_AccountShards_index(s AccountShards, addr *Address) {
	gvRequires(addr != nil && s.maskBits >= 0 && s.maskBits <= MaxExponentOfShards)
	r := s.index(addr)
	if s.maskBits > 0 && s.maskBits < 8 {
		gvEnsures("the leading mask bits", r == int(addr[0]>>uint(8-s.maskBits)))
	}
	gvEnsures("in range", r >= 0 && r < 1<<16)
}

//gvc:contract C15
//gvc:target AccountShards.shardTo
func c_AccountShards_shardTo(s AccountShards, addr *Address) {
	gvRequires(addr != nil && s.maskBits >= 0 && s.maskBits <= MaxExponentOfShards)
	r := s.shardTo(addr)
	gvEnsures("parent when there are no shards", len(s.chains) > 0 || r == s.parent.ID)
	if len(s.chains) > 0 && s.maskBits > 0 && s.maskBits < 8 {
		gvEnsures("the chain the leading mask bits select", r == s.chains[int(addr[0]>>uint(8-s.maskBits))%len(s.chains)])
	}
	gvEnsures("the only chain when there is one", len(s.chains) != 1 || r == s.chains[0])
	gvEnsures("a member of the shard set", len(s.chains) == 0 || gvExists(0, len(s.chains), func(i int) bool { return s.chains[i] == r }))
}

//gvc:inv AddressShard.IsIn
func inv_IsIn(s *AddressShard, addr Address, i int) bool {
	n := int(s.Index) / 8
	return i <= n+1 && i <= len(s.Value) && gvForall(0, i, func(k int) bool { return k >= n || s.Value[k] == addr[k] }) &&
		(i <= n || (s.Value[n]^addr[n])>>(7-uint(s.Index)%8) == 0)
}

//gvc:inv Bits.Bits
func inv_Bits1(bs Bits, length int, r []bool, i int) bool {
	return i <= len(bs) && i <= length>>3+1 && (len(r) == 8*i && 8*i <= length || i == length>>3+1 && len(r) == length)
}

//gvc:inv Bits.Bits
func inv_Bits2(bs Bits, length int, r []bool, i int, j uint) bool {
	return len(r) == 8*i+int(j) && j <= 8 && i < len(bs) && len(r) <= length
}

//gvc:inv Bits.Bits
func inv_Bits3(bs Bits, r []bool) bool {
	return gvForall(0, len(r), func(k int) bool { return k>>3 < len(bs) && r[k] == (bs[k>>3]&(1<<(7-uint(k)&7)) != 0) })
}

//gvc:contract C15
//gvc:target NewAccountShards
func c_NewAccountShards(parent ChainStruct, chains []ChainID) {
	gvRequires(len(chains) <= 1<<MaxExponentOfShards)
	gvRequires(gvForall(0, len(chains), func(i int) bool { return !chains[i].IsNil() }))
	s := NewAccountShards(parent, chains)
	gvEnsures("the parent is kept", s.parent.ID == parent.ID)
	gvEnsures("all chains, in own memory", len(s.chains) == len(chains) && gvFresh(s.chains))
	gvEnsures("ascending", gvForall(0, len(s.chains), func(i int) bool { return gvForall(0, i, func(j int) bool { return s.chains[j] <= s.chains[i] }) }))
	gvEnsures("every chain is in", gvForall(0, len(chains), func(i int) bool {
		return gvExists(0, len(s.chains), func(j int) bool { return s.chains[j] == chains[i] })
	}))
	gvEnsures("nothing else is in", gvForall(0, len(s.chains), func(i int) bool {
		return gvExists(0, len(chains), func(j int) bool { return s.chains[i] == chains[j] })
	}))
	gvEnsures("repeats only what repeats", gvForall(0, len(s.chains), func(i int) bool {
		return gvForall(0, i, func(j int) bool {
			return s.chains[i] != s.chains[j] || gvExists(0, len(chains), func(b int) bool {
				return gvExists(0, b, func(a int) bool { return chains[a] == s.chains[i] && chains[b] == s.chains[i] })
			})
		})
	}))
	gvEnsures("just enough mask bits", s.maskBits >= 0 && s.maskBits <= MaxExponentOfShards && len(chains) <= 1<<uint(s.maskBits) && (s.maskBits == 0 || len(chains) > 1<<uint(s.maskBits-1)))
}

//gvc:inv NewAccountShards
func inv_NewAccountShards(entry_chains []ChainID, bits int) bool {
	return bits >= 0 && bits <= MaxExponentOfShards && (bits == 0 || len(entry_chains) > 1<<uint(bits-1))
}

//gvc:inv NewAccountShards
func inv_NewAccountShardsPow(bits, length int) bool {
	return bits >= 0 && bits <= MaxExponentOfShards && length == 1<<uint(bits)
}

//gvc:contract C15
//gvc:target AccountShards.pos
func c_AccountShards_pos(s AccountShards, id ChainID) {
	gvRequires(gvForall(0, len(s.chains), func(i int) bool { return gvForall(0, i, func(j int) bool { return s.chains[j] < s.chains[i] }) }))
	r := s.pos(id)
	gvEnsures("the index under which the chain is stored, or -1", r >= -1 && r < len(s.chains) && (r < 0 || s.chains[r] == id))
	gvEnsures("found when present", r >= 0 || gvForall(0, len(s.chains), func(i int) bool { return s.chains[i] != id }))
}

//gvc:inv AccountShards.pos
func inv_Search(f func(int) bool, i, j, n int) bool {
	return i >= 0 && i <= j && j <= n && (i == 0 || !f(i-1)) && (j == n || f(j))
}

func gvHasChain(l []ChainID, n int, id ChainID) bool {
	return gvExists(0, n, func(j int) bool { return l[j] == id })
}

// k is an arbitrary chain: everything is stated about its membership
//
//gvc:contract C15
//gvc:target NewShardInfo
//gvc:inline NewAccountShards
func c_NewShardInfo(parent ChainStruct, cur ChainID, shards []ChainID, k ChainID) {
	gvRequires(len(shards) < 1<<MaxExponentOfShards && !parent.ID.IsNil())
	gvRequires(gvForall(0, len(shards), func(i int) bool { return !shards[i].IsNil() }))
	gvRequires(cur != NilChainID || shards == nil)
	si := NewShardInfo(parent, cur, shards)
	as := si.(AccountSharding)
	l := as.shards.chains
	gvEnsures("local and parent chain", uint64(as.id) == gvIteU(cur == NilChainID, uint64(parent.ID), uint64(cur)) && as.shards.parent.ID == parent.ID)
	gvEnsures("ascending", gvForall(0, len(l), func(i int) bool { return gvForall(0, i, func(j int) bool { return l[j] <= l[i] }) }))
	gvEnsures("no chain twice", gvForall(0, len(l), func(i int) bool { return gvForall(0, i, func(j int) bool { return l[j] != k || l[i] != k }) }))
	gvEnsures("every shard chain is in", !gvHasChain(shards, len(shards), k) || gvHasChain(l, len(l), k))
	gvEnsures("the current chain is in unless it is the parent", cur != k || cur == NilChainID || cur == parent.ID || gvHasChain(l, len(l), cur))
	gvEnsures("nothing else is in", !gvHasChain(l, len(l), k) || k == cur && cur != parent.ID || gvHasChain(shards, len(shards), k))
	gvEnsures("mask bits admit every chain", as.shards.maskBits >= 0 && as.shards.maskBits <= MaxExponentOfShards && len(l) <= 1<<uint(as.shards.maskBits))
}

//gvc:inv NewShardInfo
func inv_NewShardInfo(shards, shardSlice []ChainID, dupMap map[ChainID]struct{}, i int, entry_k ChainID) bool {
	_, ok := dupMap[entry_k]
	return len(shardSlice) <= i && ok == gvHasChain(shardSlice, len(shardSlice), entry_k)
}

//gvc:inv NewShardInfo
func inv_NewShardInfo2(shards, shardSlice []ChainID, i int, entry_k ChainID) bool {
	return gvHasChain(shards, i, entry_k) == gvHasChain(shardSlice, len(shardSlice), entry_k)
}

//gvc:inv NewShardInfo
func inv_NewShardInfo3(shards, shardSlice []ChainID, i int, entry_k ChainID) bool {
	return gvForall(0, len(shardSlice), func(k int) bool {
		return !shardSlice[k].IsNil() && gvForall(0, k, func(j int) bool { return shardSlice[j] != entry_k || shardSlice[k] != entry_k })
	})
}

//gvc:inv NewShardInfo
func inv_NewShardInfo4(bits, length int) bool {
	return bits >= 0 && bits <= MaxExponentOfShards && length == 1<<uint(bits)
}

//gvc:inv NewShardInfo
func inv_NewShardInfo5(bits int) bool {
	return bits >= 0 && bits <= MaxExponentOfShards
}

//gvc:contract C15
//gvc:target BitIndex.Mask
func c_Mask(p BitIndex, b byte) {
	gvRequires(p >= 0)
	r := p.Mask(b)
	gvEnsures("the bits of the byte up to and including the indexed one", r == b&(0xff<<(7-uint(p)%8)))
}

//gvc:finding C15
func finding_mask8() {
	var chains []ChainID
	for i := 0; i < 256; i++ {
		chains = append(chains, ChainID(2000000+i))
	}
	s := NewAccountShards(ChainStruct{ID: 1}, chains)
	var a, b Address
	b[1] = 1
	gvEnsures("addresses with the same leading mask bits get the same shard", s.GetMaskBits() == 8 && s.shardTo(&a) == s.shardTo(&b))
}

//gvc:contract C15
//gvc:target AccountSharding.ShardTo
func c_AccountSharding_ShardTo(as AccountSharding, addr *Address, mode int) {
	gvRequires(addr != nil && as.shards.maskBits >= 0 && as.shards.maskBits <= MaxExponentOfShards)
	var r ChainID
	switch mode {
	case 0:
		r = as.ShardTo(addr)
	case 1:
		r = as.ShardTo(*addr)
	default:
		gvEnsures("nothing is sharded nowhere", as.ShardTo(nil) == NilChainID)
		return
	}
	s := as.shards
	gvEnsures("parent when there are no shards", len(s.chains) > 0 || r == s.parent.ID)
	if len(s.chains) > 0 && s.maskBits > 0 && s.maskBits < 8 {
		gvEnsures("the chain the leading mask bits select", r == s.chains[int(addr[0]>>uint(8-s.maskBits))%len(s.chains)])
	}
	gvEnsures("a member of the shard set", len(s.chains) == 0 || gvExists(0, len(s.chains), func(i int) bool { return s.chains[i] == r }))
}

func gen_c_AccountSharding_ShardTo(r *rand.Rand) (AccountSharding, *Address, int) {
	var as AccountSharding
	var a Address
	r.Read(a[:])
	as.shards.maskBits = r.Intn(MaxExponentOfShards + 1)
	as.shards.parent.ID = 7
	n := r.Intn(1<<uint(as.shards.maskBits) + 1)
	for i := 0; i < n; i++ {
		as.shards.chains = append(as.shards.chains, ChainID(100+i))
	}
	return as, &a, r.Intn(3)
}

//gvc:contract C15
//gvc:target AccountSharding.Pos
func c_AccountSharding_Pos(as AccountSharding, id ChainID) {
	s := as.shards
	gvRequires(gvForall(0, len(s.chains), func(i int) bool { return gvForall(0, i, func(j int) bool { return s.chains[j] < s.chains[i] }) }))
	r := as.Pos(id)
	gvEnsures("the index under which the chain is stored, or -1", r >= -1 && r < len(s.chains) && (r < 0 || s.chains[r] == id))
	gvEnsures("found when present", r >= 0 || gvForall(0, len(s.chains), func(i int) bool { return s.chains[i] != id }))
}

//gvc:contract C15
//gvc:target AccountSharding.AllIDs
func c_AccountSharding_AllIDs(as AccountSharding) {
	r := as.AllIDs()
	gvEnsures("the stored chains in order", len(r) == len(as.shards.chains) && gvForall(0, len(r), func(i int) bool { return r[i] == as.shards.chains[i] }))
	gvEnsures("as many as the number of shards", as.Number() == len(r))
	gvEnsures("the parent and the current chain", as.ParentID() == as.shards.parent.ID && as.LocalID() == as.id)
	gvEnsures("mask bits", as.shards.maskBits < 0 || int(as.GetMaskBits()) == as.shards.maskBits)
}

//gvc:contract C15
//gvc:target AccountShards.Clone
func c_AccountShards_Clone(s AccountShards) {
	r := s.Clone()
	gvEnsures("same mask and parent", r.maskBits == s.maskBits && r.parent.ID == s.parent.ID && r.parent.ParentID == s.parent.ParentID)
	gvEnsures("same chains in own memory", len(r.chains) == len(s.chains) && (len(s.chains) == 0 || gvFresh(r.chains)) && gvForall(0, len(r.chains), func(i int) bool { return r.chains[i] == s.chains[i] }))
}
