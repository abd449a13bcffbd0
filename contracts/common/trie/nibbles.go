package trie

import (
	"bytes"
	"math/rand"
)

// C11: nibble codecs of keys and node headers

//gvc:contract C11
//gvc:target matchPrefix
func c_matchPrefix(sub []byte, of []byte) {
	r := matchPrefix(sub, of)
	gvEnsures("within both strings", 0 <= r && r <= len(sub) && r <= len(of))
	gvEnsures("the strings agree before it", gvForall(0, r, func(k int) bool { return sub[k] == of[k] }))
	gvEnsures("and differ at it unless one of them ends", r == len(sub) || r == len(of) || sub[r] != of[r])
}

//gvc:inv matchPrefix
func inv_matchPrefix(sub []byte, of []byte, i int) bool {
	return 0 <= i && i <= len(sub) && i <= len(of) && gvForall(0, i, func(k int) bool { return sub[k] == of[k] })
}

//gvc:contract C11
//gvc:target keyToPrefix
func c_keyToPrefix(key []byte) {
	gvRequires(len(key) < 1<<40)
	r := keyToPrefix(key)
	gvEnsures("two nibbles per byte, high one first", len(r) == 2*len(key) && gvForall(0, len(key), func(k int) bool {
		return r[2*k] == key[k]>>4 && r[2*k+1] == key[k]&0xF
	}))
	gvEnsures("nothing but nibbles", gvForall(0, len(r), func(k int) bool { return r[k] < 16 }))
	gvEnsures("an empty key has no prefix", (r == nil) == (len(key) == 0))
	gvEnsures("new slice", r == nil || gvFresh(r))
}

//gvc:inv keyToPrefix
func inv_keyToPrefix(key []byte, r []byte, i int) bool {
	return gvForall(0, i, func(k int) bool {
		return r[2*k] == key[k]>>4 && r[2*k+1] == key[k]&0xF
	})
}

//gvc:inv keyToPrefix
func inv_keyToPrefixMade(key []byte, r []byte, i int) bool {
	return len(r) == 2*len(key) && i <= len(key)
}

//gvc:inv keyToPrefix
func inv_keyToPrefixGrown(key []byte, r []byte, i int) bool {
	return len(r) == 2*i && i <= len(key)
}

//gvc:inv keyToPrefix
func inv_keyToPrefixOwn(r []byte, i int) bool {
	return r != nil && gvFresh(r)
}

//gvc:inv keyToPrefix
func inv_keyToPrefix2(r []byte, i int) bool {
	return gvForall(0, 2*i, func(k int) bool { return r[k] < 16 })
}

//gvc:contract C11
//gvc:target prefixToKey
func c_prefixToKey(prefix []byte) {
	r := prefixToKey(prefix)
	o := len(prefix) % 2
	gvEnsures("two nibbles per byte, odd length padded with a leading zero nibble", len(r) == (len(prefix)+1)/2)
	gvEnsures("odd length: the first nibble alone", o == 0 || r[0] == prefix[0]&0xF)
	gvEnsures("then pairs of nibbles", gvForall(0, len(prefix)/2, func(k int) bool {
		return r[o+k] == prefix[o+2*k]<<4|prefix[o+2*k+1]&0xF
	}))
	gvEnsures("new slice", gvFresh(r))
}

// alternatives for one loop over the whole prefix

//gvc:inv prefixToKey
func inv_prefixToKeyWhole(prefix []byte, ret []byte, j int) bool {
	o := len(prefix) % 2
	return gvForall(o, (j+o)/2, func(k int) bool { return ret[k] == prefix[2*k-o]<<4|prefix[2*k-o+1]&0xF })
}

//gvc:inv prefixToKey
func inv_prefixToKeyWhole1(prefix []byte, ret []byte, j int) bool {
	return len(prefix)%2 == 0 || j == 0 || ret[0] == prefix[0]&0xF
}

//gvc:inv prefixToKey
func inv_prefixToKeyWhole2(prefix []byte, ret []byte, j int) bool {
	n := j + len(prefix)%2
	return n%2 == 0 || ret[n/2] == byte(gvIte(j == 0, 0, int(prefix[gvIte(j == 0, 0, j-1)]&0xF)))
}

//gvc:inv prefixToKey
func inv_prefixToKeyWhole3(prefix []byte, ret []byte, j int) bool {
	return gvForall((j+len(prefix)%2+1)/2, len(ret), func(k int) bool { return ret[k] == 0 })
}

//gvc:inv prefixToKey
func inv_prefixToKey(p []byte, ret []byte, i int, j int) bool {
	return gvForall(0, j/2, func(k int) bool {
		return ret[i+k] == p[2*k]<<4|p[2*k+1]&0xF
	})
}

//gvc:inv prefixToKey
func inv_prefixToKey2(p []byte, ret []byte, i int, j int) bool {
	return j%2 == 0 || ret[i+j/2] == p[j-1]&0xF
}

//gvc:inv prefixToKey
func inv_prefixToKey3(p []byte, ret []byte, i int, j int) bool {
	return gvForall((j+1)/2, len(p)/2, func(k int) bool { return ret[i+k] == 0 })
}

//gvc:inv prefixToKey
func inv_prefixToKey4(p []byte, ret []byte, i int, j int, prefix []byte) bool {
	return len(p)%2 == 0 && (i == 0 || ret[0] == prefix[0]&0xF)
}

func gen_c_prefixToKey(r *rand.Rand) []byte {
	b := make([]byte, r.Intn(12))
	for i := range b {
		b[i] = byte(r.Intn(16))
	}
	return b
}

//gvc:lemma C11
func l_keyPrefixRoundtrip(key []byte) {
	gvRequires(len(key) < 1<<40)
	r := prefixToKey(keyToPrefix(key))
	gvEnsures("keys survive the trip through nibbles", gvEqBytes(r, key))
}

//gvc:contract C11
//gvc:target prefixToKeystring
func c_prefixToKeystring(prefix []byte) {
	r := prefixToKeystring(prefix)
	o := len(prefix) % 2
	gvEnsures("pairs of nibbles, the first one of an odd prefix left out", len(r) == len(prefix)/2 && gvForall(0, len(r), func(k int) bool {
		return r[k] == (prefix[o+2*k]&0xF)<<4|prefix[o+2*k+1]&0xF
	}))
	gvEnsures("new slice", r == nil || gvFresh(r))
}

//gvc:inv prefixToKeystring
func inv_prefixToKeystring(p []byte, r []byte, i int) bool {
	return gvForall(0, i, func(k int) bool { return r[k] == (p[2*k]&0xF)<<4|p[2*k+1]&0xF })
}

//gvc:contract C11
//gvc:target keystringToPrefix
func c_keystringToPrefix(nt NodeType, encoded []byte) {
	gvRequires(len(encoded) < 1<<40)
	r := keystringToPrefix(nt, encoded)
	gvEnsures("no prefix flag, no prefix", gvImp(nt&0x80 == 0, r == nil))
	gvEnsures("even length", gvImp(nt&0x80 != 0 && nt&0x10 == 0, len(r) == 2*len(encoded)) &&
		gvImp(nt&0x80 != 0 && nt&0x10 == 0, gvForall(0, len(encoded), func(k int) bool {
			return 2*k+1 < len(r) && r[2*k] == encoded[k]>>4 && r[2*k+1] == encoded[k]&0xF
		})))
	gvEnsures("odd length: first nibble from the node type", gvImp(nt&0x80 != 0 && nt&0x10 != 0, len(r) == 2*len(encoded)+1) &&
		gvImp(nt&0x80 != 0 && nt&0x10 != 0, len(r) > 0 && r[0] == byte(nt&0xF)) &&
		gvImp(nt&0x80 != 0 && nt&0x10 != 0, gvForall(0, len(encoded), func(k int) bool {
			return 2*k+2 < len(r) && r[2*k+1] == encoded[k]>>4 && r[2*k+2] == encoded[k]&0xF
		})))
	gvEnsures("new slice", r == nil || gvFresh(r))
}

//gvc:inv keystringToPrefix
func inv_keystringToPrefixAt(nt NodeType, i int, j int) bool {
	return i == 2*j+gvIte(nt&0x10 != 0, 1, 0)
}

//gvc:inv keystringToPrefix
func inv_keystringToPrefixMade(nt NodeType, encoded []byte, r []byte) bool {
	return len(r) == 2*len(encoded)+gvIte(nt&0x10 != 0, 1, 0)
}

//gvc:inv keystringToPrefix
func inv_keystringToPrefixGrown(nt NodeType, encoded []byte, r []byte, j int) bool {
	return len(r) == 2*j+gvIte(nt&0x10 != 0, 1, 0) && j <= len(encoded) && r != nil && gvFresh(r)
}

//gvc:inv keystringToPrefix
func inv_keystringToPrefix(nt NodeType, encoded []byte, r []byte, j int) bool {
	o := 0
	if nt&0x10 != 0 {
		o = 1
	}
	return gvForall(0, j, func(k int) bool {
		return r[2*k+o] == encoded[k]>>4 && r[2*k+1+o] == encoded[k]&0xF
	})
}

//gvc:inv keystringToPrefix
func inv_keystringToPrefix2(nt NodeType, r []byte, j int) bool {
	return nt&0x10 == 0 || r[0] == byte(nt&0xF)
}

//gvc:lemma C11
func l_headerPrefixRoundtrip(prefix []byte, j int) {
	gvRequires(gvForall(0, len(prefix), func(k int) bool { return prefix[k] < 16 }))
	gvRequires(len(prefix) < 1<<40)
	gvRequires(j >= 0 && j < len(prefix)/2)
	n := &node{prefix: prefix}
	e := prefixToKeystring(prefix)
	r := keystringToPrefix(n.ntype(), e)
	gvEnsures("a node prefix survives the trip through the node header", len(r) == len(prefix))
	if len(prefix)%2 == 0 {
		gvAssert("packed", e[j] == prefix[2*j]<<4|prefix[2*j+1])
		gvEnsures("even: nibble by nibble", prefix[2*j] == r[2*j] && prefix[2*j+1] == r[2*j+1])
	} else {
		gvAssert("packed", e[j] == prefix[1+2*j]<<4|prefix[2*j+2])
		gvEnsures("odd: nibble by nibble", prefix[0] == r[0] && prefix[1+2*j] == r[1+2*j] && prefix[2*j+2] == r[2*j+2])
	}
}

func gen_l_headerPrefixRoundtrip(r *rand.Rand) ([]byte, int) {
	b := gen_c_prefixToKey(r)
	if len(b) < 2 {
		return b, 0
	}
	return b, r.Intn(len(b) / 2)
}

//gvc:contract C11
//gvc:target hexbyteToValuebyte
func c_hexbyteToValuebyte(h byte) {
	v := hexbyteToValuebyte(h)
	dec := h >= '0' && h <= '9'
	low := h >= 'a' && h <= 'f'
	up := h >= 'A' && h <= 'F'
	gvEnsures("value of the digit, 16 for anything else", gvImp(dec, v == h-'0') && gvImp(low, v == h-'a'+10) &&
		gvImp(up, v == h-'A'+10) && gvImp(!dec && !low && !up, v == 16))
}

//gvc:contract C11
//gvc:target valuebyteToHexbyte
func c_valuebyteToHexbyte(v byte) {
	gvRequires(gvHexTable())
	h := valuebyteToHexbyte(v)
	gvEnsures("upper case digit of the low nibble", gvImp(v&0xF < 10, h == '0'+v&0xF) && gvImp(v&0xF >= 10, h == 'A'+v&0xF-10))
}

// the table is written once, at package initialisation
func gvHexTable() bool {
	return valuebyteToHexbyteArray == [16]byte{'0', '1', '2', '3', '4', '5', '6', '7', '8', '9', 'A', 'B', 'C', 'D', 'E', 'F'}
}

//gvc:lemma C11
func l_hexDigitRoundtrip(v byte) {
	gvRequires(gvHexTable())
	gvRequires(v < 16)
	gvEnsures("digit and value are inverse", hexbyteToValuebyte(valuebyteToHexbyte(v)) == v)
}

//gvc:contract C11
//gvc:target prefixToHexstring
func c_prefixToHexstring(prefix []byte) {
	gvRequires(gvHexTable())
	r := prefixToHexstring(prefix)
	gvEnsures("one digit per nibble", len(r) == len(prefix) && gvForall(0, len(prefix), func(k int) bool {
		return r[k] == valuebyteToHexbyteArray[prefix[k]&0xF]
	}))
}

//gvc:inv prefixToHexstring
func inv_prefixToHexstring(prefix []byte, ret []byte, i int) bool {
	return gvForall(0, i, func(k int) bool { return ret[k] == valuebyteToHexbyteArray[prefix[k]&0xF] })
}

//gvc:contract C11
//gvc:target hexstringToPrefix
//gvc:inline hexbyteToValuebyte
func c_hexstringToPrefix(s []byte) {
	r := hexstringToPrefix(s)
	gvEnsures("one nibble per digit", len(r) == len(s) && gvForall(0, len(s), func(k int) bool {
		return r[k] == gvHexVal(s[k])
	}))
}

func gvHexVal(h byte) byte {
	if h >= '0' && h <= '9' {
		return h - '0'
	}
	if h >= 'a' && h <= 'f' {
		return h - 'a' + 10
	}
	if h >= 'A' && h <= 'F' {
		return h - 'A' + 10
	}
	return 16
}

//gvc:inv hexstringToPrefix
func inv_hexstringToPrefix(s []byte, ret []byte, i int) bool {
	return gvForall(0, i, func(k int) bool { return ret[k] == gvHexVal(s[k]) })
}

//gvc:contract C11
//gvc:target node.ntype
func c_node_ntype(n *node) {
	gvRequires(n != nil)
	t := n.ntype()
	gvEnsures("prefix flag", (t&0x80 != 0) == (len(n.prefix) > 0))
	gvEnsures("parity flag", (t&0x10 != 0) == (len(n.prefix)%2 == 1))
	gvEnsures("first nibble of an odd prefix", gvImp(len(n.prefix)%2 == 0, t&0xF == 0) && (len(n.prefix)%2 == 0 || byte(t&0xF) == n.prefix[0]&0xF))
	gvEnsures("children flag", (t&0x40 != 0) == gvExists(0, 16, func(i int) bool { return n.children[i] != nil }))
	gvEnsures("value flag", (t&0x20 != 0) == (n.value != nil))
}

//gvc:contract C11
//gvc:target newNodeHeader
//gvc:unroll 17
func c_newNodeHeader(n *node, i int) {
	gvRequires(n != nil && i >= 0 && i < 16)
	h := newNodeHeader(n)
	gvEnsures("the header names exactly the children there are", h.HasChild(i) == (n.children[i] != nil))
	gvEnsures("type of the node", h.NT == n.ntype())
	gvEnsures("compact prefix", gvEqBytes(h.KeyString, prefixToKeystring(n.prefix)))
}

//gvc:contract C11
//gvc:target NodeHeader.Equal
func c_NodeHeader_Equal(h, o NodeHeader) {
	r := h.Equal(o)
	gvEnsures("all parts equal", r == (h.NT == o.NT && bytes.Equal(h.KeyString, o.KeyString) && h.ChildrenFlag[0] == o.ChildrenFlag[0] && h.ChildrenFlag[1] == o.ChildrenFlag[1]))
}

//gvc:contract C11
//gvc:target NodeHeader.Clone
func c_NodeHeader_Clone(h NodeHeader) {
	r := h.Clone()
	gvEnsures("equal", r.NT == h.NT && r.ChildrenFlag == h.ChildrenFlag && gvEqBytes(r.KeyString, h.KeyString) && (r.KeyString == nil) == (h.KeyString == nil))
	gvEnsures("own memory", r.KeyString == nil || gvFresh(r.KeyString))
}

//gvc:contract C11
//gvc:target NodeHeader.HasChild
func c_NodeHeader_HasChild(h NodeHeader, index int) {
	gvRequires(index >= 0 && index < 16)
	r := h.HasChild(index)
	gvEnsures("bit of the flag, only when there are children", r == (h.NT&0x40 != 0 && h.ChildrenFlag[index/8]>>uint(index%8)&1 == 1))
}
