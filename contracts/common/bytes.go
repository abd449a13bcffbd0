package common

import "math/rand"

// C17: byte-string utilities

//gvc:contract C17
//gvc:target CopyBytes
func c_CopyBytes(b []byte) {
	r := CopyBytes(b)
	gvEnsures("nil stays nil, otherwise not nil", (r == nil) == (b == nil))
	gvEnsures("same content", gvEqBytes(r, b))
	gvEnsures("own memory", gvFresh(r))
}

//gvc:contract C17
//gvc:target CloneByteSlice
func c_CloneByteSlice(b []byte) {
	r := CloneByteSlice(b)
	gvEnsures("nil stays nil, otherwise not nil", (r == nil) == (b == nil))
	gvEnsures("same content", gvEqBytes(r, b))
	gvEnsures("own memory", gvFresh(r))
}

//gvc:contract C17
//gvc:target ReverseBytes
func c_ReverseBytes(bs []byte) {
	gvModSlice(bs)
	old := gvClone(bs)
	r := ReverseBytes(bs)
	gvEnsures("in place", gvSliceOf(r, bs, 0, len(bs)) && len(bs) == len(old))
	gvEnsures("reversed", gvForall(0, len(bs), func(k int) bool { return bs[k] == old[len(old)-1-k] }))
}

//gvc:inv ReverseBytes
func inv_ReverseBytes(entry_old []byte, entry_bs []byte, j int) bool {
	return gvForall(0, len(entry_bs), func(k int) bool {
		return entry_bs[k] == gvByteIte(k < j || k >= len(entry_bs)-j, entry_old[len(entry_old)-1-k], entry_old[k])
	})
}

func gvByteIte(c bool, a, b byte) byte {
	if c {
		return a
	}
	return b
}

//gvc:contract C17
//gvc:target RightPadBytes
func c_RightPadBytes(s []byte, l int) {
	gvRequires(l < 1<<40)
	gvOracleOnly(l < 1<<20)
	r := RightPadBytes(s, l)
	gvEnsures("at least l bytes", gvImp(l <= len(s), gvSliceOf(r, s, 0, len(s))) && gvImp(l > len(s), len(r) == l))
	gvEnsures("content first, zeros after", gvForall(0, len(r), func(k int) bool {
		return k < len(s) && r[k] == s[k] || k >= len(s) && r[k] == 0
	}))
}

//gvc:contract C17
//gvc:target LeftPadBytes
func c_LeftPadBytes(s []byte, l int) {
	gvRequires(l < 1<<40)
	gvOracleOnly(l < 1<<20)
	r := LeftPadBytes(s, l)
	gvEnsures("at least l bytes", gvImp(l <= len(s), gvSliceOf(r, s, 0, len(s))) && gvImp(l > len(s), len(r) == l))
	gvEnsures("zeros first, content after", gvForall(0, len(r), func(k int) bool { return r[k] == gvByteFromEnd(s, len(r)-1-k) }))
}

func gen_c_RightPadBytes(r *rand.Rand) ([]byte, int) {
	s := make([]byte, r.Intn(40))
	r.Read(s)
	return s, r.Intn(60) - 3
}

func gen_c_LeftPadBytes(r *rand.Rand) ([]byte, int) { return gen_c_RightPadBytes(r) }

//gvc:contract C17
//gvc:target SplitBytes
func c_SplitBytes(bs []byte, size int) {
	r, err := SplitBytes(bs, size)
	gvEnsures("accepted exactly for a positive divisor of the length", (err == nil) == (size > 0 && len(bs)%gvIte(size > 0, size, 1) == 0))
	gvEnsures("as many parts as fit", gvImp(err == nil, len(r)*size == len(bs)))
	gvEnsures("parts share no memory with the input", gvForall(0, len(r), func(i int) bool { return gvFresh(r[i]) }))
	gvEnsures("parts are consecutive copies", gvImp(err == nil, gvForall(0, len(r), func(i int) bool {
		return len(r[i]) == size && gvEqBytes(r[i], bs[i*size:i*size+size])
	})))
}

//gvc:inv SplitBytes
func inv_SplitBytes(entry_bs []byte, entry_size int, r [][]byte, p int) bool {
	n := len(entry_bs) / entry_size
	return n*entry_size == len(entry_bs) && len(r)*entry_size == p && p >= 0 && p <= len(entry_bs) && len(r) >= 0 && len(r) <= n
}

// for a loop that cuts the parts off the rest

//gvc:inv SplitBytes
func inv_SplitBytesRest(entry_bs []byte, entry_size int, r [][]byte, rest []byte) bool {
	n := len(entry_bs) / entry_size
	return n*entry_size == len(entry_bs) && len(r)*entry_size+len(rest) == len(entry_bs) && len(r) <= n &&
		gvSliceOf(rest, entry_bs, len(r)*entry_size, len(entry_bs))
}

//gvc:inv SplitBytes
func inv_SplitBytes2(entry_bs []byte, entry_size int, r [][]byte) bool {
	return gvForall(0, len(r), func(i int) bool {
		return gvFresh(r[i]) && len(r[i]) == entry_size && i*entry_size+entry_size <= len(entry_bs) && gvEqBytes(r[i], entry_bs[i*entry_size:i*entry_size+entry_size])
	})
}

// gvTotal: length of the concatenation of the first n parts
//
//gvc:rec
func gvTotal(bss [][]byte, n int) int {
	if n <= 0 {
		return 0
	}
	return gvTotal(bss, n-1) + len(bss[n-1])
}

//gvc:contract C17
//gvc:target ConcatenateBytes
func c_ConcatenateBytes(bss [][]byte) {
	gvRequires(len(bss) < 1<<20 && gvForall(0, len(bss), func(i int) bool { return len(bss[i]) < 1<<24 }))
	r := ConcatenateBytes(bss)
	gvEnsures("total length", len(r) == gvTotal(bss, len(bss)))
	gvEnsures("every part at its offset", gvForall(0, len(bss), func(i int) bool {
		return gvForall(0, len(bss[i]), func(k int) bool { return r[gvTotal(bss, i)+k] == bss[i][k] })
	}))
	gvEnsures("never nil and own memory", r != nil && gvFresh(r))
}

//gvc:inv ConcatenateBytes
func inv_Concat1(entry_bss [][]byte, i, size int) bool {
	return size >= 0 && size <= i<<24 && size == gvTotal(entry_bss, i) && gvForall(0, i, func(j int) bool {
		return gvTotal(entry_bss, j) >= 0 && gvTotal(entry_bss, j)+len(entry_bss[j]) <= size
	})
}

//gvc:inv ConcatenateBytes
func inv_Concat2(entry_bss [][]byte, i, p int) bool {
	return p == gvTotal(entry_bss, i) && gvForall(0, i, func(j int) bool {
		return gvTotal(entry_bss, j)+len(entry_bss[j]) <= p
	})
}

// for a loop that appends

//gvc:inv ConcatenateBytes
func inv_ConcatGrown(entry_bss [][]byte, bs []byte, i int) bool {
	return bs != nil && gvFresh(bs) && len(bs) == gvTotal(entry_bss, i) && gvForall(0, i, func(j int) bool {
		return gvTotal(entry_bss, j)+len(entry_bss[j]) <= len(bs)
	})
}

//gvc:inv ConcatenateBytes
func inv_Concat3(entry_bss [][]byte, bs []byte, i int) bool {
	return gvForall(0, i, func(j int) bool {
		return gvForall(0, len(entry_bss[j]), func(k int) bool { return bs[gvTotal(entry_bss, j)+k] == entry_bss[j][k] })
	})
}

//gvc:contract C17
//gvc:target CopyBytesSlice
func c_CopyBytesSlice(in [][]byte) {
	r := CopyBytesSlice(in)
	gvEnsures("nil stays nil", (r == nil) == (in == nil) && len(r) == len(in))
	gvEnsures("every part copied", gvForall(0, len(in), func(i int) bool { return gvEqBytes(r[i], in[i]) && (r[i] == nil) == (in[i] == nil) }))
}

//gvc:inv CopyBytesSlice
func inv_CopyBytesSlice(in, out [][]byte, i int) bool {
	return gvForall(0, i, func(j int) bool { return gvEqBytes(out[j], in[j]) && (out[j] == nil) == (in[j] == nil) })
}

//gvc:contract C17
//gvc:target BytesSliceEqual
func c_BytesSliceEqual(a, b [][]byte) {
	r := BytesSliceEqual(a, b)
	gvEnsures("equal exactly when all parts are", r == (len(a) == len(b) && gvForall(0, len(a), func(i int) bool { return i >= len(b) || gvEqBytes(a[i], b[i]) })))
}

//gvc:inv BytesSliceEqual
func inv_BytesSliceEqual(a, b [][]byte, i int) bool {
	return gvForall(0, i, func(j int) bool { return gvEqBytes(a[j], b[j]) })
}

//gvc:contract C17
//gvc:target ShiftBits
func c_ShiftBits(b0, b1 byte, shifts uint8, length []uint8) {
	r := ShiftBits(b0, b1, shifts, length...)
	n := uint16(8)
	if len(length) > 0 && length[0] > 0 && length[0] < 8 {
		n = uint16(length[0])
	}
	gvEnsures("selected bits of the pair", uint16(r) == (uint16(b1)<<8|uint16(b0))>>(shifts&7)&(1<<n-1))
}

//gvc:contract C17
//gvc:target SubBytes
//gvc:bounded the proof of the bit loop does not finish; checked on random inputs up to 40 bytes
//gvc:inline ShiftBits
func c_SubBytes(bs []byte, from, size int) {
	r, err := SubBytes(bs, from, size)
	gvEnsures("rejected exactly for negative start or empty size", (err != nil) == (from < 0 || size <= 0))
	n := gvIte(from >= 0 && size > 0 && from < 8*len(bs), gvIte(size > 8*len(bs)-from, 8*len(bs)-from, size), 0)
	gvEnsures("rounded up byte length", len(r) == (n+7)/8)
	gvEnsures("the selected bits, low bits last", gvForall(0, len(r), func(j int) bool { return r[len(r)-1-j] == gvBits(bs, from, n, j) }))
}

// gvBits: j-th byte (from the low end) of the n bits of bs starting at bit `from` (counted from the low end)
func gvBits(bs []byte, from, n, j int) byte {
	pair := uint16(gvByteFromEnd(bs, (from+8*j)>>3)) | uint16(gvByteFromEnd(bs, (from+8*j)>>3+1))<<8
	v := byte(pair >> (uint(from) & 7))
	left := n - 8*j
	if left >= 8 {
		return v
	}
	if left <= 0 {
		return 0
	}
	return v & (1<<uint(left) - 1)
}

//gvc:inv SubBytes
func inv_SubBytes(bs []byte, from, size int, rs []byte, i int) bool {
	return i&7 == 0 && i < size+8 && gvForall(0, len(rs), func(j int) bool { return gvImp(8*j < i, rs[len(rs)-1-j] == gvBits(bs, from, size, j)) })
}

//gvc:contract C17
//gvc:target ForPrintSlice
func c_ForPrintSlice(s []byte, startPos, endPos int) {
	gvRequires(startPos >= 0)
	r := ForPrintSlice(s, startPos, endPos)
	gvEnsures("never nil for nil", r != nil || s != nil)
	gvEnsures("a window of the input", gvImp(len(s) > 0, len(r) >= 1 && len(r) <= len(s)) && gvImp(len(s) == 0, len(r) == 0))
}

//gvc:contract C17
//gvc:target IsHexCharacter
func c_IsHexCharacter(c byte) {
	r := IsHexCharacter(c)
	gvEnsures("hex digit", r == (c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F'))
}

//gvc:contract C17
//gvc:target IsHex
func c_IsHex(s string) {
	r := IsHex(s)
	gvEnsures("even and all hex digits", r == (len(s)%2 == 0 && gvForall(0, len(s), func(k int) bool { return IsHexCharacter(s[k]) })))
}

//gvc:inv IsHex
func inv_IsHex(str string, gv_i int) bool {
	return gvForall(0, gv_i, func(k int) bool { return IsHexCharacter(str[k]) })
}

//gvc:contract C17
//gvc:target HasHexPrefix
func c_HasHexPrefix(s string) {
	r := HasHexPrefix(s)
	gvEnsures("0x or 0X", r == (len(s) >= 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X')))
}
