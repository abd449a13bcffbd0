package rlp

import "math/rand"

// C05: the raw layer of RLP

// gvWidth: bytes of the shortest big-endian form of x (at least one)
func gvWidth(x uint64) int {
	switch {
	case x < 1<<8:
		return 1
	case x < 1<<16:
		return 2
	case x < 1<<24:
		return 3
	case x < 1<<32:
		return 4
	case x < 1<<40:
		return 5
	case x < 1<<48:
		return 6
	case x < 1<<56:
		return 7
	}
	return 8
}

// gvBE: the first n (1 to 8) bytes of b as a big-endian number
func gvBE(b []byte, n int) uint64 {
	x := uint64(b[0])
	if n > 1 {
		x = x<<8 | uint64(b[1])
	}
	if n > 2 {
		x = x<<8 | uint64(b[2])
	}
	if n > 3 {
		x = x<<8 | uint64(b[3])
	}
	if n > 4 {
		x = x<<8 | uint64(b[4])
	}
	if n > 5 {
		x = x<<8 | uint64(b[5])
	}
	if n > 6 {
		x = x<<8 | uint64(b[6])
	}
	if n > 7 {
		x = x<<8 | uint64(b[7])
	}
	return x
}

// gvLong: b holds a long header (first byte base+n) with a canonical size
func gvLong(b []byte, n int) bool {
	return len(b) > n && b[1] != 0 && gvBE(b[1:], n) >= 56 && gvBE(b[1:], n) <= uint64(len(b)-1-n)
}

// gvKind: is there a canonical value at the start of b, and which one
func gvKind(b []byte) (ok bool, k Kind, tag, size uint64) {
	if len(b) == 0 {
		return false, 0, 0, 0
	}
	t := b[0]
	if t < 0x80 {
		return true, Byte, 0, 1
	}
	if t <= 0xB7 {
		n := int(t) - 0x80
		return n < len(b) && !(n == 1 && b[1] < 0x80), String, 1, uint64(n)
	}
	if t <= 0xBF {
		n := int(t) - 0xB7
		if !gvLong(b, n) {
			return false, 0, 0, 0
		}
		return true, String, uint64(1 + n), gvBE(b[1:], n)
	}
	if t <= 0xF7 {
		n := int(t) - 0xC0
		return n < len(b), List, 1, uint64(n)
	}
	n := int(t) - 0xF7
	if !gvLong(b, n) {
		return false, 0, 0, 0
	}
	return true, List, uint64(1 + n), gvBE(b[1:], n)
}

func gvRandRLP(r *rand.Rand) []byte {
	body := make([]byte, []int{0, 1, 2, 8, 9, 54, 55, 56, 57, 255, 256, 300}[r.Intn(12)])
	r.Read(body)
	if len(body) > 0 && r.Intn(3) == 0 {
		body[0] = byte(r.Intn(3))
	}
	var b []byte
	base := []byte{0x80, 0xC0}[r.Intn(2)]
	if len(body) < 56 && r.Intn(6) > 0 {
		b = append(b, base+byte(len(body)))
	} else {
		n := 1 + r.Intn(3)
		b = append(b, base+55+byte(n))
		for i := n - 1; i >= 0; i-- {
			b = append(b, byte(len(body)>>uint(8*i)))
		}
	}
	b = append(b, body...)
	switch r.Intn(6) {
	case 0:
		b = b[:r.Intn(len(b)+1)]
	case 1:
		b = append(b, byte(r.Intn(256)))
	case 2:
		b = body
	}
	return b
}

//gvc:contract C05
//gvc:target readSize
func c_readSize(b []byte, n byte) {
	gvRequires(n >= 1 && n <= 8)
	s, err := readSize(b, n)
	ok := len(b) >= int(n) && b[0] != 0 && gvBE(b, int(n)) >= 56
	gvEnsures("accepted exactly when all there, without leading zero and not short", (err == nil) == ok)
	gvEnsures("the big-endian number", err != nil || s == gvBE(b, int(n)))
}

func gen_c_readSize(r *rand.Rand) ([]byte, byte) {
	b := make([]byte, r.Intn(10))
	r.Read(b)
	if len(b) > 0 && r.Intn(2) == 0 {
		b[0] = byte(r.Intn(3))
	}
	return b, byte(1 + r.Intn(8))
}

//gvc:contract C05
//gvc:target readKind
func c_readKind(b []byte) {
	k, tag, size, err := readKind(b)
	ok, wk, wtag, wsize := gvKind(b)
	gvEnsures("accepted exactly when canonical and complete", (err == nil) == ok)
	gvEnsures("kind, header length and content length", err != nil || k == wk && tag == wtag && size == wsize)
	gvEnsures("no sizes on failure", err == nil || tag == 0 && size == 0)
	gvEnsures("all inside the input", err != nil || tag <= 9 && size <= uint64(len(b)) && tag+size <= uint64(len(b)) && tag+size > 0)
}

func gen_c_readKind(r *rand.Rand) []byte { return gvRandRLP(r) }

//gvc:contract C05
//gvc:target Split
func c_Split(b []byte) {
	k, content, rest, err := Split(b)
	ok, wk, wtag, wsize := gvKind(b)
	gvEnsures("accepted exactly when canonical and complete", (err == nil) == ok)
	gvEnsures("kind", err != nil || k == wk)
	gvEnsures("content", err != nil || gvSliceOf(content, b, int(wtag), int(wtag+wsize)))
	gvEnsures("rest", err != nil || gvSliceOf(rest, b, int(wtag+wsize), len(b)))
	gvEnsures("nothing is consumed on failure", err == nil || content == nil && gvSliceOf(rest, b, 0, len(b)))
}

func gen_c_Split(r *rand.Rand) []byte { return gvRandRLP(r) }

//gvc:contract C05
//gvc:target SplitString
func c_SplitString(b []byte) {
	content, rest, err := SplitString(b)
	ok, wk, wtag, wsize := gvKind(b)
	gvEnsures("accepted exactly for a canonical string", (err == nil) == (ok && wk != List))
	gvEnsures("content", err != nil || gvSliceOf(content, b, int(wtag), int(wtag+wsize)))
	gvEnsures("rest", err != nil || gvSliceOf(rest, b, int(wtag+wsize), len(b)))
	gvEnsures("nothing is consumed on failure", err == nil || content == nil && gvSliceOf(rest, b, 0, len(b)))
}

func gen_c_SplitString(r *rand.Rand) []byte { return gvRandRLP(r) }

//gvc:contract C05
//gvc:target SplitList
func c_SplitList(b []byte) {
	content, rest, err := SplitList(b)
	ok, wk, wtag, wsize := gvKind(b)
	gvEnsures("accepted exactly for a canonical list", (err == nil) == (ok && wk == List))
	gvEnsures("content", err != nil || gvSliceOf(content, b, int(wtag), int(wtag+wsize)))
	gvEnsures("rest", err != nil || gvSliceOf(rest, b, int(wtag+wsize), len(b)))
	gvEnsures("nothing is consumed on failure", err == nil || content == nil && gvSliceOf(rest, b, 0, len(b)))
}

func gen_c_SplitList(r *rand.Rand) []byte { return gvRandRLP(r) }

//gvc:contract C05
//gvc:target SplitUint64
func c_SplitUint64(b []byte) {
	x, rest, err := SplitUint64(b)
	ok, wk, wtag, wsize := gvKind(b)
	ok = ok && wk != List && wsize <= 8 && (wsize == 0 || b[wtag] != 0)
	gvEnsures("accepted exactly for a canonical integer of 64 bits", (err == nil) == ok)
	if ok {
		gvEnsures("its value", (wsize != 0 || x == 0) && (wsize == 0 || x == gvBE(b[wtag:], int(wsize))))
		gvEnsures("rest", gvSliceOf(rest, b, int(wtag+wsize), len(b)))
	} else {
		gvEnsures("nothing is consumed on failure", x == 0 && gvSliceOf(rest, b, 0, len(b)))
	}
}

func gen_c_SplitUint64(r *rand.Rand) []byte { return gvRandRLP(r) }

// gvCount: number of values in b[p:] when all of them are canonical
//
//gvc:rec
func gvCount(b []byte, p int) int {
	if p < 0 || p >= len(b) {
		return 0
	}
	_, _, tag, size := gvKind(b[p:])
	if tag+size == 0 || tag+size > uint64(len(b)-p) {
		return 0
	}
	return 1 + gvCount(b, p+int(tag+size))
}

//gvc:contract C05
//gvc:target CountValues
func c_CountValues(b []byte) {
	n, err := CountValues(b)
	ok, _, _, _ := gvKind(b)
	gvEnsures("not more values than bytes, some when there are bytes", err != nil || n <= len(b) && (n == 0) == (len(b) == 0))
	gvEnsures("no count on failure", err == nil || n == 0)
	gvEnsures("a broken first value is refused", len(b) == 0 || ok || err != nil)
	gvEnsures("every value counted once", err != nil || n == gvCount(b, 0))
}

func gen_c_CountValues(r *rand.Rand) []byte {
	var b []byte
	for i := r.Intn(4); i > 0; i-- {
		b = append(b, gvRandRLP(r)...)
	}
	return b
}

//gvc:contract C05
//gvc:target intsize
//gvc:unroll 9
func c_intsize(x uint64) {
	r := intsize(x)
	gvEnsures("length of the shortest big-endian form", r == gvWidth(x))
}

//gvc:contract C05
//gvc:target headsize
func c_headsize(size uint64) {
	r := headsize(size)
	gvEnsures("length of the header", r == gvIte(size < 56, 1, 1+gvWidth(size)))
}

//gvc:contract C05
//gvc:target putint
func c_putint(b []byte, i uint64, k int) {
	n := gvWidth(i)
	gvRequires(len(b) >= n)
	gvModSlice(b[:n])
	r := putint(b, i)
	gvEnsures("shortest big-endian form", r == n && gvBE(b, n) == i && (n == 1 || b[0] != 0))
}

func gen_c_putint(r *rand.Rand) ([]byte, uint64, int) {
	return make([]byte, 8+r.Intn(3)), r.Uint64() >> uint(r.Intn(64)), 0
}

//gvc:contract C05
//gvc:target puthead
func c_puthead(b []byte, small, large byte, size uint64) {
	gvRequires(len(b) >= 9 && int(small)+55 < 256 && int(large)+8 < 256)
	gvModSlice(b[:9])
	r := puthead(b, small, large, size)
	n := gvWidth(size)
	gvEnsures("short form exactly below 56", gvImp(size < 56, r == 1 && b[0] == small+byte(size)))
	gvEnsures("long form otherwise", gvImp(size >= 56, r == 1+n && b[0] == large+byte(n) && gvBE(b[1:], n) == size && b[1] != 0))
}

func gen_c_puthead(r *rand.Rand) ([]byte, byte, byte, uint64) {
	return make([]byte, 9+r.Intn(3)), 0x80, 0xB7, r.Uint64() >> uint(r.Intn(64))
}

//gvc:contract C05
//gvc:target IntSize
func c_IntSize(x uint64) {
	r := IntSize(x)
	gvEnsures("length of the encoding", r == gvIte(x < 0x80, 1, 1+gvWidth(x)))
}

//gvc:contract C05
//gvc:target ListSize
func c_ListSize(n uint64) {
	r := ListSize(n)
	gvEnsures("header and content", r == n+gvIteU(n < 56, 1, 1+uint64(gvWidth(n))))
}

//gvc:contract C05
//gvc:target BytesSize
func c_BytesSize(b []byte) {
	r := BytesSize(b)
	n := uint64(len(b))
	gvEnsures("a small byte is its own encoding", !(len(b) == 1 && b[0] < 0x80) || r == 1)
	gvEnsures("otherwise header and content", len(b) == 1 && b[0] < 0x80 || r == n+gvIteU(n < 56, 1, 1+uint64(gvWidth(n))))
}

func gen_c_BytesSize(r *rand.Rand) []byte { return gvRandRLP(r) }

//gvc:contract C05
//gvc:target StringSize
func c_StringSize(s string) {
	r := StringSize(s)
	n := uint64(len(s))
	gvEnsures("a small byte is its own encoding", !(len(s) == 1 && s[0] < 0x80) || r == 1)
	gvEnsures("otherwise header and content", len(s) == 1 && s[0] < 0x80 || r == n+gvIteU(n < 56, 1, 1+uint64(gvWidth(n))))
}

func gen_c_StringSize(r *rand.Rand) string { return string(gvRandRLP(r)) }

//gvc:contract C05
//gvc:target AppendUint64
func c_AppendUint64(b []byte, i uint64) {
	gvRequires(len(b) < 1<<40)
	old := gvClone(b)
	gvModCap(b)
	r := AppendUint64(b, i)
	n := len(old)
	gvEnsures("what was there stays", len(r) == n+IntSize(i) && gvEqBytes(r[:n], old))
	gvEnsures("zero is the empty string, a small number one byte", gvImp(i == 0, r[n] == 0x80) && gvImp(i > 0 && i < 0x80, r[n] == byte(i)))
	gvEnsures("otherwise its shortest big-endian form as a string", gvImp(i >= 0x80, r[n] == 0x80+byte(gvWidth(i)) && gvBE(r[n+1:], gvWidth(i)) == i))
}

func gen_c_AppendUint64(r *rand.Rand) ([]byte, uint64) {
	return make([]byte, r.Intn(5), 5+r.Intn(10)), r.Uint64() >> uint(r.Intn(64))
}

//gvc:lemma C05
func l_uint64RoundTrip(i uint64) {
	b := AppendUint64(nil, i)
	x, rest, err := SplitUint64(b)
	gvEnsures("an integer survives", err == nil && x == i && len(rest) == 0)
	gvEnsures("its size was stated", len(b) == IntSize(i))
}

//gvc:lemma C05
func l_headRoundTrip(b []byte, size uint64, list bool) {
	gvRequires(len(b) >= 9 && size <= uint64(len(b)-9))
	gvModSlice(b[:9])
	var n int
	if list {
		n = puthead(b, 0xC0, 0xF7, size)
	} else {
		n = puthead(b, 0x80, 0xB7, size)
	}
	gvEnsures("length of the header", n == headsize(size))
	k, tag, s, err := readKind(b)
	small := !list && size == 1 && b[1] < 0x80
	gvEnsures("a header is read back", small || err == nil && tag == uint64(n) && s == size && (k == List) == list)
	gvEnsures("a small byte must stand for itself", !small || err != nil)
}

//gvc:inv CountValues
func inv_CountValues1(entry_b []byte, b []byte, i int) bool {
	return 0 <= i && i <= len(entry_b) && len(b) <= len(entry_b)-i
}

//gvc:inv CountValues
func inv_CountValues2(entry_b []byte, b []byte) bool {
	return gvSliceOf(b, entry_b, len(entry_b)-len(b), len(entry_b))
}

//gvc:inv CountValues
func inv_CountValues3(entry_b []byte, b []byte, i int) bool {
	return i+gvCount(entry_b, len(entry_b)-len(b)) == gvCount(entry_b, 0)
}

//gvc:inv CountValues
func inv_CountValues4(entry_b []byte, b []byte, i int) bool {
	return i > 0 || len(b) == len(entry_b)
}

//gvc:inv CountValues
func inv_CountValues5(entry_b []byte, i int) bool {
	ok, _, _, _ := gvKind(entry_b)
	return i == 0 || ok
}
