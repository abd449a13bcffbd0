package rlp

import "math/rand"

// C05: the encoder buffer

// gvRoom: bounds that memory imposes on a real buffer
func gvRoom(buf *encBuffer, n int) bool {
	return buf != nil && len(buf.str) < 1<<40 && n < 1<<40 && len(buf.lheads) < 1<<40 && buf.lhsize >= 0 && buf.lhsize < 1<<40
}

func gvRandBuf(r *rand.Rand) *encBuffer {
	b := &encBuffer{lhsize: r.Intn(100)}
	b.str = make([]byte, r.Intn(70), 70+r.Intn(20))
	r.Read(b.str)
	for i := r.Intn(3); i > 0; i-- {
		b.lheads = append(b.lheads, listhead{offset: r.Intn(len(b.str) + 1), size: r.Intn(b.lhsize + 1)})
	}
	return b
}

//gvc:contract C05
//gvc:target encBuffer.size
func c_encBuffer_size(buf *encBuffer) {
	gvRequires(gvRoom(buf, 0))
	r := buf.size()
	gvEnsures("strings and headers", r == len(buf.str)+buf.lhsize)
}

func gen_c_encBuffer_size(r *rand.Rand) *encBuffer { return gvRandBuf(r) }

//gvc:contract C05
//gvc:target encBuffer.reset
func c_encBuffer_reset(buf *encBuffer) {
	gvRequires(buf != nil)
	gvModPtr(buf)
	buf.reset()
	gvEnsures("nothing is left", len(buf.str) == 0 && len(buf.lheads) == 0 && buf.lhsize == 0)
}

func gen_c_encBuffer_reset(r *rand.Rand) *encBuffer { return gvRandBuf(r) }

//gvc:contract C05
//gvc:target encBuffer.Write
func c_encBuffer_Write(buf *encBuffer, b []byte) {
	gvRequires(gvRoom(buf, len(b)))
	gvRequires(len(b) == 0 || !gvSameArray(b, buf.str))
	old := gvClone(buf.str)
	lh := buf.lhsize
	nh := len(buf.lheads)
	gvModPtr(buf)
	gvModCap(buf.str)
	n, err := buf.Write(b)
	gvEnsures("taken whole", n == len(b) && err == nil)
	gvEnsures("what was there stays", len(buf.str) == len(old)+len(b) && gvEqBytes(buf.str[:len(old)], old))
	gvEnsures("followed by the bytes", gvEqBytes(buf.str[len(old):], b))
	gvEnsures("lists stay", buf.lhsize == lh && len(buf.lheads) == nh)
}

func gen_c_encBuffer_Write(r *rand.Rand) (*encBuffer, []byte) { return gvRandBuf(r), gvRandRLP(r) }

//gvc:contract C05
//gvc:target encBuffer.writeBool
func c_encBuffer_writeBool(buf *encBuffer, b bool) {
	gvRequires(gvRoom(buf, 0))
	old := gvClone(buf.str)
	lh := buf.lhsize
	gvModPtr(buf)
	gvModCap(buf.str)
	buf.writeBool(b)
	gvEnsures("what was there stays", len(buf.str) == len(old)+1 && gvEqBytes(buf.str[:len(old)], old))
	gvEnsures("the integer 1 or 0", buf.str[len(old)] == gvBool(b))
	gvEnsures("lists stay", buf.lhsize == lh)
}

func gvBool(b bool) byte {
	if b {
		return 1
	}
	return 0x80
}

func gen_c_encBuffer_writeBool(r *rand.Rand) (*encBuffer, bool) { return gvRandBuf(r), r.Intn(2) == 0 }

//gvc:contract C05
//gvc:target encBuffer.writeUint64
func c_encBuffer_writeUint64(buf *encBuffer, i uint64) {
	gvRequires(gvRoom(buf, 0))
	old := gvClone(buf.str)
	n := len(old)
	lh := buf.lhsize
	gvModPtr(buf)
	gvModCap(buf.str)
	buf.writeUint64(i)
	gvEnsures("what was there stays", len(buf.str) == n+IntSize(i) && gvEqBytes(buf.str[:n], old))
	gvEnsures("zero is the empty string, a small number one byte", gvImp(i == 0, buf.str[n] == 0x80) && gvImp(i > 0 && i < 0x80, buf.str[n] == byte(i)))
	if i >= 0x80 {
		gvEnsures("otherwise its shortest big-endian form as a string", buf.str[n] == 0x80+byte(gvWidth(i)) && gvBE(buf.str[n+1:], gvWidth(i)) == i)
	}
	gvEnsures("lists stay", buf.lhsize == lh)
}

func gen_c_encBuffer_writeUint64(r *rand.Rand) (*encBuffer, uint64) {
	return gvRandBuf(r), r.Uint64() >> uint(r.Intn(64))
}

//gvc:contract C05
//gvc:target encBuffer.encodeStringHeader
func c_encBuffer_encodeStringHeader(buf *encBuffer, size int) {
	gvRequires(gvRoom(buf, size) && size >= 0)
	old := gvClone(buf.str)
	n := len(old)
	lh := buf.lhsize
	gvModPtr(buf)
	gvModCap(buf.str)
	buf.encodeStringHeader(size)
	w := gvWidth(uint64(size))
	gvEnsures("what was there stays", len(buf.str) == n+gvIte(size < 56, 1, 1+w) && gvEqBytes(buf.str[:n], old))
	gvEnsures("short form exactly below 56", gvImp(size < 56, buf.str[n] == 0x80+byte(size)))
	if size >= 56 {
		gvEnsures("long form otherwise", buf.str[n] == 0xB7+byte(w) && gvBE(buf.str[n+1:], w) == uint64(size) && buf.str[n+1] != 0)
	}
	gvEnsures("lists stay", buf.lhsize == lh)
}

func gen_c_encBuffer_encodeStringHeader(r *rand.Rand) (*encBuffer, int) {
	return gvRandBuf(r), r.Intn(1 << 40) >> uint(r.Intn(40))
}

//gvc:contract C05
//gvc:target encBuffer.list
func c_encBuffer_list(buf *encBuffer) {
	gvRequires(gvRoom(buf, 0))
	n := len(buf.str)
	nh := len(buf.lheads)
	lh := buf.lhsize
	gvModPtr(buf)
	gvModCap(buf.lheads)
	r := buf.list()
	gvEnsures("one more header, at the end", r == nh && len(buf.lheads) == nh+1)
	gvEnsures("it remembers where the list starts", buf.lheads[nh].offset == n && buf.lheads[nh].size == lh)
	gvEnsures("nothing is written", len(buf.str) == n && buf.lhsize == lh)
}

func gen_c_encBuffer_list(r *rand.Rand) *encBuffer { return gvRandBuf(r) }

//gvc:contract C05
//gvc:target encBuffer.listEnd
func c_encBuffer_listEnd(buf *encBuffer, index int) {
	gvRequires(gvRoom(buf, 0) && index >= 0 && index < len(buf.lheads))
	off := buf.lheads[index].offset
	hs := buf.lheads[index].size
	gvRequires(off >= 0 && off <= len(buf.str) && hs >= 0 && hs <= buf.lhsize)
	n := len(buf.str)
	nh := len(buf.lheads)
	lh := buf.lhsize
	gvModPtr(buf)
	gvModSlice(buf.lheads[index : index+1])
	buf.listEnd(index)
	size := n + lh - off - hs
	gvEnsures("size of the content: what was written since the start and the headers inside", buf.lheads[index].size == size && buf.lheads[index].offset == off)
	gvEnsures("its header is counted", buf.lhsize == lh+gvIte(size < 56, 1, 1+gvWidth(uint64(size))))
	gvEnsures("nothing else", len(buf.str) == n && len(buf.lheads) == nh)
}

func gen_c_encBuffer_listEnd(r *rand.Rand) (*encBuffer, int) {
	b := gvRandBuf(r)
	return b, r.Intn(len(b.lheads) + 1)
}

//gvc:contract C05
//gvc:target listhead.encode
func c_listhead_encode(head *listhead, buf []byte) {
	gvRequires(head != nil && head.size >= 0 && len(buf) >= 9)
	size := uint64(head.size)
	gvModSlice(buf[:9])
	r := head.encode(buf)
	n := gvWidth(size)
	gvEnsures("the front of the buffer", gvSliceOf(r, buf, 0, gvIte(size < 56, 1, 1+n)))
	gvEnsures("short form exactly below 56", gvImp(size < 56, buf[0] == 0xC0+byte(size)))
	gvEnsures("long form otherwise", gvImp(size >= 56, buf[0] == 0xF7+byte(n) && gvBE(buf[1:], n) == size && buf[1] != 0))
}

func gen_c_listhead_encode(r *rand.Rand) (*listhead, []byte) {
	return &listhead{size: r.Intn(1 << 40) >> uint(r.Intn(40))}, make([]byte, 9+r.Intn(3))
}

//gvc:lemma C05
func l_writeRoundTrip(i uint64) {
	buf := new(encBuffer)
	buf.writeUint64(i)
	x, rest, err := SplitUint64(buf.str)
	gvEnsures("an integer survives", err == nil && x == i && len(rest) == 0)
}

//gvc:contract C05
//gvc:target listIterator.Next
func c_listIterator_Next(it *listIterator) {
	gvRequires(it != nil)
	d := it.data
	gvModPtr(it)
	more := it.Next()
	ok, _, tag, size := gvKind(d)
	gvEnsures("at the end exactly when nothing is left", more == (len(d) > 0))
	gvEnsures("the next value", !ok || gvSliceOf(it.next, d, 0, int(tag+size)) && gvSliceOf(it.data, d, int(tag+size), len(d)) && it.err == nil)
	gvEnsures("a broken value is reported and not passed over", ok || len(d) == 0 || it.err != nil && len(it.next) == 0 && gvSliceOf(it.data, d, 0, len(d)))
}

func gen_c_listIterator_Next(r *rand.Rand) *listIterator { return &listIterator{data: gvRandRLP(r)} }

//gvc:contract C05
//gvc:target NewListIterator
func c_NewListIterator(data RawValue) {
	it, err := NewListIterator(data)
	ok, k, tag, size := gvKind(data)
	gvEnsures("accepted exactly for a canonical list", (err == nil) == (ok && k == List) && (it != nil) == (err == nil))
	gvEnsures("over its content", err != nil || gvSliceOf(it.data, data, int(tag), int(tag+size)))
}

func gen_c_NewListIterator(r *rand.Rand) RawValue { return gvRandRLP(r) }
