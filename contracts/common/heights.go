package common

import (
	"encoding/binary"
	"math/big"

	math2 "github.com/ThinkiumGroup/go-common/math"
)

// the shared big-integer constants hold their initial values
func gvBigConsts() bool {
	return math2.BigMaxUint64 != nil && math2.BigMaxUint64.Sign() > 0 && math2.BigMaxUint64.IsUint64() && math2.BigMaxUint64.Uint64() == math2.MaxUint64
}

//gvc:contract C02
//gvc:bounded one evaluation of the package initialisers (exact)
func b_defaults() {
	gvEnsures("initial big-integer constants", gvBigConsts())
	gvEnsures("initial epoch and era lengths are in the verified range", gvDefaults())
}

// C02: heights, epochs, eras and block numbers (default epoch/era length)

func gvDefaults() bool { return BlocksInEpoch > 0 && BlocksInEpoch <= 1<<32 && EpochsInEra > 0 && EpochsInEra <= 1<<31 }

//gvc:contract C02
//gvc:target Height.Split
func c_Height_Split(h Height) {
	gvRequires(gvDefaults())
	e, b := h.Split()
	gvEnsures("nil height splits to nil", gvImp(h == NilHeight, e == NilEpoch && b == NilBlock))
	gvEnsures("block number inside the epoch", gvImp(h != NilHeight, uint64(b) < BlocksInEpoch))
	gvEnsures("epoch and block recompose the height", gvImp(h != NilHeight, uint64(e)*BlocksInEpoch+uint64(b) == uint64(h)))
	gvEnsures("epoch is the quotient", gvImp(h != NilHeight, uint64(e) == uint64(h)/BlocksInEpoch))
}

//gvc:contract C02
//gvc:target ToHeight
func c_ToHeight(e EpochNum, b BlockNum) {
	gvRequires(gvDefaults())
	h := ToHeight(e, b)
	gvEnsures("nil or out of range parts give nil", gvImp(e == NilEpoch || uint64(b) >= BlocksInEpoch, h == NilHeight))
	gvEnsures("overflowing parts give nil", gvImp(uint64(e) > uint64(NilHeight)/BlocksInEpoch || uint64(b) > uint64(NilHeight)-uint64(e)*BlocksInEpoch, h == NilHeight))
	gvEnsures("height is epoch*length+block", gvImp(uint64(b) < BlocksInEpoch && uint64(e) <= uint64(NilHeight)/BlocksInEpoch && uint64(b) <= uint64(NilHeight)-uint64(e)*BlocksInEpoch,
		uint64(h) == uint64(e)*BlocksInEpoch+uint64(b)))
}

//gvc:lemma C02
func l_Split_ToHeight(h Height) {
	gvRequires(gvDefaults() && h != NilHeight)
	e, b := h.Split()
	gvEnsures("splitting then joining gives the height back", ToHeight(e, b) == h)
}

//gvc:lemma C02
func l_ToHeight_Split(e EpochNum, b BlockNum) {
	gvRequires(gvDefaults())
	h := ToHeight(e, b)
	gvRequires(h != NilHeight)
	e2, b2 := h.Split()
	gvEnsures("joining then splitting gives the parts back", e2 == e && b2 == b)
}

//gvc:contract C02
//gvc:target Height.EraNum
func c_Height_EraNum(h Height) {
	gvRequires(gvDefaults())
	e := h.EraNum()
	gvEnsures("nil iff nil", (e == NilEra) == (h == NilHeight))
	gvEnsures("era contains the height", gvImp(h != NilHeight, uint64(e)*(BlocksInEpoch*EpochsInEra) <= uint64(h) && uint64(h)-uint64(e)*(BlocksInEpoch*EpochsInEra) < (BlocksInEpoch*EpochsInEra)))
}

//gvc:contract C02
//gvc:target Height.EpochNum
func c_Height_EpochNum(h Height) {
	gvRequires(gvDefaults())
	e := h.EpochNum()
	s, _ := h.Split()
	gvEnsures("same epoch as Split", e == s)
}

//gvc:contract C02
//gvc:target Height.UsefulEpoch
func c_Height_UsefulEpoch(h Height) {
	gvRequires(gvDefaults())
	e := h.UsefulEpoch()
	s, _ := h.Split()
	gvEnsures("epoch or zero", gvImp(h == NilHeight, e == 0) && gvImp(h != NilHeight, e == s))
}

//gvc:contract C02
//gvc:target Height.BlockNum
func c_Height_BlockNum(h Height) {
	gvRequires(gvDefaults())
	b := h.BlockNum()
	_, s := h.Split()
	gvEnsures("same block as Split", b == s)
}

//gvc:contract C02
//gvc:target Height.UsefulBlock
func c_Height_UsefulBlock(h Height) {
	gvRequires(gvDefaults())
	b := h.UsefulBlock()
	_, s := h.Split()
	gvEnsures("block or zero", gvImp(h == NilHeight, b == 0) && gvImp(h != NilHeight, b == s))
}

//gvc:contract C02
//gvc:target Height.IsFirstOfEpoch
func c_Height_IsFirst(h Height) {
	gvRequires(gvDefaults())
	r := h.IsFirstOfEpoch()
	_, b := h.Split()
	gvEnsures("exactly block zero of a non-nil height", r == (h != NilHeight && b == 0))
}

//gvc:contract C02
//gvc:target Height.IsLastOfEpoch
func c_Height_IsLast(h Height) {
	gvRequires(gvDefaults())
	r := h.IsLastOfEpoch()
	_, b := h.Split()
	gvEnsures("exactly the last block of a non-nil height", r == (h != NilHeight && uint64(b) == BlocksInEpoch-1))
}

//gvc:contract C02
//gvc:target EpochNum.FirstHeight
func c_Epoch_FirstHeight(e EpochNum) {
	gvRequires(gvDefaults())
	h := e.FirstHeight()
	gvEnsures("first block of the epoch", h == ToHeight(e, 0))
}

//gvc:contract C02
//gvc:target EpochNum.LastHeight
func c_Epoch_LastHeight(e EpochNum) {
	gvRequires(gvDefaults())
	h := e.LastHeight()
	gvEnsures("last block of the epoch", h == ToHeight(e, BlockNum(BlocksInEpoch-1)))
}

//gvc:lemma C02
func l_epoch_bounds(h Height) {
	gvRequires(gvDefaults() && h != NilHeight)
	e := h.EpochNum()
	f, l := e.FirstHeight(), e.LastHeight()
	gvEnsures("a height lies between the first and last height of its epoch", f != NilHeight && f <= h && (l == NilHeight || h <= l))
	gvEnsures("the bounds belong to the epoch", f.EpochNum() == e && gvImp(l != NilHeight, l.EpochNum() == e && f.IsFirstOfEpoch() && l.IsLastOfEpoch()))
}

//gvc:contract C02
//gvc:target BlockNum.IsValid
func c_Block_IsValid(b BlockNum) {
	r := b.IsValid()
	gvEnsures("below the epoch length", r == (uint64(b) < BlocksInEpoch))
}

//gvc:contract C02
//gvc:target BlockNum.IsFirstOfEpoch
func c_Block_IsFirst(b BlockNum) {
	r := b.IsFirstOfEpoch()
	gvEnsures("zero", r == (b == 0))
}

//gvc:contract C02
//gvc:target BlockNum.IsLastOfEpoch
func c_Block_IsLast(b BlockNum) {
	gvRequires(gvDefaults())
	r := b.IsLastOfEpoch()
	gvEnsures("last index", r == (uint64(b) == BlocksInEpoch-1))
}

//gvc:contract C02
//gvc:target Height.RemoveRemainder
func c_Height_RemoveRemainder(h, n Height) {
	gvRequires(gvDefaults())
	r := h.RemoveRemainder(n)
	gvEnsures("nil stays nil", gvImp(h == NilHeight, r == NilHeight))
	gvEnsures("units are the identity", gvImp(n <= 1, r == h))
	gvEnsures("largest multiple not above h", gvImp(h != NilHeight && n > 1, r <= h && h-r < n && r == h/n*n))
}

//gvc:contract C02
//gvc:target Height.FromBig
func c_Height_FromBig(h Height, bi *big.Int) {
	gvRequires(gvBigConsts())
	r, ok := h.FromBig(bi)
	gvEnsures("accepted exactly in the uint64 range", ok == (bi != nil && bi.Sign() >= 0 && bi.IsUint64()))
	gvEnsures("value kept", !ok || uint64(r) == bi.Uint64())
	gvEnsures("otherwise nil height", gvImp(!ok, r == NilHeight))
}

// big-endian codecs

//gvc:contract C01,C02
//gvc:target Height.Bytes
func c_Height_Bytes(h Height) {
	b := h.Bytes()
	gvEnsures("eight big-endian bytes", len(b) == 8 && binary.BigEndian.Uint64(b) == uint64(h))
	gvEnsures("fresh memory", gvFresh(b))
}

//gvc:contract C01,C02
//gvc:target EpochNum.Bytes
func c_Epoch_Bytes(e EpochNum) {
	b := e.Bytes()
	gvEnsures("eight big-endian bytes", len(b) == 8 && binary.BigEndian.Uint64(b) == uint64(e))
}

//gvc:contract C01,C02
//gvc:target EraNum.Bytes
func c_Era_Bytes(e EraNum) {
	b := e.Bytes()
	gvEnsures("eight big-endian bytes", len(b) == 8 && binary.BigEndian.Uint64(b) == uint64(e))
}

//gvc:contract C01,C02
//gvc:target BlockNum.Bytes
func c_Block_Bytes(n BlockNum) {
	b := n.Bytes()
	gvEnsures("four big-endian bytes", len(b) == 4 && binary.BigEndian.Uint32(b) == uint32(n))
}

//gvc:contract C01,C02
//gvc:target BytesToHeight
func c_BytesToHeight(bs []byte) {
	h := BytesToHeight(bs)
	gvEnsures("last eight bytes, big-endian, missing ones zero", gvForall(0, 8, func(k int) bool {
		return byte(h>>uint(8*k)) == gvByteFromEnd(bs, k)
	}))
}

// gvByteFromEnd: k-th byte counted from the end, zero beyond the start
func gvByteFromEnd(bs []byte, k int) byte {
	if k < 0 || k >= len(bs) {
		return 0
	}
	return bs[len(bs)-1-k]
}

// for a loop that shifts the bytes in

func gvShifted(bs []byte, n uint64, i, k int) bool {
	if k < i {
		return byte(n>>uint(8*k)) == bs[i-1-k]
	}
	return byte(n>>uint(8*k)) == 0
}

//gvc:inv BytesToHeight
func inv_BytesToHeight(bs []byte, n uint64, gv_i int) bool {
	return gvShifted(bs, n, gv_i, 0) && gvShifted(bs, n, gv_i, 1) && gvShifted(bs, n, gv_i, 2) && gvShifted(bs, n, gv_i, 3) &&
		gvShifted(bs, n, gv_i, 4) && gvShifted(bs, n, gv_i, 5) && gvShifted(bs, n, gv_i, 6) && gvShifted(bs, n, gv_i, 7)
}

//gvc:inv BytesToHeight
func inv_BytesToHeight2(bs []byte, gv_i int) bool {
	return gv_i <= 8 && len(bs) <= 8
}

//gvc:lemma C01,C02
func l_Height_bytes(h Height) {
	gvEnsures("bytes round trip", BytesToHeight(h.Bytes()) == h)
}

//gvc:contract C01,C02
//gvc:target Height.Slice
func c_Height_Slice(h *Height) {
	b := h.Slice()
	gvEnsures("nil or eight bytes", gvImp(h == nil, b == nil) && gvImp(h != nil, len(b) == 8))
	if h != nil {
		gvEnsures("big-endian value", binary.BigEndian.Uint64(b) == uint64(*h))
	}
}

//gvc:contract C01,C02
//gvc:target EraNum.Slice
func c_Era_Slice(h *EraNum) {
	b := h.Slice()
	gvEnsures("nil or eight bytes", gvImp(h == nil, b == nil) && gvImp(h != nil, len(b) == 8))
	if h != nil {
		gvEnsures("big-endian value", binary.BigEndian.Uint64(b) == uint64(*h))
	}
}
