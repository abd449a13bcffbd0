package hexutil

import (
	"encoding/hex"
	"math/rand"
	"strconv"
)

// C16: hexadecimal strings

func gvHexDigit(n byte) byte {
	if n < 10 {
		return '0' + n
	}
	return 'a' + n - 10
}

// gvNib: value of a digit, 255 if it is none
func gvNib(c byte) byte {
	if '0' <= c && c <= '9' {
		return c - '0'
	}
	if 'A' <= c && c <= 'F' {
		return c - 'A' + 10
	}
	if 'a' <= c && c <= 'f' {
		return c - 'a' + 10
	}
	return 255
}

func gvNibbleOf(b []byte, k int) byte {
	if k%2 == 0 {
		return b[k/2] >> 4
	}
	return b[k/2] & 15
}


//gvc:contract C16
//gvc:target Encode
func c_Encode(b []byte) {
	gvRequires(len(b) < 1<<40)
	r := Encode(b)
	gvEnsures("two digits per byte after 0x", len(r) == 2+2*len(b) && r[0] == '0' && r[1] == 'x')
	gvEnsures("high digit first, lower case", gvForall(0, len(b), func(k int) bool {
		return r[2+2*k] == gvHexDigit(b[k]>>4) && r[3+2*k] == gvHexDigit(b[k]&15)
	}))
	gvEnsures("every digit", gvForall(2, len(r), func(k int) bool { return r[k] == gvHexDigit(gvNibbleOf(b, k-2)) }))
}

//gvc:inv c_hexEncode
func inv_hexEncode3(src, dst []byte, j int) bool {
	return gvForall(0, j, func(k int) bool { return dst[k] == gvHexDigit(gvNibbleOf(src, k)) })
}

//gvc:inv c_hexEncode
func inv_hexEncode(src, dst []byte, gv_i, j int) bool {
	return j == 2*gv_i && gvForall(0, gv_i, func(k int) bool {
		return dst[2*k] == gvHexDigit(src[k]>>4) && dst[2*k+1] == gvHexDigit(src[k]&15)
	})
}

//gvc:contract C16
//gvc:target Decode
func c_Decode(input string) {
	gvRequires(len(input) < 1<<40)
	r, err := Decode(input)
	gvEnsures("a prefix is needed", err == nil || len(input) != 0 || err == ErrEmptyString)
	gvEnsures("0x or 0X", err != nil || len(input) >= 2 && input[0] == '0' && (input[1] == 'x' || input[1] == 'X'))
	gvEnsures("missing prefix is named", err == nil || len(input) == 0 || gvHas0x(input) || err == ErrMissingPrefix)
	gvEnsures("an even number of digits", err != nil || len(input)%2 == 0)
	gvEnsures("one byte for two digits", err != nil || len(r) == (len(input)-2)/2)
	gvEnsures("only digits, high digit first", err != nil || gvForall(0, len(r), func(k int) bool {
		return gvNib(input[2+2*k]) < 16 && gvNib(input[3+2*k]) < 16 && r[k] == gvNib(input[2+2*k])<<4|gvNib(input[3+2*k])
	}))
	gvEnsures("nothing else is refused", err == nil || !gvHas0x(input) || len(input)%2 != 0 ||
		gvExists(2, len(input), func(k int) bool { return gvNib(input[k]) >= 16 }))
}

func gvHas0x(s string) bool {
	return len(s) >= 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X')
}

//gvc:contract C16
//gvc:target encoding/hex.Decode
func c_hexDecode(dst, src []byte) {
	gvRequires(len(src) < 1<<40 && len(dst) >= len(src)/2 && (len(dst) == 0 || !gvSameArray(dst, src)))
	gvModSlice(dst)
	n, err := hex.Decode(dst, src)
	_, inv := err.(hex.InvalidByteError)
	gvEnsures("kinds of errors", err == nil || err == hex.ErrLength || inv)
	gvEnsures("odd length", err != hex.ErrLength || len(src)%2 != 0)
	gvEnsures("a byte that is no digit", err == nil || err == hex.ErrLength || gvExists(0, len(src), func(k int) bool { return gvNib(src[k]) >= 16 }))
	gvEnsures("number of bytes", 0 <= n && n <= len(src)/2 && (err != nil || n == len(src)/2 && len(src)%2 == 0))
	gvEnsures("only digits, high digit first", err != nil || gvForall(0, n, func(k int) bool {
		return gvNib(src[2*k]) < 16 && gvNib(src[2*k+1]) < 16 && dst[k] == gvNib(src[2*k])<<4|gvNib(src[2*k+1])
	}))
}

func gen_c_hexDecode(r *rand.Rand) ([]byte, []byte) {
	b := gvRandHex(r)
	if r.Intn(2) == 0 && len(b) >= 2 {
		b = b[2:]
	}
	return make([]byte, len(b)/2+r.Intn(3)), b
}

//gvc:contract C16
//gvc:target encoding/hex.Encode
func c_hexEncode(dst, src []byte) {
	gvRequires(len(src) < 1<<40 && len(dst) >= 2*len(src) && (len(dst) == 0 || !gvSameArray(dst, src)))
	gvModSlice(dst)
	n := hex.Encode(dst, src)
	gvEnsures("length", n == 2*len(src))
	gvEnsures("high digit first, lower case", gvForall(0, len(src), func(k int) bool {
		return dst[2*k] == gvHexDigit(src[k]>>4) && dst[2*k+1] == gvHexDigit(src[k]&15)
	}))
	gvEnsures("every digit", gvForall(0, n, func(k int) bool { return dst[k] == gvHexDigit(gvNibbleOf(src, k)) }))
}

func gen_c_hexEncode(r *rand.Rand) ([]byte, []byte) {
	b := gvRandHex(r)
	return make([]byte, len(b)*2), b
}

//gvc:inv c_hexDecode
func inv_hexDecode1(src []byte, i, j int) bool {
	return j == 2*i+1 && 0 <= i && i <= len(src) && j <= len(src)+1
}

//gvc:inv c_hexDecode
func inv_hexDecode2(src []byte, i int) bool {
	return gvForall(0, 2*i, func(k int) bool { return gvNib(src[k]) < 16 })
}

//gvc:inv c_hexDecode
func inv_hexDecode3(src, dst []byte, i int) bool {
	return gvForall(0, i, func(k int) bool { return dst[k] == gvNib(src[2*k])<<4|gvNib(src[2*k+1]) })
}

//gvc:lemma C16
func lemma_roundTrip(b []byte) {
	gvRequires(len(b) < 1<<38)
	r, err := Decode(Encode(b))
	gvEnsures("decoding what was encoded", err == nil && gvEqBytes(r, b))
}

func gen_c_Decode(r *rand.Rand) string {
	switch r.Intn(6) {
	case 0:
		return ""
	case 1:
		return "0x"
	}
	b := make([]byte, r.Intn(9))
	for i := range b {
		b[i] = "0123456789abcdefABCDEFgx"[r.Intn(22+r.Intn(3))]
	}
	return []string{"0x", "0X", "1x", "x"}[r.Intn(20)%4] + string(b)
}

var _ = hex.ErrLength
var _ = strconv.IntSize

//gvc:contract C16
//gvc:target Bytes.MarshalText
func c_Bytes_MarshalText(b Bytes) {
	gvRequires(len(b) < 1<<40)
	r, err := b.MarshalText()
	gvEnsures("never fails", err == nil)
	gvEnsures("two digits per byte after 0x", len(r) == 2+2*len(b) && r[0] == '0' && r[1] == 'x')
	gvEnsures("every digit", gvForall(2, len(r), func(k int) bool { return r[k] == gvHexDigit(gvNibbleOf(b, k-2)) }))
	gvEnsures("new slice", gvFresh(r))
}

func gvHas0xB(s []byte) bool {
	return len(s) >= 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X')
}

//gvc:contract C16
//gvc:target Bytes.UnmarshalText
func c_Bytes_UnmarshalText(b *Bytes, input []byte) {
	gvRequires(b != nil && len(input) < 1<<40)
	old := *b
	gvModPtr(b)
	err := b.UnmarshalText(input)
	gvEnsures("an error changes nothing", err == nil || gvSameArray(*b, old) && len(*b) == len(old))
	gvEnsures("only prefixed strings of an even number of digits", err != nil || len(input) == 0 || gvHas0xB(input) && len(input)%2 == 0)
	gvEnsures("the empty string is empty", err != nil || len(input) != 0 || len(*b) == 0)
	gvEnsures("one byte for two digits", err != nil || len(input) == 0 || len(*b) == (len(input)-2)/2)
	gvEnsures("only digits, high digit first", err != nil || gvForall(0, len(*b), func(k int) bool {
		return gvNib(input[2+2*k]) < 16 && gvNib(input[3+2*k]) < 16 && (*b)[k] == gvNib(input[2+2*k])<<4|gvNib(input[3+2*k])
	}))
	gvEnsures("nothing else is refused", err == nil || !gvHas0xB(input) || len(input)%2 != 0 ||
		gvExists(2, len(input), func(k int) bool { return gvNib(input[k]) >= 16 }))
	gvEnsures("new slice", err != nil || gvFresh([]byte(*b)))
}

//gvc:contract C16
//gvc:target UnmarshalFixedText
func c_UnmarshalFixedText(typname string, input, out []byte) {
	gvRequires(len(input) < 1<<40 && (len(out) == 0 || !gvSameArray(input, out)))
	old := gvClone(out)
	gvModSlice(out)
	err := UnmarshalFixedText(typname, input, out)
	gvEnsures("an error changes nothing", err == nil || gvEqBytes(out, old))
	gvEnsures("the exact length is needed", err != nil || len(out) == 0 || gvHas0xB(input) && len(input) == 2+2*len(out))
	gvEnsures("only digits, high digit first", err != nil || gvForall(0, len(out), func(k int) bool {
		return gvNib(input[2+2*k]) < 16 && gvNib(input[3+2*k]) < 16 && out[k] == gvNib(input[2+2*k])<<4|gvNib(input[3+2*k])
	}))
	gvEnsures("nothing else is refused", err == nil || !gvHas0xB(input) || len(input) != 2+2*len(out) ||
		gvExists(2, len(input), func(k int) bool { return gvNib(input[k]) >= 16 }))
}

//gvc:contract C16
//gvc:target UnmarshalFixedUnprefixedText
func c_UnmarshalFixedUnprefixedText(typname string, input, out []byte) {
	gvRequires(len(input) < 1<<40 && (len(out) == 0 || !gvSameArray(input, out)))
	old := gvClone(out)
	gvModSlice(out)
	err := UnmarshalFixedUnprefixedText(typname, input, out)
	o := gvIte(gvHas0xB(input), 2, 0)
	gvEnsures("an error changes nothing", err == nil || gvEqBytes(out, old))
	gvEnsures("the exact length is needed", err != nil || len(input) == o+2*len(out))
	gvEnsures("only digits, high digit first", err != nil || gvForall(0, len(out), func(k int) bool {
		return gvNib(input[o+2*k]) < 16 && gvNib(input[o+1+2*k]) < 16 && out[k] == gvNib(input[o+2*k])<<4|gvNib(input[o+1+2*k])
	}))
	gvEnsures("nothing else is refused", err == nil || len(input) != o+2*len(out) ||
		gvExists(o, len(input), func(k int) bool { return gvNib(input[k]) >= 16 }))
}

//gvc:inv c_UnmarshalFixedText
//gvc:inv c_UnmarshalFixedUnprefixedText
func inv_fixedSyntax(raw []byte, gv_i int) bool {
	return gvForall(0, gv_i, func(k int) bool { return gvNib(raw[k]) < 16 })
}

//gvc:contract C16
//gvc:target Bytes.UnmarshalJSON
func c_Bytes_UnmarshalJSON(b *Bytes, input []byte) {
	gvRequires(b != nil && len(input) < 1<<40)
	old := *b
	gvModPtr(b)
	err := b.UnmarshalJSON(input)
	n := len(input)
	gvEnsures("only quoted strings", err != nil || n >= 2 && input[0] == '"' && input[n-1] == '"')
	gvEnsures("an error changes nothing", err == nil || gvSameArray(*b, old) && len(*b) == len(old))
	gvEnsures("one byte for two digits", err != nil || n == 2 && len(*b) == 0 || n >= 4 && len(*b) == (n-4)/2 && gvHas0xB(input[1:n-1]))
	gvEnsures("only digits, high digit first", err != nil || gvForall(0, len(*b), func(k int) bool {
		return gvNib(input[3+2*k]) < 16 && gvNib(input[4+2*k]) < 16 && (*b)[k] == gvNib(input[3+2*k])<<4|gvNib(input[4+2*k])
	}))
}

// gvHexVal: value of the first n digits (modulo 2^64)
//
//gvc:rec
func gvHexVal(s []byte, n int) uint64 {
	if n <= 0 {
		return 0
	}
	return gvHexVal(s, n-1)<<4 + uint64(gvNib(s[n-1]))
}

//gvc:contract C16
//gvc:target Uint64.UnmarshalText
func c_Uint64_UnmarshalText(u *Uint64, input []byte) {
	gvRequires(u != nil)
	old := *u
	gvModPtr(u)
	err := u.UnmarshalText(input)
	n := len(input)
	gvEnsures("an error changes nothing", err == nil || *u == old)
	gvEnsures("only prefixed strings of digits", err != nil || n == 0 || n >= 3 && n <= 18 && gvHas0xB(input) && gvForall(2, n, func(k int) bool { return gvNib(input[k]) < 16 }))
	gvEnsures("no leading zero", err != nil || n <= 3 || input[2] != '0')
	gvEnsures("the value of its digits", err != nil || n != 0 || *u == 0)
	gvEnsures("the value of the digits", err != nil || n == 0 || uint64(*u) == gvHexVal(input[2:], n-2))
	gvEnsures("nothing else is refused", err == nil || !gvHas0xB(input) || n < 3 || n > 18 || n > 3 && input[2] == '0' ||
		gvExists(2, n, func(k int) bool { return gvNib(input[k]) >= 16 }))
}

//gvc:inv c_Uint64_UnmarshalText
func inv_Uint64_UnmarshalText(raw []byte, gv_i int, dec uint64) bool {
	return dec == gvHexVal(raw, gv_i)
}

//gvc:inv c_Uint64_UnmarshalText
func inv_Uint64_UnmarshalText2(raw []byte, gv_i int) bool {
	return gvForall(0, gv_i, func(k int) bool { return gvNib(raw[k]) < 16 })
}

//gvc:model strconv.ParseUint
func m_ParseUint(s string, base int, bitSize int) (uint64, error) {
	gvAssert("only base 16, 64 bits", base == 16 && bitSize == 64)
	n := len(s)
	if n == 0 || gvExists(0, n, func(k int) bool { return gvNib(s[k]) >= 16 }) {
		return 0, &strconv.NumError{Func: "ParseUint", Num: s, Err: strconv.ErrSyntax}
	}
	if n > 16 && gvExists(0, n-16, func(k int) bool { return s[k] != '0' }) {
		return 1<<64 - 1, &strconv.NumError{Func: "ParseUint", Num: s, Err: strconv.ErrRange}
	}
	return gvHexVal([]byte(s), n), nil
}

//gvc:contract C16
//gvc:target DecodeUint64
func c_DecodeUint64(input string) {
	gvRequires(len(input) < 1<<40)
	r, err := DecodeUint64(input)
	n := len(input)
	gvEnsures("only prefixed strings of digits", err != nil || n >= 3 && n <= 18 && gvHas0x(input) && gvForall(2, n, func(k int) bool { return gvNib(input[k]) < 16 }))
	gvEnsures("no leading zero", err != nil || n == 3 || input[2] != '0')
	gvEnsures("the value of the digits", err != nil || r == gvHexVal([]byte(input[2:]), n-2))
	gvEnsures("nothing else is refused", err == nil || !gvHas0x(input) || n < 3 || n > 18 || n > 3 && input[2] == '0' ||
		gvExists(2, n, func(k int) bool { return gvNib(input[k]) >= 16 }))
	gvEnsures("an empty string is named", n != 0 || err == ErrEmptyString)
	gvEnsures("a missing prefix is named", n == 0 || gvHas0x(input) || err == ErrMissingPrefix)
	gvEnsures("a missing number is named", !gvHas0x(input) || n != 2 || err == ErrEmptyNumber)
	gvEnsures("a leading zero is named", !gvHas0x(input) || n <= 3 || input[2] != '0' || err == ErrLeadingZero)
}

func gvDigits(i uint64) int {
	n := 1
	for j := 1; j < 16; j++ {
		if i>>uint(4*j) != 0 {
			n = j + 1
		}
	}
	return n
}

//gvc:model strconv.AppendUint
func m_AppendUint(dst []byte, i uint64, base int) []byte {
	gvAssert("only base 16", base == 16)
	n := gvDigits(i)
	for j := 15; j >= 0; j-- {
		if j < n {
			dst = append(dst, gvHexDigit(byte(i>>uint(4*j))&15))
		}
	}
	return dst
}

//gvc:contract C16
//gvc:target EncodeUint64
func c_EncodeUint64(i uint64) {
	r := EncodeUint64(i)
	n := gvDigits(i)
	gvEnsures("shortest form", len(r) == 2+n && r[0] == '0' && r[1] == 'x' && (n == 1 || r[2] != '0'))
	gvEnsures("every digit", gvForall(2, len(r), func(k int) bool { return r[k] == gvHexDigit(byte(i>>uint(4*(n+1-k)))&15) }))
}

//gvc:contract C16
//gvc:target Uint64.MarshalText
func c_Uint64_MarshalText(i Uint64) {
	r, err := i.MarshalText()
	n := gvDigits(uint64(i))
	gvEnsures("never fails", err == nil)
	gvEnsures("shortest form", len(r) == 2+n && r[0] == '0' && r[1] == 'x' && (n == 1 || r[2] != '0'))
	gvEnsures("every digit", gvForall(2, len(r), func(k int) bool { return r[k] == gvHexDigit(byte(uint64(i)>>uint(4*(n+1-k)))&15) }))
}

//gvc:lemma C16
func lemma_uint64RoundTrip(i uint64) {
	s := EncodeUint64(i)
	n := gvDigits(i)
	d := []byte(s[2:])
	for j := 1; j <= 16; j++ {
		if j <= n {
			gvAssert("digit by digit", gvHexVal(d, j) == i>>uint(4*(n-j)))
		}
	}
	r, err := DecodeUint64(s)
	gvEnsures("decoding what was encoded", err == nil && r == i)
}

//gvc:contract C16
//gvc:target decodeNibble
func c_decodeNibble(c byte) {
	r := decodeNibble(c)
	gvEnsures("the value of a digit", gvNib(c) >= 16 || r == uint64(gvNib(c)))
	gvEnsures("anything else is marked", gvNib(c) < 16 || r == badNibble)
}

//gvc:contract C16
//gvc:target Uint.UnmarshalText
func c_Uint_UnmarshalText(u *Uint, input []byte) {
	gvRequires(u != nil)
	old := *u
	gvModPtr(u)
	err := u.UnmarshalText(input)
	n := len(input)
	gvEnsures("an error changes nothing", err == nil || *u == old)
	gvEnsures("only prefixed strings", err != nil || n == 0 || n >= 3 && n <= 18 && gvHas0xB(input))
	gvEnsures("the value of the digits", err != nil || n == 0 || uint64(*u) == gvHexVal(input[2:], n-2))
	gvEnsures("nothing else is refused", err == nil || !gvHas0xB(input) || n < 3 || n > 18 || n > 3 && input[2] == '0' ||
		gvExists(2, n, func(k int) bool { return gvNib(input[k]) >= 16 }))
}

func gvRandHex(r *rand.Rand) []byte {
	b := make([]byte, r.Intn(9))
	for i := range b {
		b[i] = "0123456789abcdefABCDEFgx"[r.Intn(22+r.Intn(3))]
	}
	return append([]byte([]string{"0x", "0X", "1x", "", "0x", "0x"}[r.Intn(6)]), b...)
}

func gen_c_DecodeUint64(r *rand.Rand) string { return string(gvRandHex(r)) }
func gen_c_Bytes_UnmarshalText(r *rand.Rand) (*Bytes, []byte) {
	return &Bytes{1, 2}, gvRandHex(r)
}
func gen_c_Bytes_UnmarshalJSON(r *rand.Rand) (*Bytes, []byte) {
	b := append([]byte(`"`), gvRandHex(r)...)
	if r.Intn(5) > 0 {
		b = append(b, '"')
	}
	return &Bytes{1, 2}, b
}
func gen_c_Uint64_UnmarshalText(r *rand.Rand) (*Uint64, []byte) {
	u := Uint64(r.Intn(3))
	return &u, gvRandHex(r)
}
func gen_c_Uint_UnmarshalText(r *rand.Rand) (*Uint, []byte) {
	u := Uint(r.Intn(3))
	return &u, gvRandHex(r)
}
func gen_c_UnmarshalFixedText(r *rand.Rand) (string, []byte, []byte) {
	h := gvRandHex(r)
	n := len(h)/2 - 1
	if n < 0 || r.Intn(5) == 0 {
		n = r.Intn(5)
	}
	return "T", h, make([]byte, n)
}
func gen_c_UnmarshalFixedUnprefixedText(r *rand.Rand) (string, []byte, []byte) {
	h := gvRandHex(r)
	n := (len(h) - gvIte(gvHas0xB(h), 2, 0)) / 2
	if r.Intn(5) == 0 {
		n = r.Intn(5)
	}
	return "T", h, make([]byte, n)
}
