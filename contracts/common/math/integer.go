package math

// C04: checked 64-bit arithmetic

//gvc:contract C04
//gvc:target SafeAdd
func c_SafeAdd(x, y uint64) {
	s, over := SafeAdd(x, y)
	gvEnsures("sum modulo 2^64", s == x+y)
	gvEnsures("overflow flag exact", over == (x+y < x))
}

//gvc:contract C04
//gvc:target SafeSub
func c_SafeSub(x, y uint64) {
	d, under := SafeSub(x, y)
	gvEnsures("difference modulo 2^64", d == x-y)
	gvEnsures("underflow flag exact", under == (x < y))
}

//gvc:contract C04
//gvc:target SafeMul
func c_SafeMul(x, y uint64) {
	p, over := SafeMul(x, y)
	gvEnsures("product modulo 2^64", p == x*y)
	gvEnsures("overflow flag exact", over == (x != 0 && y > MaxUint64/x))
}
