package common

// C03: nil-as-smallest total orders

//gvc:contract C03
//gvc:target Height.Compare
func c_Height_Compare(a, b Height) {
	r := a.Compare(b)
	gvEnsures("zero iff equal", (r == 0) == (a == b))
	gvEnsures("nil is smallest, else numeric", (r < 0) == (a != b && (a == NilHeight || b != NilHeight && a < b)))
	gvEnsures("in -1..1", r >= -1 && r <= 1)
}

//gvc:contract C03
//gvc:target EpochNum.Compare
func c_Epoch_Compare(a, b EpochNum) {
	r := a.Compare(b)
	gvEnsures("zero iff equal", (r == 0) == (a == b))
	gvEnsures("nil is smallest, else numeric", (r < 0) == (a != b && (a == NilEpoch || b != NilEpoch && a < b)))
	gvEnsures("in -1..1", r >= -1 && r <= 1)
}

//gvc:contract C03
//gvc:target EraNum.Compare
func c_Era_Compare(a, b EraNum) {
	r := a.Compare(b)
	gvEnsures("zero iff equal", (r == 0) == (a == b))
	gvEnsures("nil is smallest, else numeric", (r < 0) == (a != b && (a == NilEra || b != NilEra && a < b)))
	gvEnsures("in -1..1", r >= -1 && r <= 1)
}

//gvc:lemma C03
func l_Height_order(a, b, c Height) {
	gvEnsures("antisymmetric", a.Compare(b) == -b.Compare(a))
	gvEnsures("transitive", gvImp(a.Compare(b) <= 0 && b.Compare(c) <= 0, a.Compare(c) <= 0))
	gvEnsures("total", gvImp(a != b, (a.Compare(b) < 0) != (b.Compare(a) < 0)))
}

//gvc:lemma C03
func l_Epoch_order(a, b, c EpochNum) {
	gvEnsures("antisymmetric", a.Compare(b) == -b.Compare(a))
	gvEnsures("transitive", gvImp(a.Compare(b) <= 0 && b.Compare(c) <= 0, a.Compare(c) <= 0))
	gvEnsures("total", gvImp(a != b, (a.Compare(b) < 0) != (b.Compare(a) < 0)))
}

//gvc:lemma C03
func l_Era_order(a, b, c EraNum) {
	gvEnsures("antisymmetric", a.Compare(b) == -b.Compare(a))
	gvEnsures("transitive", gvImp(a.Compare(b) <= 0 && b.Compare(c) <= 0, a.Compare(c) <= 0))
}

//gvc:contract C03
//gvc:target Height.Diff
func c_Height_Diff(a, b Height) {
	d, r := a.Diff(b)
	gvEnsures("sign agrees with Compare", r == a.Compare(b))
	gvEnsures("distance counts nil as one below zero", d == gvIteU(r < 0, (uint64(b)+1)-(uint64(a)+1), (uint64(a)+1)-(uint64(b)+1)))
}

//gvc:contract C03
//gvc:target EpochNum.Diff
func c_Epoch_Diff(a, b EpochNum) {
	d, r := a.Diff(b)
	gvEnsures("sign agrees with Compare", r == a.Compare(b))
	gvEnsures("distance counts nil as one below zero", d == gvIteU(r < 0, (uint64(b)+1)-(uint64(a)+1), (uint64(a)+1)-(uint64(b)+1)))
}

//gvc:contract C03
//gvc:target EpochNum.Cmp
func c_Epoch_Cmp(a, b *EpochNum) {
	r := a.Cmp(b)
	gvEnsures("nil pointer is smallest", gvImp(a == nil && b != nil, r < 0) && gvImp(a != nil && b == nil, r > 0) && gvImp(a == nil && b == nil, r == 0))
	if a != nil && b != nil {
		gvEnsures("values compared", r == (*a).Compare(*b))
	}
}

//gvc:contract C03
//gvc:target EraNum.Cmp
func c_Era_Cmp(a, b *EraNum) {
	r := a.Cmp(b)
	gvEnsures("nil pointer is smallest", gvImp(a == nil && b != nil, r < 0) && gvImp(a != nil && b == nil, r > 0) && gvImp(a == nil && b == nil, r == 0))
	if a != nil && b != nil {
		gvEnsures("values compared", r == (*a).Compare(*b))
	}
}

//gvc:contract C03
//gvc:target Height.Equal
func c_Height_Equal(a, b *Height) {
	r := a.Equal(b)
	gvEnsures("nil equals only nil", gvImp(a == nil || b == nil, r == (a == nil && b == nil)))
	if a != nil && b != nil {
		gvEnsures("same value", r == (*a == *b))
	}
}

//gvc:contract C03
//gvc:target EraNum.Equal
func c_Era_Equal(a, b *EraNum) {
	r := a.Equal(b)
	gvEnsures("nil equals only nil", gvImp(a == nil || b == nil, r == (a == nil && b == nil)))
	if a != nil && b != nil {
		gvEnsures("same value", r == (*a == *b))
	}
}
