package common

// C04: gas pool conservation, version packing

//gvc:contract C04
//gvc:target GasPool.AddGas
func c_GasPool_AddGas(gp *GasPool, amount uint64) {
	gvRequires(gp != nil)
	gvModPtr(gp)
	old := uint64(*gp)
	var r *GasPool
	p := gvPanics(func() { r = gp.AddGas(amount) })
	gvEnsures("panics exactly when the pool would overflow", p == (old+amount < old))
	gvEnsures("an overflowing add leaves the pool alone", gvImp(p, uint64(*gp) == old))
	gvEnsures("the amount is added", gvImp(!p, uint64(*gp) == old+amount && r == gp))
}

//gvc:contract C04
//gvc:target GasPool.SubGas
func c_GasPool_SubGas(gp *GasPool, amount uint64) {
	gvRequires(gp != nil)
	gvModPtr(gp)
	old := uint64(*gp)
	err := gp.SubGas(amount)
	gvEnsures("fails exactly when the pool holds less", (err != nil) == (old < amount))
	gvEnsures("failure is ErrGasLimitReached and changes nothing", gvImp(err != nil, err == ErrGasLimitReached && uint64(*gp) == old))
	gvEnsures("the amount is deducted", gvImp(err == nil, uint64(*gp) == old-amount))
}

//gvc:contract C04
//gvc:target GasPool.Gas
func c_GasPool_Gas(gp *GasPool) {
	gvRequires(gp != nil)
	r := gp.Gas()
	gvEnsures("the amount in the pool", r == uint64(*gp))
}

//gvc:lemma C04
func l_GasPool_conserved(gp *GasPool, a uint64) {
	gvRequires(gp != nil && uint64(*gp) >= a)
	old := uint64(*gp)
	gvModPtr(gp)
	err := gp.SubGas(a)
	gp.AddGas(a)
	gvEnsures("taking and returning gas conserves the pool", err == nil && uint64(*gp) == old)
}

//gvc:contract C04
//gvc:target NewNodeVersion
func c_NewNodeVersion(major, minor, patch uint64) {
	v, err := NewNodeVersion(major, minor, patch)
	gvEnsures("accepted exactly below 1000", (err == nil) == (major < 1000 && minor < 1000 && patch < 1000))
	gvEnsures("packed decimal", gvImp(err == nil, uint64(v) == major*1000000+minor*1000+patch))
}

//gvc:lemma C04
func l_version_parts(major, minor, patch uint64) {
	v, err := NewNodeVersion(major, minor, patch)
	gvRequires(err == nil)
	gvEnsures("components come back", v.Major() == major && v.Minor() == minor && v.Patch() == patch)
}

//gvc:lemma C04
func l_version_recompose(v Version) {
	gvEnsures("components recompose the version", v.Major()*1000000+v.Minor()*1000+v.Patch() == uint64(v) && v.Minor() < 1000 && v.Patch() < 1000)
}
