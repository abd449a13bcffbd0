package main

import (
	"go/ast"
	"go/types"
)

// Containers of libraries, modelled as maps: sync.Map and the hashicorp LRU
// cache. Their content is a heap object of a map type referenced by the only
// leaf of the container. Keys that are strings hold byte strings; other keys
// are compared by interface identity and hold interfaces.

const lruPath = "github.com/hashicorp/golang-lru"

var (
	tStrBytes = types.NewMap(types.Typ[types.String], types.NewSlice(types.Typ[types.Uint8]))
	tAny      = types.NewInterfaceType(nil, nil)
	tAnyAny   = types.NewMap(tAny, tAny)
)

func isContainer(t types.Type) bool {
	return namedIs(t, "sync", "Map") || namedIs(t, lruPath, "Cache")
}

// contKey: the map type and key for an interface key
func (v *V) contKey(k Value, e *ast.CallExpr) (types.Type, Value) {
	id := k.term()
	if id.Op == OConst {
		if d, ok := dyns[id.Val.String()]; ok {
			if isString(d.T) {
				return tStrBytes, d.at(types.Typ[types.String])
			}
			v.fail(e.Pos(), "container key of type %s", d.T)
		}
	}
	return tAnyAny, k
}

func (v *V) contVal(mt types.Type, x Value, e *ast.CallExpr) Value {
	if mt != tStrBytes {
		return x
	}
	id := x.term()
	if id.Op == OConst {
		if d, ok := dyns[id.Val.String()]; ok && types.Identical(d.T, tStrBytes.Elem()) {
			return d
		}
	}
	v.fail(e.Pos(), "container of byte strings gets another value")
	return x
}

func contModels(m map[string]libFn) {
	type op func(v *V, l *Loc, ref *Term, a []Value, st *State, e *ast.CallExpr, k KV)
	with := func(f op) libFn {
		return func(v *V, a []Value, st *State, c *Ctx, e *ast.CallExpr, k KV) {
			v.check(st, c, not(eq(a[0].term(), bv(64, 0))), "nil pointer dereference", e.Pos(), func(st *State) {
				l := v.ptrLoc(a[0])
				x := v.read(st, l)
				// an unwritten container and one with an empty content object
				// are the same state; the latter represents both
				if x.L[0].Op != OConst {
					st.add(not(eq(x.L[0], bv(64, 0))), false)
				}
				f(v, l, x.L[0], a[1:], st, e, k)
			})
		}
	}
	// a container that was never written has no content object yet
	ensure := func(v *V, l *Loc, ref *Term, mt types.Type, st *State, k func(*State, *Term)) {
		v.branch(st, eq(ref, bv(64, 0)), func(st *State) {
			r := v.newMap(st, mt)
			x := v.read(st, l)
			v.write(st, l, Value{x.T, []*Term{r}})
			k(st, r)
		}, func(st *State) { k(st, ref) })
	}
	load := with(func(v *V, l *Loc, ref *Term, a []Value, st *State, e *ast.CallExpr, k KV) {
		mt, key := v.contKey(a[0], e)
		x, has := v.mapGet(st, mt, ref, key)
		x = v.toIfaceIf(st, x)
		k(st, tupleVal([]Value{mkv(tAny, ite(has, x.term(), bv(64, 0))), boolV(has)}))
	})
	contains := with(func(v *V, l *Loc, ref *Term, a []Value, st *State, e *ast.CallExpr, k KV) {
		mt, key := v.contKey(a[0], e)
		_, has := v.mapGet(st, mt, ref, key)
		k(st, boolV(has))
	})
	remove := with(func(v *V, l *Loc, ref *Term, a []Value, st *State, e *ast.CallExpr, k KV) {
		mt, key := v.contKey(a[0], e)
		v.branch(st, eq(ref, bv(64, 0)), func(st *State) { k(st, void()) }, func(st *State) {
			v.mapDelete(st, mt, ref, key)
			k(st, void())
		})
	})
	put := func(evicts bool) libFn {
		return with(func(v *V, l *Loc, ref *Term, a []Value, st *State, e *ast.CallExpr, k KV) {
			mt, key := v.contKey(a[0], e)
			val := v.contVal(mt, a[1], e)
			ensure(v, l, ref, mt, st, func(st *State, ref *Term) {
				v.mapSet(st, mt, ref, key, val)
				if !evicts {
					k(st, void())
					return
				}
				v.branch(st, freshVar("evict", boolSort), func(st *State) {
					// the oldest entry, whichever that is, makes room
					old, facts := freshValue("oldest", mt.Underlying().(*types.Map).Key(), refMax)
					for _, f := range facts {
						st.add(f, false)
					}
					st.add(not(eq(keyTerm(old), keyTerm(key))), false)
					v.mapDelete(st, mt, ref, old)
					k(st, boolV(tTrue))
				}, func(st *State) { k(st, boolV(tFalse)) })
			})
		})
	}
	purge := with(func(v *V, l *Loc, ref *Term, a []Value, st *State, e *ast.CallExpr, k KV) {
		v.branch(st, eq(ref, bv(64, 0)), func(st *State) { k(st, void()) }, func(st *State) {
			for _, mt := range []*types.Map{tStrBytes, tAnyAny} {
				h, _ := v.mapNode(st, mt)
				var cont []*Term
				for _, s := range h.cs {
					cont = append(cont, zeroTerm(s))
				}
				v.putMap(st, mt, h, ref, cont)
			}
			k(st, void())
		})
	})
	m["sync.Map.Load"] = load
	m["sync.Map.Store"] = put(false)
	m["sync.Map.Delete"] = remove
	p := lruPath + ".Cache."
	m[p+"Get"] = load
	m[p+"Peek"] = load
	m[p+"Contains"] = contains
	m[p+"Add"] = put(true)
	m[p+"Remove"] = func(v *V, a []Value, st *State, c *Ctx, e *ast.CallExpr, k KV) { remove(v, a, st, c, e, k) }
	m[p+"Purge"] = purge
	m[lruPath+".New"] = func(v *V, a []Value, st *State, c *Ctx, e *ast.CallExpr, k KV) {
		rt := c.fr.pkg.Info.Types[e].Type.(*types.Tuple).At(0).Type()
		ok := slt(bv(64, 0), a[0].term())
		v.branch(st, ok, func(st *State) {
			r := v.newObj(st, zeroValue(rt.Underlying().(*types.Pointer).Elem()))
			k(st, tupleVal([]Value{mkv(rt, r), zeroValue(tError)}))
		}, func(st *State) {
			k(st, tupleVal([]Value{zeroValue(rt), mkv(tError, errConst("lru size"))}))
		})
	}
}

func (v *V) toIfaceIf(st *State, x Value) Value {
	if isIface(x.T) {
		return x
	}
	return v.toIface(st, x, tAny)
}

func hasContainer(t types.Type) bool {
	if isContainer(t) {
		return true
	}
	if u, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < u.NumFields(); i++ {
			if hasContainer(u.Field(i).Type()) {
				return true
			}
		}
	}
	return false
}
