package main

import (
	"context"
	"encoding/hex"
	"go/types"
	"math/big"
	"strings"
	"time"
)

var bg = context.Background()

// hints extracts parameter values from a solver model of a failed obligation.
// They only seed the run-time search, so an imprecise model does no harm.
func (v *V) hints(o *Obl) (out []interface{}) {
	defer func() {
		if r := recover(); r != nil {
			out = nil
		}
	}()
	st := newState()
	st.heap = o.Heap
	var vals []*Term
	idx := map[*Term]int{}
	want := func(t *Term) {
		if _, ok := idx[t]; !ok && (t.Sort.K == SBV || t.Sort.K == SInt || t.Sort.K == SBool) {
			idx[t] = len(vals)
			vals = append(vals, t)
		}
	}
	const maxEl = 40
	type dec func(m []*big.Int) interface{}
	var mk func(x Value, depth int) dec
	num := func(t *Term) func(m []*big.Int) *big.Int {
		want(t)
		return func(m []*big.Int) *big.Int {
			if i, ok := idx[t]; ok && i < len(m) && m[i] != nil {
				return m[i]
			}
			return new(big.Int)
		}
	}
	elems := func(arr, off, ln *Term) dec {
		l := num(ln)
		var es []func(m []*big.Int) *big.Int
		for i := 0; i < maxEl; i++ {
			es = append(es, num(sel(arr, bvadd(off, bv(64, int64(i))))))
		}
		return func(m []*big.Int) interface{} {
			n := l(m)
			k := 1 << 12
			if n.IsInt64() && n.Int64() < int64(k) {
				k = int(n.Int64())
			}
			b := make([]byte, k)
			for i := 0; i < k && i < maxEl; i++ {
				b[i] = byte(es[i](m).Uint64())
			}
			return hex.EncodeToString(b)
		}
	}
	mk = func(x Value, depth int) dec {
		if depth < 0 {
			return func([]*big.Int) interface{} { return nil }
		}
		if isBigInt(x.T) {
			n := num(x.L[0])
			return func(m []*big.Int) interface{} { return n(m).String() }
		}
		switch u := x.T.Underlying().(type) {
		case *types.Basic:
			switch {
			case u.Info()&types.IsBoolean != 0:
				n := num(x.L[0])
				return func(m []*big.Int) interface{} { return n(m).Sign() != 0 }
			case u.Info()&types.IsInteger != 0:
				n := num(x.L[0])
				w := x.L[0].Sort.W
				signed := u.Info()&types.IsUnsigned == 0
				return func(m []*big.Int) interface{} {
					b := new(big.Int).Set(n(m))
					if signed && b.Bit(w-1) == 1 {
						b.Sub(b, pow2(w))
					}
					return b.String()
				}
			case u.Info()&types.IsString != 0:
				return elems(x.L[0], x.L[1], x.L[2])
			}
		case *types.Slice:
			if len(leaves(u.Elem())) == 1 && leaves(u.Elem())[0].sort == bvSort(8) {
				arr := v.readCont(st, u.Elem(), x.L[0])[0]
				d := elems(arr, x.L[1], x.L[2])
				r := num(x.L[0])
				return func(m []*big.Int) interface{} {
					if r(m).Sign() == 0 {
						return []interface{}{}
					}
					return d(m)
				}
			}
			at := types.NewArray(u.Elem(), -1)
			cont := Value{at, v.readCont(st, u.Elem(), x.L[0])}
			l := num(x.L[2])
			var ds []dec
			for i := 0; i < 6; i++ {
				ds = append(ds, mk(cont.index(bvadd(x.L[1], bv(64, int64(i)))), depth-1))
			}
			return func(m []*big.Int) interface{} {
				out := []interface{}{}
				n := l(m)
				for i := 0; i < len(ds) && n.Cmp(big.NewInt(int64(i))) > 0; i++ {
					out = append(out, ds[i](m))
				}
				return out
			}
		case *types.Array:
			if leafs := leaves(u.Elem()); len(leafs) == 1 && leafs[0].sort == bvSort(8) && u.Len() <= 80 {
				var es []func(m []*big.Int) *big.Int
				for i := int64(0); i < u.Len(); i++ {
					es = append(es, num(sel(x.L[0], bv(64, i))))
				}
				return func(m []*big.Int) interface{} {
					b := make([]byte, len(es))
					for i := range es {
						b[i] = byte(es[i](m).Uint64())
					}
					return hex.EncodeToString(b)
				}
			}
		case *types.Struct:
			var ds []dec
			for i := 0; i < u.NumFields(); i++ {
				ds = append(ds, mk(x.field(i), depth))
			}
			return func(m []*big.Int) interface{} {
				var out []interface{}
				for _, d := range ds {
					out = append(out, d(m))
				}
				return out
			}
		case *types.Pointer:
			r := num(x.L[0])
			at := types.NewArray(u.Elem(), -1)
			if _, isArr := u.Elem().Underlying().(*types.Array); isArr {
				return func(m []*big.Int) interface{} {
					if r(m).Sign() == 0 {
						return "nil"
					}
					return nil
				}
			}
			cont := Value{at, v.readCont(st, u.Elem(), x.L[0])}
			d := mk(cont.index(bv(64, 0)), depth-1)
			return func(m []*big.Int) interface{} {
				if r(m).Sign() == 0 {
					return "nil"
				}
				return d(m)
			}
		}
		return func([]*big.Int) interface{} { return nil }
	}
	var ds []dec
	for _, p := range o.Params {
		ds = append(ds, mk(p, 4))
	}
	if len(vals) == 0 || len(vals) > 4000 {
		return nil
	}
	text := o.Res.Query.emit(vals)
	_, s := runSolver(bg, "z3-new", text, 8*time.Second)
	i := strings.IndexByte(s, '\n')
	if i < 0 || !strings.Contains(s[i:], "((") {
		return nil
	}
	m := parseValues(s[i:])
	if len(m) == 0 {
		return nil
	}
	for _, d := range ds {
		out = append(out, d(m))
	}
	return out
}

// parseValues reads ((expr value) ...) and returns the values in order.
func parseValues(s string) []*big.Int {
	i := strings.Index(s, "((")
	if i < 0 {
		return nil
	}
	i++
	var out []*big.Int
	for i < len(s) {
		for i < len(s) && (s[i] == ' ' || s[i] == '\n') {
			i++
		}
		if i >= len(s) || s[i] != '(' {
			break
		}
		j := skipSexp(s, i)
		inner := strings.TrimSpace(s[i+1 : j-1])
		i = j
		// value = last s-expression
		e := skipSexp(inner, 0)
		for {
			k := e
			for k < len(inner) && (inner[k] == ' ' || inner[k] == '\n') {
				k++
			}
			if k >= len(inner) {
				break
			}
			n := skipSexp(inner, k)
			if n >= len(inner) {
				out = append(out, parseVal(inner[k:n]))
			}
			e = n
		}
	}
	return out
}

func skipSexp(s string, i int) int {
	if i < len(s) && s[i] == '(' {
		d := 0
		q := false
		for ; i < len(s); i++ {
			switch {
			case s[i] == '|':
				q = !q
			case q:
			case s[i] == '(':
				d++
			case s[i] == ')':
				d--
				if d == 0 {
					return i + 1
				}
			}
		}
		return i
	}
	q := false
	for i < len(s) && (q || s[i] != ' ' && s[i] != ')' && s[i] != '\n') {
		if s[i] == '|' {
			q = !q
		}
		i++
	}
	return i
}

func parseVal(s string) *big.Int {
	s = strings.TrimSpace(s)
	b := new(big.Int)
	switch {
	case s == "true":
		return big.NewInt(1)
	case s == "false":
		return b
	case strings.HasPrefix(s, "#x"):
		b.SetString(s[2:], 16)
	case strings.HasPrefix(s, "#b"):
		b.SetString(s[2:], 2)
	case strings.HasPrefix(s, "(-"):
		b.SetString(strings.Trim(s[2:], " )"), 10)
		b.Neg(b)
	default:
		b.SetString(s, 10)
	}
	return b
}
