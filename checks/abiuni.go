package checks

import (
	"bytes"
	"fmt"
	"io"
	"sync"

	"verif/mcx"
	"verif/ref"

	"github.com/greymass/go-eosio/pkg/chain"
)

// ---- the universe of ABI types

func builtins() (out []*ref.AT) {
	for _, b := range ref.Builtins {
		out = append(out, ref.Bi(b.Name))
	}
	return
}

func af(name string, t *ref.AT) ref.AF  { return ref.AF{Name: name, T: t} }
func afx(name string, t *ref.AT) ref.AF { return ref.AF{Name: name, T: t, Ext: true} }

type abiNamed struct {
	empty, s1, s2, d1, d2, d3, dAlias, dEmpty, eBase *ref.AT
	v1, v2, v3, v4                                   *ref.AT
	a1, a2, aArr, aOpt, aStruct, aVar, aArrArr       *ref.AT
	node, tree, expr, mutA, mutB                     *ref.AT
	all                                              []*ref.AT
}

var abiN = func() (n abiNamed) {
	bi := ref.Bi
	n.empty = ref.Struct("empty", nil)
	n.s1 = ref.Struct("s1", nil, af("a", bi("uint8")), af("b", bi("string")))
	n.s2 = ref.Struct("s2", nil, af("x", bi("name")), af("y", ref.Opt(n.s1)), af("z", ref.Arr(bi("varuint32"))))
	n.d1 = ref.Struct("d1", n.s1, af("c", bi("uint16")))
	n.d2 = ref.Struct("d2", n.d1, af("d", ref.Arr(n.d1)), af("e", bi("int64")))
	n.d3 = ref.Struct("d3", n.d2, af("f", bi("bool")))
	n.aStruct = ref.Alias("a_struct", n.s1)
	n.dAlias = ref.Struct("d_alias", ref.Alias("a_base", n.aStruct), af("c", bi("asset")))
	n.dEmpty = ref.Struct("d_empty", n.s2)
	n.eBase = ref.Struct("e_base", n.empty, af("q", bi("uint32")))
	n.v1 = ref.Variant("v1", bi("uint8"), bi("string"), n.s1)
	n.v2 = ref.Variant("v2", ref.Arr(bi("uint16")), ref.Opt(bi("name")), n.v1, n.d1, n.empty)
	n.v3 = ref.Variant("v3", n.s2)
	n.v4 = ref.Variant("v4", ref.Arr(ref.Opt(bi("uint8"))), ref.Opt(ref.Arr(n.s1)), bi("checksum256"), bi("uint64"))
	n.a1 = ref.Alias("a1", bi("uint16"))
	n.a2 = ref.Alias("a2", n.a1)
	n.aArr = ref.Alias("a_arr", ref.Arr(bi("uint8")))
	n.aOpt = ref.Alias("a_opt", ref.Opt(bi("string")))
	n.aVar = ref.Alias("a_var", n.v1)
	n.aArrArr = ref.Alias("a_arr_arr", ref.Arr(n.aArr))
	n.node = ref.Struct("node", nil, af("v", bi("uint8")))
	n.node.Fields = append(n.node.Fields, af("next", ref.Opt(n.node)))
	n.tree = ref.Struct("tree", nil, af("v", bi("string")))
	n.tree.Fields = append(n.tree.Fields, af("kids", ref.Arr(n.tree)))
	n.expr = ref.Variant("expr")
	neg := ref.Struct("neg", nil, af("e", n.expr))
	add := ref.Struct("add", nil, af("l", n.expr), af("r", n.expr))
	n.expr.Alts = []*ref.AT{bi("int64"), neg, add, ref.Arr(n.expr)}
	n.mutA = ref.Struct("mut_a", nil, af("n", bi("varint32")))
	n.mutB = ref.Struct("mut_b", nil, af("a", ref.Arr(n.mutA)))
	n.mutA.Fields = append(n.mutA.Fields, af("b", ref.Opt(n.mutB)))
	n.all = []*ref.AT{n.empty, n.s1, n.s2, n.d1, n.d2, n.d3, n.dAlias, n.dEmpty, n.eBase, n.v1, n.v2, n.v3, n.v4,
		n.a1, n.a2, n.aArr, n.aOpt, n.aStruct, n.aVar, n.aArrArr, n.node, n.tree, n.expr, n.mutA, n.mutB}
	return
}()

// suffixed gives t under every combination of at most depth suffixes (an optional of an optional has no
// meaning in the ABI language and is left out).
func suffixed(t *ref.AT, depth int) []*ref.AT {
	out := []*ref.AT{t}
	if depth == 0 {
		return out
	}
	for _, x := range suffixed(t, depth-1) {
		out = append(out, ref.Arr(x))
		if x.Strip().K != ref.AOptional {
			out = append(out, ref.Opt(x))
		}
	}
	// remove duplicates by expression
	seen := map[string]bool{}
	var u []*ref.AT
	for _, x := range out {
		if !seen[x.Expr()] {
			seen[x.Expr()] = true
			u = append(u, x)
		}
	}
	return u
}

// zeroWidth tells whether some value of t may occupy no bytes.
func zeroWidth(t *ref.AT) bool {
	t = t.Strip()
	if t.K != ref.AStruct {
		return false
	}
	for _, f := range t.AllFields() {
		if !f.Ext && !zeroWidth(f.T) {
			return false
		}
	}
	return true
}

var abiValMu sync.Mutex
var abiValCache = map[*ref.AT][]any{}

// abiVals is the value alphabet of an ABI type (in the form dynamic decoding returns).
func abiVals(t *ref.AT) []any {
	abiValMu.Lock()
	v, ok := abiValCache[t]
	abiValMu.Unlock()
	if ok {
		return v
	}
	v = mkAbiVals(t, 0)
	abiValMu.Lock()
	abiValCache[t] = v
	abiValMu.Unlock()
	return v
}

func mkAbiVals(t *ref.AT, depth int) []any {
	if depth > 6 {
		return nil
	}
	switch t.K {
	case ref.AAlias:
		return mkAbiVals(t.Elem, depth)
	case ref.AOptional:
		return append([]any{nil}, mkAbiVals(t.Elem, depth+1)...)
	case ref.AArray:
		ev := mkAbiVals(t.Elem, depth+1)
		out := []any{[]any{}}
		if len(ev) == 0 {
			return out
		}
		out = append(out, []any{ev[len(ev)-1]}, []any{ev[0], ev[len(ev)/2]})
		if len(ev) > 2 {
			out = append(out, append([]any{}, ev...))
		}
		if depth == 0 {
			long := make([]any, 130)
			for i := range long {
				long[i] = ev[i%len(ev)]
			}
			out = append(out, long)
		}
		return out
	case ref.AVariant:
		var out []any
		for _, a := range t.Alts {
			ev := mkAbiVals(a, depth+1)
			if depth > 1 && len(ev) > 2 {
				ev = []any{ev[0], ev[len(ev)-1]}
			}
			for _, e := range ev {
				out = append(out, []any{a.Expr(), e})
			}
		}
		return out
	case ref.AStruct:
		fs := t.AllFields()
		fv := make([][]any, len(fs))
		max := 1
		for i, f := range fs {
			fv[i] = mkAbiVals(f.T, depth+1)
			if len(fv[i]) == 0 {
				return nil
			}
			if len(fv[i]) > max {
				max = len(fv[i])
			}
		}
		var out []any
		for k := 0; k < max; k++ {
			m := map[string]any{}
			for i, f := range fs {
				m[f.Name] = fv[i][(k+i)%len(fv[i])]
			}
			out = append(out, m)
		}
		return out
	}
	var out []any
	for _, v := range vals(ref.GoType(t.Name)) {
		out = append(out, v.Interface())
	}
	return out
}

// absent extension variants of a struct value: for every k, the last k extensions missing.
func withoutExts(t *ref.AT, v any) (out []any) {
	fs := t.AllFields()
	m := v.(map[string]any)
	for k := len(fs); k > 0 && fs[k-1].Ext; k-- {
		c := map[string]any{}
		for i, f := range fs {
			if i < k-1 {
				c[f.Name] = m[f.Name]
			} else {
				c[f.Name] = nil
			}
		}
		out = append(out, c)
	}
	return
}

func abiEncode(a *chain.Abi, t string, v any) ([]byte, error) {
	var b bytes.Buffer
	err := a.Encode(&b, t, v)
	intoAll(b.Bytes(), err, func(w io.Writer) error { return a.Encode(w, t, v) })
	return b.Bytes(), err
}

func abiDecode(a *chain.Abi, t string, b []byte) (any, int, error) {
	r, left := readerOf(kindFor(b), b)
	v, err := a.Decode(r, t)
	return v, len(b) - left(), err
}

// abiCase checks one value of one ABI type both ways.
func abiCase(w *mcx.W, a *chain.Abi, t *ref.AT, v any) {
	name := t.Expr()
	want, err := ref.AbiEnc(t, v)
	if err != nil {
		panic(fmt.Sprintf("model cannot encode %s %v: %v", name, v, err))
	}
	b, err := abiEncode(a, name, v)
	if err != nil {
		w.Fail("ABI type %s: cannot encode %v: %v", name, clip(fmt.Sprint(v)), err)
	}
	if !bytes.Equal(b, want) {
		w.Fail("ABI type %s: %v encodes as %s, the ABI prescribes %s", name, clip(fmt.Sprint(v)), hexs(b), hexs(want))
	}
	expect, d, err := ref.AbiDec(t, want)
	if err != nil || d.Pos != len(want) {
		panic(fmt.Sprintf("model cannot decode its own %s %x: %v", name, want, err))
	}
	got, n, err := abiDecode(a, name, want)
	if err != nil || n != len(want) || !ref.EqAny(got, expect) {
		w.Fail("ABI type %s: %s decodes as %v, %v (%d bytes), want %v", name, hexs(want), clip(fmt.Sprint(got)), err, n, clip(fmt.Sprint(expect)))
	}
	again, err := abiEncode(a, name, got)
	if err != nil || !bytes.Equal(again, want) {
		w.Fail("ABI type %s: decoded value %v encodes as %s, %v, was decoded from %s", name, clip(fmt.Sprint(got)), hexs(again), err, hexs(want))
	}
	// with bytes following, unless those would belong to an absent extension
	e2, d2, err2 := ref.AbiDec(t, withTail(want))
	if err2 == nil && d2.Pos == len(want) {
		got, n, err := abiDecode(a, name, withTail(want))
		if err != nil || n != len(want) || !ref.EqAny(got, e2) {
			w.Fail("ABI type %s: %s followed by other bytes decodes as %v, %v (%d bytes), want %v", name, hexs(want), clip(fmt.Sprint(got)), err, n, clip(fmt.Sprint(e2)))
		}
	}
	w.Eval(4)
	w.Outcome(mcx.Hash(want))
	if len(want) > 1 {
		w.NonTrivial()
	}
	w.Sample(func() string { return clip(fmt.Sprintf("%s: %v <-> %x", name, v, want)) })
}

type abiTV struct {
	a *chain.Abi
	t *ref.AT
	v any
}

// sweepAbi runs abiCase on every value of every type, each under an ABI holding what it needs.
func sweepAbi(r *mcx.Run, name string, ts []*ref.AT, f func(w *mcx.W, a *chain.Abi, t *ref.AT, v any)) {
	var cs []abiTV
	for _, t := range ts {
		a := ref.Abi(t)
		for _, v := range abiVals(t) {
			cs = append(cs, abiTV{a, t, v})
			if t.K == ref.AStruct {
				for _, x := range withoutExts(t, v) {
					cs = append(cs, abiTV{a, t, x})
				}
			}
		}
	}
	r.Sweep(fmt.Sprintf("%s (%d types)", name, len(ts)), uint64(len(cs)), func(w *mcx.W, i uint64) {
		f(w, cs[i].a, cs[i].t, cs[i].v)
	})
}
