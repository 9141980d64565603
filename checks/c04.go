package checks

import (
	"bytes"
	"fmt"
	"reflect"

	"verif/mcx"
	"verif/ref"

	"github.com/greymass/go-eosio/pkg/chain"
)

func init() {
	register(&Check{
		ID: "C04", Level: "exploration",
		Rule:   "ABI types are enumerated as syntax trees (all 32 builtins and 25 named structs, variants, aliases and recursive types under every suffix combination; as fields, bases, variant alternatives, alias targets, extensions and array elements); every value of a systematic alphabet is encoded, compared with an independent interpreter of the same tree, decoded and re-encoded. Mismatches are enumerated as every builtin type against every Go value of another type. A case is non-trivial when the encoding has at least two bytes or the case must be rejected.",
		Bounds: "suffix depth 2 (quick) / 3 (thorough); all ordered field pairs of the 57 base types; inheritance depth 0..4 incl. through aliases; alias chains to length 6; variants of up to 300 alternatives; arrays, texts and byte strings up to 65537 and structs up to 4097 fields; all ordered pairs of 40 confusable type and field names; 1 and 2 extensions over all base types; 32x36 type/value mismatches.",
		Run:    runC04,
	})
}

func abiBase() []*ref.AT { return append(builtins(), abiN.all...) }

var wrongValues = []any{
	true, "x", uint8(1), uint16(1), uint32(1), uint64(1), int8(1), int16(1), int32(1), int64(1), float32(1), float64(1), int(1), uint(1), []byte{1},
	chain.Uint64(1), chain.Uint128{Lo: 1}, chain.Int128{Lo: 1}, chain.Float128{}, chain.Bytes{1}, chain.Blob{1}, chain.Asset{}, chain.ExtendedAsset{},
	chain.Symbol(1), chain.SymbolCode(1), chain.Name(1), chain.Checksum160{}, chain.Checksum256{}, chain.Checksum512{}, chain.TimePoint(1), chain.TimePointSec(1),
	chain.BlockTimestamp(1), chain.BlockNum(1), []any{}, []any{uint8(1)}, map[string]any{}, map[string]any{"a": uint8(1), "b": "x"}, nil,
	[]uint8{1}, []string{"a"}, []uint16{1}, map[string]string{}, struct{}{}, new(uint8), new(chain.Name), []any{"uint8", uint8(1)}, []any{"nope", uint8(1)},
}

func runC04(r *mcx.Run) {
	base := abiBase()
	depth := mcx.Pick(r, 2, 3)
	var ts []*ref.AT
	for _, t := range base {
		ts = append(ts, suffixed(t, depth)...)
	}
	sweepAbi(r, "suffixes", ts, abiCase)

	// every suffixed type as a field, behind an alias, as variant alternative, in a base and in an array of structs
	var in []*ref.AT
	for i, t := range ts {
		nm := fmt.Sprintf("w%d", i)
		st := ref.Struct(nm, nil, af("p", t), af("q", ref.Bi("uint8")))
		al := ref.Alias("al"+nm, t)
		in = append(in, st, al,
			ref.Struct("u"+nm, nil, af("p", al), af("q", ref.Arr(al))),
			ref.Struct("d"+nm, st, af("r", t)),
			ref.Variant("v"+nm, ref.Bi("bool"), t))
		if al.Strip().K != ref.AOptional {
			in = append(in, ref.Struct("o"+nm, nil, af("p", ref.Opt(al)), af("q", ref.Bi("string"))))
		}
	}
	// variants whose alternatives differ only in their suffixes or are aliases of each other, in every rotation
	for i, t := range base {
		fam := append(suffixed(t, 2), ref.Alias(fmt.Sprintf("fa%d", i), t), ref.Alias(fmt.Sprintf("fb%d", i), ref.Arr(t)))
		for k := range fam {
			rot := append(append([]*ref.AT{}, fam[k:]...), fam[:k]...)
			in = append(in, ref.Variant(fmt.Sprintf("vf%d_%d", i, k), rot...))
		}
		rev := append([]*ref.AT{}, fam...)
		reverse(rev)
		in = append(in, ref.Variant(fmt.Sprintf("vg%d", i), rev...))
	}
	sweepAbi(r, "positions", in, abiCase)

	// all ordered pairs of base types as fields
	var pairs []*ref.AT
	for i, x := range base {
		for j, y := range base {
			pairs = append(pairs, ref.Struct(fmt.Sprintf("p%d_%d", i, j), nil, af("one", x), af("two", y)))
		}
	}
	sweepAbi(r, "field pairs", pairs, abiCase)

	// extensions: one and two, over all base types and one suffix
	var exts []*ref.AT
	var et []*ref.AT
	for _, t := range base {
		for _, x := range suffixed(t, 1) {
			if !zeroWidth(x) {
				et = append(et, x)
			}
		}
	}
	for i, x := range et {
		exts = append(exts, ref.Struct(fmt.Sprintf("x%d", i), nil, af("a", ref.Bi("uint8")), afx("e", x)),
			ref.Struct(fmt.Sprintf("xo%d", i), nil, afx("e", x)))
		for _, j := range []int{0, 1, 2, len(et) / 2, len(et) - 1, (i + 7) % len(et)} {
			exts = append(exts, ref.Struct(fmt.Sprintf("y%d_%d", i, j), nil, af("a", ref.Bi("string")), afx("e", x), afx("f", et[j])))
		}
	}
	b1 := ref.Struct("xb", nil, af("a", ref.Bi("uint8")))
	exts = append(exts, ref.Struct("xd", b1, af("b", ref.Bi("uint8")), afx("e", ref.Bi("uint32")), afx("f", ref.Opt(ref.Bi("name"))), afx("g", ref.Arr(ref.Bi("string")))))
	sweepAbi(r, "extensions", exts, abiCase)
	// a present extension after a missing one cannot be written
	r.Sweep("extension after gap", uint64(len(et)), func(w *mcx.W, i uint64) {
		if et[i].Strip().K == ref.AOptional {
			return
		}
		t := ref.Struct("gap", nil, af("a", ref.Bi("uint8")), afx("e", et[i]), afx("f", ref.Bi("string")))
		if b, err := abiEncode(ref.Abi(t), "gap", map[string]any{"a": uint8(1), "f": "x"}); err == nil {
			w.Fail("struct with extensions %s$, string$: value with only the second encodes as %x", et[i].Expr(), b)
		}
		w.NonTrivial()
	})

	// inheritance chains, alias chains, wide variants
	r.Sweep("inheritance", 5*32*2, func(w *mcx.W, i uint64) {
		d, bi, viaAlias := int(i%5), ref.Builtins[i/5%32], i/160 == 1
		var t *ref.AT
		v := map[string]any{}
		for k := 0; k <= d; k++ {
			nm := fmt.Sprintf("l%d", k)
			bt := t
			if bt != nil && viaAlias {
				bt = ref.Alias("al_"+nm, ref.Alias("am_"+nm, bt))
			}
			t = ref.Struct(nm, bt, af("f"+nm, ref.Bi(bi.Name)), af("g"+nm, ref.Bi("uint8")))
			x := vals(bi.T)
			v["f"+nm] = x[k%len(x)].Interface()
			v["g"+nm] = uint8(k)
		}
		abiCase(w, ref.Abi(t), t, v)
		// the whole chain without one of the fields
		for k := range v {
			c := map[string]any{}
			for kk, x := range v {
				if kk != k {
					c[kk] = x
				}
			}
			if b, err := abiEncode(ref.Abi(t), t.Name, c); err == nil {
				w.Fail("inheritance depth %d: value without required field %s encodes as %x", d, k, b)
			}
		}
	})
	chains := []int{8, 9, 10, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300}
	r.Sweep("long inheritance", uint64(len(chains)*4), func(w *mcx.W, i uint64) {
		d, viaAlias, last := chains[i/4], i%2 == 1, i/2%2 == 1
		var t *ref.AT
		v := map[string]any{}
		for k := 0; k < d; k++ {
			nm := fmt.Sprintf("l%d", k)
			bt := t
			if bt != nil && viaAlias {
				bt = ref.Alias("al_"+nm, bt)
			}
			fs := []ref.AF{af("f"+nm, ref.Bi([]string{"uint8", "string", "varuint32"}[k%3]))}
			if k%4 == 3 {
				fs = nil // levels without fields of their own
			}
			if len(fs) > 0 {
				v["f"+nm] = []any{uint8(k), fmt.Sprint(k), uint(k)}[k%3]
			}
			if k == d-1 && last {
				fs = append(fs, afx("ext", ref.Bi("uint16")))
				v["ext"] = uint16(d)
			}
			t = ref.Struct(nm, bt, fs...)
		}
		abiCase(w, ref.Abi(t), t, v)
	})
	r.Sweep("long alias chains", uint64(len(chains)*4), func(w *mcx.W, i uint64) {
		t := []*ref.AT{ref.Bi("uint16"), abiN.s1, ref.Arr(ref.Bi("string")), abiN.v2}[i%4]
		for k := 0; k < chains[i/4]; k++ {
			t = ref.Alias(fmt.Sprintf("c%d", k), t)
		}
		st := ref.Struct("holder", nil, af("a", t), af("b", ref.Arr(t)), af("c", ref.Opt(t)))
		a := ref.Abi(st)
		for _, v := range abiVals(t) {
			abiCase(w, a, t, v)
			abiCase(w, a, st, map[string]any{"a": v, "b": []any{v, v}, "c": v})
		}
	})
	r.Sweep("alias chains", uint64(len(base)*7), func(w *mcx.W, i uint64) {
		t := base[i/7]
		for k := uint64(0); k < i%7; k++ {
			t = ref.Alias(fmt.Sprintf("c%d", k), t)
		}
		a := ref.Abi(t)
		for _, v := range abiVals(t) {
			abiCase(w, a, t, v)
		}
	})
	for _, n := range []int{1, 2, 127, 128, 129, 200, 256, 257, 300} {
		n := n
		v := ref.Variant("wide")
		for i := 0; i < n; i++ {
			v.Alts = append(v.Alts, ref.Alias(fmt.Sprintf("t%d", i), ref.Bi(ref.Builtins[i%len(ref.Builtins)].Name)))
		}
		st := ref.Struct("holder", nil, af("v", v), af("w", ref.Arr(v)))
		a := ref.Abi(st)
		r.Sweep(fmt.Sprintf("variant of %d", n), uint64(n+20), func(w *mcx.W, i uint64) {
			if int(i) < n {
				alt := v.Alts[i]
				x := abiVals(alt)
				for _, e := range x {
					abiCase(w, a, v, []any{alt.Name, e})
				}
				abiCase(w, a, st, map[string]any{"v": []any{alt.Name, x[0]}, "w": []any{[]any{alt.Name, x[0]}, []any{v.Alts[0].Name, abiVals(v.Alts[0])[1]}}})
				return
			}
			idx := uint64(n) + (i-uint64(n))*(i-uint64(n))*977
			b := append(ref.Uvar(idx), make([]byte, 80)...)
			if got, _, err := abiDecode(a, "wide", b); err == nil {
				w.Fail("variant index %d of %d decodes as %v", idx, n, got)
			}
			if b, err := abiEncode(a, "wide", []any{fmt.Sprintf("t%d", idx), uint8(1)}); err == nil {
				w.Fail("unknown variant alternative t%d encodes as %x", idx, b)
			}
			w.NonTrivial()
		})
	}

	// long arrays, byte strings and structs
	ll := []int{2, 127, 128, 255, 256, 257, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 16383, 16384, 16385, 65535, 65536, 65537}
	r.Sweep("arrays of 10100", uint64(len(base)*3), func(w *mcx.W, i uint64) {
		t := base[i/3]
		switch i % 3 {
		case 1:
			t = ref.Alias("many", t)
		case 2:
			t = ref.Struct("many", nil, af("p", t), af("q", ref.Arr(t)))
		}
		var short, l []any
		for _, v := range abiVals(t) {
			if b, err := ref.AbiEnc(t, v); err == nil && len(b) > 0 && len(b) < 64 {
				short = append(short, v)
			}
		}
		for len(short) > 0 && len(l) < 10100 {
			l = append(l, short[len(l)%len(short)])
		}
		at := ref.Arr(t)
		abiCase(w, ref.Abi(at), at, l)
		w.NonTrivial()
	})
	r.Sweep("long values", uint64(len(ll)*8), func(w *mcx.W, i uint64) {
		n := ll[i/8]
		mk := func(f func(k int) any) []any {
			x := make([]any, n)
			for k := range x {
				x[k] = f(k)
			}
			return x
		}
		var t *ref.AT
		var v any
		switch i % 8 {
		case 0:
			t, v = ref.Arr(ref.Bi("uint8")), mk(func(k int) any { return uint8(k) })
		case 1:
			t, v = ref.Arr(ref.Bi("string")), mk(func(k int) any { return fmt.Sprint(k % 1000) })
		case 2:
			t, v = ref.Arr(abiN.s1), mk(func(k int) any { x := abiVals(abiN.s1); return x[k%len(x)] })
		case 3:
			t, v = ref.Arr(abiN.v1), mk(func(k int) any { x := abiVals(abiN.v1); return x[k%len(x)] })
		case 4:
			t, v = ref.Opt(ref.Arr(ref.Alias("al", ref.Opt(ref.Bi("uint16"))))), mk(func(k int) any {
				if k%3 == 0 {
					return nil
				}
				return uint16(k)
			})
		case 5:
			t, v = ref.Bi("bytes"), chain.Bytes(pat(n, 7))
		case 6:
			t, v = ref.Bi("string"), string(pat(n, 9))
		case 7:
			if n > 5000 {
				return
			}
			t = ref.Struct("wide", nil)
			m := map[string]any{}
			for k := 0; k < n; k++ {
				f := fmt.Sprintf("f%d", k)
				t.Fields = append(t.Fields, af(f, ref.Bi([]string{"uint8", "string", "name"}[k%3])))
				m[f] = []any{uint8(k), fmt.Sprint(k), chain.Name(k)}[k%3]
			}
			v = m
		}
		abiCase(w, ref.Abi(t), t, v)
	})
	// type, field and alternative names that are easily confused
	conf := []string{"a", "A", "aa", "a_", "_a", "a1", "1a", "a.b", "a::b", "eosio::a", "eosio::A", "::a", "a ", " a", "ab", "Ab", "aB", "a-b", "\u00e4", "a\x00", "a$b", "a?b", "a[]b", "uint8_", "uint", "UINT8", "eosio::uint8", "names", "Name", "eosio::asset", "eosio", "name::", "a<b>", "pair_a_b", "optional<a>", "a'", "b", "B", "base", "\u0430"}
	nc := len(conf)
	r.Sweep("confusable names", uint64(nc*nc), func(w *mcx.W, i uint64) {
		x, y := conf[int(i)%nc], conf[int(i)/nc]
		if x == y {
			return
		}
		for k := 0; k < 4; k++ {
			var t, u *ref.AT
			var v, z any
			switch k {
			case 0:
				t, u = ref.Struct(x, nil, af(x, ref.Bi("uint8")), af(y, ref.Bi("string"))), ref.Struct(y, nil, af(y, ref.Bi("uint16")), af(x, ref.Bi("bool")))
				v, z = map[string]any{x: uint8(5), y: "q"}, map[string]any{y: uint16(0x0203), x: true}
			case 1:
				t, u = ref.Alias(x, ref.Bi("uint32")), ref.Alias(y, ref.Bi("name"))
				v, z = uint32(0x01020304), chain.Name(0x0102030405060708)
			case 2:
				t, u = ref.Alias(x, ref.Arr(ref.Bi("uint32"))), ref.Struct(y, nil, af("p", ref.Bi("uint32")))
				v, z = []any{uint32(9)}, map[string]any{"p": uint32(7)}
			case 3:
				t = ref.Variant(x, ref.Bi("uint8"), ref.Bi("uint16"))
				u = ref.Variant(y, ref.Bi("uint16"), t)
				v, z = []any{"uint16", uint16(3)}, []any{x, []any{"uint8", uint8(4)}}
			}
			top := ref.Struct("top", nil, af(x, t), af(y, u), af("l", ref.Arr(t)), af("o", ref.Opt(u)), af("v", ref.Variant("tv", t, u)))
			a := ref.Abi(top)
			abiCase(w, a, t, v)
			abiCase(w, a, u, z)
			abiCase(w, a, top, map[string]any{x: v, y: z, "l": []any{v, v}, "o": z, "v": []any{x, v}})
			abiCase(w, a, top, map[string]any{x: v, y: z, "l": []any{}, "o": nil, "v": []any{y, z}})
		}
		w.NonTrivial()
	})
	r.Sweep("unknown confusable names", uint64(nc*nc), func(w *mcx.W, i uint64) {
		x, y := conf[int(i)%nc], conf[int(i)/nc]
		if x == y {
			return
		}
		for _, t := range []*ref.AT{ref.Struct(x, nil, af("p", ref.Bi("uint8"))), ref.Alias(x, ref.Bi("uint8")), ref.Variant(x, ref.Bi("uint8"))} {
			a := ref.Abi(t)
			if got, _, err := abiDecode(a, y, make([]byte, 9)); err == nil {
				w.Fail("an ABI that defines only %q decodes %q as %v", x, y, got)
			}
			for _, v := range []any{uint8(1), map[string]any{"p": uint8(1)}, []any{"uint8", uint8(1)}} {
				if b, err := abiEncode(a, y, v); err == nil {
					w.Fail("an ABI that defines only %q encodes %q as %x", x, y, b)
				}
			}
		}
		w.NonTrivial()
	})

	// type mismatches
	type mm struct {
		a *chain.Abi
		t *ref.AT
		v any
	}
	var ms []mm
	for _, t := range ts {
		a := ref.Abi(t)
		for _, v := range wrongValues {
			ms = append(ms, mm{a, t, v})
		}
	}
	r.Sweep("mismatches", uint64(len(ms)), func(w *mcx.W, i uint64) {
		m := ms[i]
		want, werr := ref.AbiEnc(m.t, m.v)
		b, err := abiEncode(m.a, m.t.Expr(), m.v)
		if werr != nil && err == nil {
			w.Fail("ABI type %s: %s %v is not of that type but encodes as %x", m.t.Expr(), reflect.TypeOf(m.v), m.v, b)
		}
		if werr == nil && (err != nil || !bytes.Equal(b, want)) {
			w.Fail("ABI type %s: %s %v encodes as %x, %v, want %x", m.t.Expr(), reflect.TypeOf(m.v), m.v, b, err, want)
		}
		if werr != nil {
			w.NonTrivial()
		}
	})
	// a mismatch or a missing value anywhere inside a composite value
	r.Sweep("inner mismatches", uint64(len(in)), func(w *mcx.W, i uint64) {
		t := in[i]
		a := ref.Abi(t)
		vs := abiVals(t)
		v := vs[len(vs)-1]
		for _, bad := range []any{nil, struct{}{}, "zz", chain.BlockNum(3)} {
			mutate(v, bad, func(x any) {
				want, werr := ref.AbiEnc(t, x)
				b, err := abiEncode(a, t.Expr(), x)
				if (werr != nil) != (err != nil) || werr == nil && !bytes.Equal(b, want) {
					w.Fail("ABI type %s: %v encodes as %s, %v, want %s, %v", t.Expr(), clip(fmt.Sprint(x)), hexs(b), err, hexs(want), werr)
				}
				w.Eval(1)
			})
		}
		w.NonTrivial()
	})
	// malformed variant values
	r.Sweep("variant shapes", 12, func(w *mcx.W, i uint64) {
		bad := []any{[]any{}, []any{"uint8"}, []any{"uint8", uint8(1), uint8(2)}, []any{uint8(0), uint8(1)}, []any{0, uint8(1)}, []any{"uint16", uint16(1)}, []any{"", uint8(1)},
			[]any{"uint8", "x"}, []any{"uint8", nil}, []any{nil, uint8(1)}, []any{"v1", uint8(1)}, []any{"uint8[]", []any{}}}[i]
		if b, err := abiEncode(ref.Abi(abiN.v1), "v1", bad); err == nil {
			w.Fail("variant value %v encodes as %x", bad, b)
		}
		w.NonTrivial()
	})
	// unknown types wherever they are reached
	r.Sweep("unknown types", 8*10, func(w *mcx.W, i uint64) {
		names := []string{"nope", "uint8x", "Uint8", "uint 8", "uint24", "s", "x_", "checksum", "int", "float"}
		t := ref.Bi(names[i/8])
		in := append([]byte{1, 1, 1, 1}, make([]byte, 70)...)
		var top *ref.AT
		var v any = uint8(1)
		switch i % 8 {
		case 0:
			top = t
		case 1:
			top, v = ref.Arr(t), []any{uint8(1)}
		case 2:
			top = ref.Opt(t)
		case 3:
			top, v = ref.Struct("top", nil, af("a", t)), map[string]any{"a": uint8(1)}
		case 4:
			top = ref.Alias("top", t)
		case 5:
			top, v = ref.Variant("top", ref.Bi("bool"), t), []any{t.Name, uint8(1)}
		case 6:
			top, v = ref.Struct("top", t, af("a", ref.Bi("uint8"))), map[string]any{"a": uint8(1)}
		case 7:
			top, v = ref.Struct("top", nil, af("z", ref.Bi("uint8")), afx("a", t)), map[string]any{"z": uint8(1), "a": uint8(1)}
		}
		a := ref.Abi(top)
		if got, _, err := abiDecode(a, top.Expr(), in); err == nil {
			w.Fail("unknown type %s as %s decodes as %v", t.Name, top.Expr(), got)
		}
		if b, err := abiEncode(a, top.Expr(), v); err == nil {
			w.Fail("unknown type %s as %s encodes as %x", t.Name, top.Expr(), b)
		}
		w.NonTrivial()
	})
	// actions
	r.Sweep("actions", 64*6, func(w *mcx.W, i uint64) {
		n := int(i % 6)
		rot := int(i/6) % 8
		structs := []*ref.AT{abiN.s1, abiN.s2, abiN.d1, abiN.d2, abiN.eBase, abiN.node, abiN.dEmpty, abiN.dAlias}
		a := ref.Abi(structs...)
		name := func(k int) chain.Name { return chain.Name(uint64(k+1) << (i / 48 * 7)) }
		for k := 0; k < n; k++ {
			a.Actions = append(a.Actions, chain.AbiAction{Name: name(k), Type: structs[(k+rot)%8].Name})
		}
		for k := 0; k < 8; k++ {
			t := structs[(k+rot)%8]
			for _, v := range abiVals(t) {
				want, _ := ref.AbiEnc(t, v)
				var b bytes.Buffer
				err := a.EncodeAction(&b, name(k), v)
				if k >= n {
					if err == nil {
						w.Fail("unknown action %v encodes", name(k))
					}
					if got, err := a.DecodeAction(bytes.NewReader(want), name(k)); err == nil {
						w.Fail("unknown action %v decodes as %v", name(k), got)
					}
					if got, err := (chain.Action{Name: name(k), Data: want}).Decode(a); err == nil {
						w.Fail("unknown action %v decodes as %v", name(k), got)
					}
					continue
				}
				if err != nil || !bytes.Equal(b.Bytes(), want) {
					w.Fail("action %d of type %s: %v encodes as %x, %v, want %x", k, t.Name, v, b.Bytes(), err, want)
				}
				e, _, _ := ref.AbiDec(t, want)
				got, err := a.DecodeAction(bytes.NewReader(want), name(k))
				if err != nil || !ref.EqAny(got, e) {
					w.Fail("action %d of type %s: %x decodes as %v, %v, want %v", k, t.Name, want, got, err, e)
				}
				m, err := chain.Action{Account: 7, Name: name(k), Data: want}.Decode(a)
				if err != nil || !ref.EqAny(any(m), e) {
					w.Fail("action %d of type %s: Action.Decode of %x gives %v, %v, want %v", k, t.Name, want, m, err, e)
				}
				w.Eval(4)
				w.NonTrivial()
			}
		}
	})
	// actions that share their names with types, which must not matter
	r.Sweep("actions named like types", 4*4*4*2, func(w *mcx.W, i uint64) {
		aa := ref.Struct("aa", nil, af("x", ref.Bi("uint8")))
		bb := ref.Struct("bb", nil, af("x", ref.Bi("uint8")), af("y", ref.Bi("string")))
		cc := ref.Variant("cc", ref.Bi("uint8"), ref.Bi("string"))
		dd := ref.Alias("dd", aa)
		types := []*ref.AT{aa, bb, cc, dd}
		a := ref.Abi(ref.Struct("all", nil, af("a", aa), af("b", bb), af("c", cc), af("d", dd)))
		reg := map[string]*ref.AT{}
		for k, j := 0, int(i)%64; k < 3; k, j = k+1, j/4 {
			if n := []string{"aa", "bb", "cc"}[k]; j%4 > 0 {
				reg[n] = types[j%4]
				a.Actions = append(a.Actions, chain.AbiAction{Name: chain.N(n), Type: types[j%4].Name})
			}
		}
		if i >= 64 {
			a.Tables = []chain.AbiTable{{Name: chain.N("aa"), Type: "aa"}, {Name: chain.N("bb"), Type: "cc"}, {Name: chain.N("ee"), Type: "dd"}}
		}
		for _, n := range []string{"aa", "bb", "cc", "dd", "ee", "all", "bool", "name", "string", "asset", "bytes", "a.a", "aaa", "a", ""} {
			for _, t := range append(types, ref.Bi("bool"), ref.Bi("name"), ref.Bi("string"), ref.Bi("asset"), ref.Bi("bytes")) {
				v := abiVals(t)[len(abiVals(t))-1]
				in, _ := ref.AbiEnc(t, v)
				var b bytes.Buffer
				err := a.EncodeAction(&b, chain.N(n), v)
				got, derr := a.DecodeAction(bytes.NewReader(in), chain.N(n))
				m, merr := chain.Action{Name: chain.N(n), Data: in}.Decode(a)
				w.Eval(3)
				rt := reg[n]
				if rt == nil {
					if err == nil || derr == nil || merr == nil {
						w.Fail("unknown action %q of an ABI that has types of that name or others: encoding gives %x, %v, decoding %v, %v and %v, %v", n, b.Bytes(), err, got, derr, m, merr)
					}
					continue
				}
				want, werr := ref.AbiEnc(rt, v)
				if err != nil && t.Name == rt.Name || err == nil && (werr != nil || !bytes.Equal(b.Bytes(), want)) {
					w.Fail("action %q of type %s: %v encodes as %x, %v, want %x, %v", n, rt.Name, v, b.Bytes(), err, want, werr)
				}
				e, _, eerr := ref.AbiDec(rt, in)
				if (derr == nil) != (eerr == nil) || derr == nil && !ref.EqAny(got, e) {
					w.Fail("action %q of type %s: %x decodes as %v, %v, want %v, %v", n, rt.Name, in, got, derr, e, eerr)
				}
			}
		}
		w.NonTrivial()
	})
	// action types other than plain structs
	r.Sweep("action types", uint64(len(ts)), func(w *mcx.W, i uint64) {
		t := ts[i]
		a := ref.Abi(t)
		a.Actions = []chain.AbiAction{{Name: 5, Type: t.Expr()}}
		for _, v := range abiVals(t) {
			want, _ := ref.AbiEnc(t, v)
			e, _, _ := ref.AbiDec(t, want)
			got, err := a.DecodeAction(bytes.NewReader(want), 5)
			if err != nil || !ref.EqAny(got, e) {
				w.Fail("action of type %s: %x decodes as %v, %v, want %v", t.Expr(), want, got, err, e)
			}
			var b bytes.Buffer
			if err := a.EncodeAction(&b, 5, v); err != nil || !bytes.Equal(b.Bytes(), want) {
				w.Fail("action of type %s: %v encodes as %x, %v, want %x", t.Expr(), v, b.Bytes(), err, want)
			}
			m, err := chain.Action{Name: 5, Data: want}.Decode(a)
			if em, ok := e.(map[string]any); ok {
				if err != nil || !ref.EqAny(m, em) {
					w.Fail("Action.Decode of type %s: %x gives %v, %v, want %v", t.Expr(), want, m, err, e)
				}
			} else if err == nil {
				w.Fail("Action.Decode of type %s gives the map %v for %v", t.Expr(), m, e)
			}
		}
		w.NonTrivial()
	})
	// the alternative Go forms of uint64 and bytes
	r.Sweep("alternative forms", 400, func(w *mcx.W, i uint64) {
		t := ref.Struct("alt", nil, af("u", ref.Bi("uint64")), af("b", ref.Bi("bytes")), af("l", ref.Arr(ref.Bi("uint64"))), af("o", ref.Opt(ref.Bi("bytes"))))
		u := word(i*77, []byte{0, 1, 0x80, 0xff})
		b := pat(int(i), 3)
		abiCase(w, ref.Abi(t), t, map[string]any{"u": u, "b": b, "l": []any{u, chain.Uint64(u)}, "o": b})
		abiCase(w, ref.Abi(t), t, map[string]any{"u": chain.Uint64(u), "b": chain.Bytes(b), "l": []any{chain.Uint64(u), u}, "o": chain.Bytes(b)})
	})
	// recursion depth
	r.Sweep("recursive values", uint64(200+len(depths)-1), func(w *mcx.W, i uint64) {
		if i >= 200 {
			i = uint64(depths[i-200])
		}
		var n any = map[string]any{"v": uint8(1), "next": nil}
		var tr any = map[string]any{"v": "", "kids": []any{}}
		var ex any = []any{"int64", int64(3)}
		for k := uint64(0); k < i; k++ {
			n = map[string]any{"v": uint8(k), "next": n}
			tr = map[string]any{"v": "q", "kids": []any{tr}}
			switch k % 3 {
			case 0:
				ex = []any{"neg", map[string]any{"e": ex}}
			case 1:
				ex = []any{"expr[]", []any{ex, []any{"int64", int64(k)}}}
			case 2:
				ex = []any{"add", map[string]any{"l": []any{"int64", int64(0)}, "r": ex}}
			}
		}
		abiCase(w, ref.Abi(abiN.node), abiN.node, n)
		abiCase(w, ref.Abi(abiN.tree), abiN.tree, tr)
		abiCase(w, ref.Abi(abiN.expr), abiN.expr, ex)
	})
	// everything in one ABI, whatever the order of its definitions
	r.Sweep("definition order", 40, func(w *mcx.W, i uint64) {
		a := ref.Abi(abiN.all...)
		rotate(a.Structs, int(i))
		rotate(a.Types, int(i)*3)
		rotate(a.Variants, int(i)*5)
		if i >= 20 {
			reverse(a.Structs)
			reverse(a.Types)
		}
		for _, t := range abiN.all {
			for _, v := range abiVals(t) {
				abiCase(w, a, t, v)
			}
		}
	})
	// lookups
	r.Sweep("lookups", 8*8, func(w *mcx.W, i uint64) {
		a := mkAbi([8]int{int(i % 8), int(i % 8), int(i % 8), int(i % 8), 1, 1, 1, int(i % 8)})
		for k := 0; k < 9; k++ {
			in := k < int(i%8)
			if x := a.GetAction(chain.Name(k + 0x77)); (x != nil) != in || in && !ref.EqAny(*x, a.Actions[k]) {
				w.Fail("GetAction(%d) of %d gives %v", k, i%8, x)
			}
			if x := a.GetTable(chain.Name(k + 0x99)); (x != nil) != in || in && !ref.EqAny(*x, a.Tables[k]) {
				w.Fail("GetTable(%d) of %d gives %v", k, i%8, x)
			}
			if x := a.GetStruct(fmt.Sprintf("s%d", k)); (x != nil) != in || in && !ref.EqAny(*x, a.Structs[k]) {
				w.Fail("GetStruct(%d) of %d gives %v", k, i%8, x)
			}
			if x := a.GetType(fmt.Sprintf("t%d", k)); (x != nil) != in || in && !ref.EqAny(*x, a.Types[k]) {
				w.Fail("GetType(%d) of %d gives %v", k, i%8, x)
			}
			if x := a.GetVariant(fmt.Sprintf("v%d", k)); (x != nil) != in || in && !ref.EqAny(*x, a.Variants[k]) {
				w.Fail("GetVariant(%d) of %d gives %v", k, i%8, x)
			}
		}
	})
}

func rotate[T any](s []T, k int) {
	if len(s) == 0 {
		return
	}
	k %= len(s)
	c := append(append([]T{}, s[k:]...), s[:k]...)
	copy(s, c)
}

func reverse[T any](s []T) {
	for i, j := 0, len(s)-1; i < j; i, j = i+1, j-1 {
		s[i], s[j] = s[j], s[i]
	}
}

// mutate calls f with copies of v in which one node is replaced by bad (or, for map entries and nil, removed).
func mutate(v any, bad any, f func(any)) {
	f(bad)
	switch x := v.(type) {
	case []any:
		n := len(x)
		if n > 6 {
			n = 6
		}
		for i := 0; i < n; i++ {
			i := i
			mutate(x[i], bad, func(y any) {
				c := append([]any{}, x...)
				c[i] = y
				f(c)
			})
		}
	case map[string]any:
		for k := range x {
			k := k
			mutate(x[k], bad, func(y any) {
				c := map[string]any{}
				for kk, e := range x {
					c[kk] = e
				}
				if y == nil {
					delete(c, k)
				} else {
					c[k] = y
				}
				f(c)
			})
		}
	}
}
