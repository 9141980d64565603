package checks

import (
	"bytes"
	"fmt"
	"reflect"
	"runtime"
	"strings"

	"verif/mcx"
	"verif/ref"

	"github.com/greymass/go-eosio/pkg/chain"
)

func init() {
	register(&Check{
		ID: "C06", Level: "exploration",
		Rule:   "every byte string of the stated sets is decoded as every type and compared with the reference decoder (same value and length, or an error); for every value of the universe every byte of its encoding is replaced by every other byte value, removed, duplicated, and replaced by hostile length prefixes; allocation is measured around each hostile length; recursive types are fed nesting far beyond any legitimate depth; ABIs are enumerated over a small alphabet of definitions that includes empty, unknown, one-letter, circular and self-containing types. Crashes, hangs and panics of the driver process count as violations. Every case whose input is not a canonical encoding is non-trivial.",
		Bounds: "byte strings: all of length <=2 for 50 leaf/chain and 40 named types (length 3 for 20 types in thorough); alphabet {00,01,02,03,7f,80,ff,'A'} to length 4 (quick) / 5 (thorough) for 1100 composite types and to length 6 for leaves; mutations: at every position (the first 100) of every alphabet value of leaves, chain, named and depth-1 types, 256 replacement values for encodings up to 40 (quick) / 160 (thorough) bytes and 9 for longer ones; lengths claimed up to 2^32-1 and 2^63 with at most 2 MB + 64 KB per input byte allocated; nesting up to 4 MB (quick) / 64 MB (thorough) of input; ABIs: all of 20 type expressions in 4 definition slots.",
		Run:    runC06,
	})
}

// staticZeroWidth: some value of the type may occupy no bytes, so that a claimed count needs no input.
func staticZeroWidth(t reflect.Type) bool { return zw(t, map[reflect.Type]bool{}) }

func zw(t reflect.Type, seen map[reflect.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	defer delete(seen, t)
	switch t.Kind() {
	case reflect.Array:
		return t.Len() == 0 || zw(t.Elem(), seen)
	case reflect.Ptr:
		return zw(t.Elem(), seen)
	case reflect.Struct:
		if t == typeOf[chain.PublicKey]() || t == typeOf[chain.Signature]() {
			return false
		}
		for i := 0; i < t.NumField(); i++ {
			switch t.Field(i).Tag.Get("eosio") {
			case "optional", "variant":
				return false
			case "extension":
				continue
			}
			if !zw(t.Field(i).Type, seen) {
				return false
			}
		}
		return true
	}
	return false
}

// hasFreeCount: the type contains a counted container of elements that may occupy no bytes.
func hasFreeCount(t reflect.Type) bool { return hfc(t, map[reflect.Type]bool{}) }

func hfc(t reflect.Type, seen map[reflect.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	switch t.Kind() {
	case reflect.Slice:
		return staticZeroWidth(t.Elem()) || hfc(t.Elem(), seen)
	case reflect.Map:
		return staticZeroWidth(t.Key()) && staticZeroWidth(t.Elem()) || hfc(t.Key(), seen) || hfc(t.Elem(), seen)
	case reflect.Array, reflect.Ptr:
		return hfc(t.Elem(), seen)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if hfc(t.Field(i).Type, seen) {
				return true
			}
		}
	}
	return false
}

func noFreeCount(ts []reflect.Type) (out []reflect.Type) {
	for _, t := range ts {
		if !hasFreeCount(t) {
			out = append(out, t)
		}
	}
	return
}

// hostile decodes b as t with the given codec and compares with the reference.
func hostile(w *mcx.W, c codec, t reflect.Type, b []byte) {
	want, d, werr := ref.Dec(t, b)
	got, n, err := c.decodeNew(t, b)
	w.Eval(1)
	if d.Amb {
		return
	}
	if werr != nil {
		if err == nil {
			w.Fail("%s codec: %s as %s is not a value (%v) but decodes as %s", c.name, hexs(b), t, werr, show(got))
		}
		return
	}
	if d.Loose && err != nil {
		return
	}
	if err != nil || n != d.Pos || !ref.Eq(got, want) {
		w.Fail("%s codec: %s as %s decodes as %s, %v (%d bytes), want %s (%d bytes)", c.name, hexs(b), t, show(got), err, n, show(want), d.Pos)
	}
}

func hostileAbi(w *mcx.W, a *chain.Abi, t *ref.AT, b []byte) {
	want, d, werr := ref.AbiDec(t, b)
	got, n, err := abiDecode(a, t.Expr(), b)
	w.Eval(1)
	if d.Amb {
		return
	}
	if werr != nil {
		if err == nil {
			w.Fail("%s as ABI type %s is not a value (%v) but decodes as %v", hexs(b), t.Expr(), werr, clip(fmt.Sprint(got)))
		}
		return
	}
	if d.Loose && err != nil {
		return
	}
	if err != nil || n != d.Pos || !ref.EqAny(got, want) {
		w.Fail("%s as ABI type %s decodes as %v, %v (%d bytes), want %v (%d bytes)", hexs(b), t.Expr(), clip(fmt.Sprint(got)), err, n, clip(fmt.Sprint(want)), d.Pos)
	}
}

// strings over an alphabet of lengths 0..max, by index.
func alphaStrings(al []byte, max int) (uint64, func(uint64) []byte) {
	total := uint64(0)
	for n := 0; n <= max; n++ {
		total += pow(len(al), n)
	}
	return total, func(i uint64) []byte {
		n := 0
		for i >= pow(len(al), n) {
			i -= pow(len(al), n)
			n++
		}
		b := make([]byte, n)
		for k := range b {
			b[k] = al[i%uint64(len(al))]
			i /= uint64(len(al))
		}
		return b
	}
}

var al8 = []byte{0x00, 0x01, 0x02, 0x03, 0x7f, 0x80, 0xff, 'A'}

var bombs = [][]byte{
	{0xff, 0xff, 0xff, 0xff, 0x0f}, {0x80, 0x80, 0x80, 0x80, 0x08}, {0xff, 0xff, 0xff, 0xff, 0x07}, {0xff, 0xff, 0xff, 0x7f}, {0x80, 0x80, 0x80, 0x40}, {0xff, 0xff, 0x7f}, {0xff, 0xff, 0xff, 0x01}, {0xff, 0xff, 0xff, 0x07},
	{0x80, 0x80, 0x04}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01}, {0x80, 0x80, 0x80, 0x80, 0x10}, {0xff, 0xff, 0xff, 0xff, 0x1f},
}

func mutations(b []byte, full int, f func([]byte)) {
	n := len(b)
	if n > 100 {
		n = 100
	}
	buf := make([]byte, len(b), len(b)+16)
	for i := 0; i < n; i++ {
		copy(buf, b)
		if len(b) > full {
			for _, v := range []byte{0, 1, 2, 3, 0x7f, 0x80, 0xff, b[i] + 1, b[i] ^ 0x10} {
				if v != b[i] {
					buf[i] = v
					f(buf)
				}
			}
			continue
		}
		for v := 0; v < 256; v++ {
			if byte(v) != b[i] {
				buf[i] = byte(v)
				f(buf)
			}
		}
	}
	for i := 0; i < n; i++ {
		f(append(append(make([]byte, 0, len(b)), b[:i]...), b[i+1:]...))
		f(append(append(append(make([]byte, 0, len(b)+1), b[:i]...), b[i]), b[i:]...))
		for _, x := range bombs {
			f(append(append(append(make([]byte, 0, len(b)+10), b[:i]...), x...), b[i+1:]...))
		}
	}
}

// recursive types that a hostile input can nest without bound
type (
	selfSlice []selfSlice
	selfMap   map[uint8]selfMap
	selfReq   struct{ N *selfReq }
	selfReqM  struct{ A [1]**selfReqM }
	selfPP    *selfPP
	selfOpt   struct {
		N *selfOpt `eosio:"optional"`
	}
	selfPtrs struct{ N []*selfPtrs }
	selfVarV struct{ A, B *selfVar }
	selfVar  struct {
		V selfVarV `eosio:"variant"`
	}
	selfVarP struct {
		V *selfVarPV `eosio:"variant"`
	}
	selfVarPV struct {
		A *uint8
		B *selfVarP
	}
	selfExt struct {
		A uint8
		E *selfExt `eosio:"extension"`
	}
	selfArr struct{ A [1][]selfArr }
)

var selfTypes = []reflect.Type{typeOf[selfSlice](), typeOf[selfMap](), typeOf[selfOpt](), typeOf[selfPtrs](), typeOf[selfVar](), typeOf[selfVarP](), typeOf[selfExt](), typeOf[selfArr](),
	typeOf[selfReq](), typeOf[[]selfReq](), typeOf[[2]*selfReq](), typeOf[map[uint8]selfReq](), typeOf[selfReqM](), typeOf[selfPP](),
	typeOf[node](), typeOf[tree](), typeOf[treeM](), typeOf[mutA](), typeOf[mutB](), typeOf[expr]()}

var nestPatterns = [][]byte{{1}, {1, 1}, {1, 0}, {0, 1}, {1, 2}, {2, 1}, {1, 1, 1, 'a'}, {0, 1, 1}, {2, 2}, {3, 1}, {1, 1, 0}, {2, 1, 1}, {1, 'a', 1}, {1, 'a'}}

func runC06(r *mcx.Run) {
	all := append(append([]reflect.Type{}, builtinLeaves...), chainLeaves...)
	named := noFreeCount(append(append(append([]reflect.Type{}, namedTypes...), extTypes...), selfTypes[:8]...))
	d1 := noFreeCount(append(closure(all, 1, allCtors), closure(named, 1, allCtors)...))
	leaves := append(append([]reflect.Type{}, all...), named...)

	base := abiBase()
	var ts []*ref.AT
	for _, t := range base {
		for _, x := range suffixed(t, 2) {
			if !abiFreeCount(x, map[*ref.AT]bool{}) {
				ts = append(ts, x)
			}
		}
	}
	abis := make([]*chain.Abi, len(ts))
	for i, t := range ts {
		abis[i] = ref.Abi(t)
	}

	// allocation, measured alone
	workers := r.Workers
	r.Workers = 1
	type alloc struct {
		name string
		f    func([]byte) error
		in   []byte
	}
	var as []alloc
	addAlloc := func(name string, f func([]byte) error, b []byte) {
		n := len(b)
		if n > 40 {
			n = 40
		}
		for i := 0; i <= n; i++ {
			for _, x := range bombs {
				m := append(append([]byte{}, b[:i]...), x...)
				as = append(as, alloc{name, f, m})
				if i < len(b) {
					as = append(as, alloc{name, f, append(append([]byte{}, m...), b[i+1:]...)})
				}
			}
		}
	}
	at := append(append([]reflect.Type{}, leaves...), noFreeCount(closure(mcx.Pick(r, []reflect.Type{typeOf[uint8](), typeOf[string](), typeOf[uint64](), typeOf[chain.Transaction](), typeOf[chain.PublicKey](), typeOf[chain.Checksum512](), typeOf[[200]uint64]()}, all), 1, allCtors))...)
	for _, t := range at {
		t := t
		vs := []reflect.Value{}
		if t.Name() == "" || len(t.Name()) < 4 || t.Name()[:4] != "self" {
			vs = vals(t)
		}
		f := func(b []byte) error { _, _, err := codecs[0].decodeNew(t, b); return err }
		if len(vs) > 0 {
			b, _ := ref.Enc(vs[0])
			addAlloc(t.String(), f, b)
			b, _ = ref.Enc(vs[len(vs)-1])
			if len(b) < 400 {
				addAlloc(t.String(), f, b)
			}
		} else {
			addAlloc(t.String(), f, []byte{1, 1, 1, 1})
		}
	}
	for i, t := range ts {
		a, t := abis[i], t
		vs := abiVals(t)
		b, _ := ref.AbiEnc(t, vs[len(vs)/2])
		addAlloc("ABI type "+t.Expr(), func(b []byte) error { _, _, err := abiDecode(a, t.Expr(), b); return err }, b)
	}
	var worst uint64
	r.Sweep("allocation", uint64(len(as)), func(w *mcx.W, i uint64) {
		a := as[i]
		var m0, m1 runtime.MemStats
		runtime.ReadMemStats(&m0)
		a.f(a.in)
		runtime.ReadMemStats(&m1)
		used := m1.TotalAlloc - m0.TotalAlloc
		if used > worst {
			worst = used
		}
		limit := uint64(2<<20) + uint64(len(a.in))<<16
		if strings.Contains(a.name, "[200]") {
			limit += 14 << 20 // a thousand elements of these are larger
		}
		if used > limit {
			w.Fail("decoding %d bytes %s as %s allocates %d bytes", len(a.in), hexs(a.in), clip(a.name), used)
		}
		w.NonTrivial()
	})
	r.Note("largest_allocation_bytes", worst)
	r.Workers = workers

	r.Sweep(fmt.Sprintf("all strings len<=2 (%d types)", len(leaves)), uint64(len(leaves))*(1+256+65536), func(w *mcx.W, i uint64) {
		t := leaves[i%uint64(len(leaves))]
		k := i / uint64(len(leaves))
		var b []byte
		switch {
		case k == 0:
		case k <= 256:
			b = []byte{byte(k - 1)}
		default:
			b = []byte{byte((k - 257) >> 8), byte(k - 257)}
		}
		hostile(w, codecs[0], t, b)
		w.NonTrivial()
	})
	if r.Thorough {
		short := []reflect.Type{typeOf[uint](), typeOf[int](), typeOf[string](), typeOf[[]byte](), typeOf[[]uint16](), typeOf[map[uint8]uint8](), typeOf[node](), typeOf[tree](), typeOf[treeM](), typeOf[expr](),
			typeOf[optMix](), typeOf[ext2](), typeOf[extStruct](), typeOf[mutA](), typeOf[selfSlice](), typeOf[selfVar](), typeOf[[]*string](), typeOf[[2][]bool](), typeOf[varPtr](), typeOf[selfMap]()}
		r.Sweep("all strings len 3", uint64(len(short))<<24, func(w *mcx.W, i uint64) {
			k := i >> 0
			b := []byte{byte(k), byte(k >> 8), byte(k >> 16)}
			hostile(w, codecs[0], short[i>>24], b)
			w.NonTrivial()
		})
	}
	nl, sl := alphaStrings(al8, mcx.Pick(r, 5, 7))
	r.Sweep("alphabet strings, leaves", uint64(len(leaves))*nl, func(w *mcx.W, i uint64) {
		t := leaves[i%uint64(len(leaves))]
		hostile(w, codecs[0], t, sl(i/uint64(len(leaves))))
		w.NonTrivial()
	})
	nc, sc := alphaStrings(al8, mcx.Pick(r, 4, 5))
	r.Sweep(fmt.Sprintf("alphabet strings, composites (%d types)", len(d1)), uint64(len(d1))*nc, func(w *mcx.W, i uint64) {
		t := d1[i%uint64(len(d1))]
		hostile(w, codecs[i%3], t, sc(i/uint64(len(d1))))
		w.NonTrivial()
	})
	if r.Thorough {
		d2 := noFreeCount(closure(leavesC02(), 2, allCtors))
		n3, s3 := alphaStrings(al8, 4)
		r.Sweep(fmt.Sprintf("alphabet strings, depth 2 (%d types)", len(d2)), uint64(len(d2))*n3, func(w *mcx.W, i uint64) {
			hostile(w, codecs[i%3], d2[i%uint64(len(d2))], s3(i/uint64(len(d2))))
			w.NonTrivial()
		})
	}
	mut := func(w *mcx.W, v reflect.Value) {
		b, err := ref.Enc(v)
		if err != nil {
			panic(err)
		}
		k := 0
		mutations(b, mcx.Pick(r, 14, 160), func(m []byte) {
			hostile(w, codecs[k%3], v.Type(), m)
			k++
			w.NonTrivial()
		})
	}
	sweepTypes(r, "mutations of leaves", all, mut)
	sweepTypes(r, "mutations of named", noFreeCount(append(append([]reflect.Type{}, namedTypes...), extTypes...)), mut)
	sweepTypes(r, "mutations of depth 1", noFreeCount(closure(mcx.Pick(r, leavesC02(), all), 1, allCtors)), mut)

	// ABI-driven
	na, sa := alphaStrings(al8, mcx.Pick(r, 4, 5))
	r.Sweep(fmt.Sprintf("abi alphabet strings (%d types)", len(ts)), uint64(len(ts))*na, func(w *mcx.W, i uint64) {
		k := i % uint64(len(ts))
		hostileAbi(w, abis[k], ts[k], sa(i/uint64(len(ts))))
		w.NonTrivial()
	})
	var recs []int
	for i, t := range ts {
		if t.K != ref.ABuiltin && len(t.Expr()) < mcx.Pick(r, 5, 12) {
			recs = append(recs, i)
		}
	}
	r.Sweep("abi all strings len 2", uint64(len(recs))*65536, func(w *mcx.W, i uint64) {
		k := recs[i>>16]
		hostileAbi(w, abis[k], ts[k], []byte{byte(i), byte(i >> 8)})
		w.NonTrivial()
	})
	sweepAbi(r, "abi mutations", ts, func(w *mcx.W, a *chain.Abi, t *ref.AT, v any) {
		b, err := ref.AbiEnc(t, v)
		if err != nil {
			panic(err)
		}
		mutations(b, mcx.Pick(r, 14, 160), func(m []byte) {
			hostileAbi(w, a, t, m)
			w.NonTrivial()
		})
	})

	// nesting
	maxNest := mcx.Pick(r, 4<<20, 64<<20)
	sizes := []int{100, 5000, 9999, 10000, 10001, 20000, 100000, 1 << 20, maxNest}
	r.Sweep("nesting", uint64(len(selfTypes)*len(nestPatterns)*len(sizes)), func(w *mcx.W, i uint64) {
		t := selfTypes[i%uint64(len(selfTypes))]
		p := nestPatterns[i/uint64(len(selfTypes))%uint64(len(nestPatterns))]
		b := bytes.Repeat(p, sizes[i/uint64(len(selfTypes)*len(nestPatterns))]/len(p))
		for _, c := range codecs[:2] {
			_, _, err := c.decodeNew(t, b)
			if err == nil && (t == typeOf[selfReq]() || t == typeOf[selfReqM]() || t == typeOf[[2]*selfReq]() || t == typeOf[selfPP]()) {
				w.Fail("a type that contains itself decodes from %d bytes", len(b))
			}
		}
		w.NonTrivial()
	})
	abiRec := []*ref.AT{abiN.node, abiN.tree, abiN.expr, abiN.mutA, abiN.mutB}
	r.Sweep("abi nesting", uint64(len(abiRec)*len(nestPatterns)*len(sizes)), func(w *mcx.W, i uint64) {
		t := abiRec[i%uint64(len(abiRec))]
		p := nestPatterns[i/uint64(len(abiRec))%uint64(len(nestPatterns))]
		b := bytes.Repeat(p, sizes[i/uint64(len(abiRec)*len(nestPatterns))]/len(p))
		abiDecode(ref.Abi(t), t.Expr(), b)
		w.NonTrivial()
	})

	runHostileAbis(r)
}

func abiFreeCount(t *ref.AT, seen map[*ref.AT]bool) bool {
	if t == nil || seen[t] {
		return false
	}
	seen[t] = true
	if t.K == ref.AArray && zeroWidth(t.Elem) {
		return true
	}
	if abiFreeCount(t.Elem, seen) || abiFreeCount(t.Base, seen) {
		return true
	}
	for _, f := range t.Fields {
		if abiFreeCount(f.T, seen) {
			return true
		}
	}
	for _, a := range t.Alts {
		if abiFreeCount(a, seen) {
			return true
		}
	}
	return false
}

// abiMust predicts, for a textual ABI, whether decoding ones (an endless stream of 01 bytes, cut at 4 KB)
// as the given type can only be an error: it walks the definitions the way EOSIO reads them. Values: error
// certain (true) or unknown (false).
func runHostileAbis(r *mcx.Run) {
	exprs := []string{"", "?", "[]", "$", "[]?", "?[]", "??", "[][]", "x", "?x", "]", "uint8", "uint8?", "s", "s?", "s[]", "s$", "t", "t[]", "v", "v?", "nope", "t$", "s?$"}
	if !r.Thorough {
		exprs = []string{"", "?", "[]", "$", "?[]", "[][]", "x", "uint8", "s", "s?", "s[]", "t", "v", "t$"}
	}
	ne := uint64(len(exprs))
	inputs := [][]byte{nil, {0}, {1}, bytes.Repeat([]byte{1}, 64), {1, 0, 1, 0, 1, 0}, bytes.Repeat([]byte{0}, 64), {2, 2, 2, 2}}
	values := []any{nil, uint8(1), []any{}, []any{uint8(1)}, map[string]any{}, map[string]any{"f": uint8(1)}, map[string]any{"f": map[string]any{"f": nil}}, []any{"s", map[string]any{"f": uint8(1)}}, []any{"uint8", uint8(1)}, []any{"", nil}, []any{"v", []any{"v", nil}}}
	r.Sweep("malformed abis", ne*ne*ne*ne, func(w *mcx.W, i uint64) {
		d := func() string { v := exprs[i%ne]; i /= ne; return v }
		al, fl, bs, vr := d(), d(), d(), d()
		a := &chain.Abi{Types: []chain.AbiType{{NewTypeName: "t", Type: al}}, Structs: []chain.AbiStruct{{Name: "s", Base: bs, Fields: []chain.AbiField{{Name: "f", Type: fl}}}},
			Variants: []chain.AbiVariant{{Name: "v", Types: []string{vr, "uint8"}}}}
		for _, top := range []string{"t", "s", "v"} {
			for _, b := range inputs[:4] {
				got, _, err := abiDecode(a, top, b)
				if err == nil && mustFail(a, top, b) {
					w.Fail("ABI t=%q s{base %q, f %q} v{%q}: %x decodes as %s %v", al, bs, fl, vr, b, top, got)
				}
			}
			for _, v := range values[:6] {
				abiEncode(a, top, v)
			}
		}
		w.NonTrivial()
	})
	// two fields / alternatives and every type expression asked for directly
	r.Sweep("malformed abis, pairs", ne*ne*ne, func(w *mcx.W, i uint64) {
		d := func() string { v := exprs[i%ne]; i /= ne; return v }
		x, y, z := d(), d(), d()
		a := &chain.Abi{Types: []chain.AbiType{{NewTypeName: "t", Type: z}}, Structs: []chain.AbiStruct{{Name: "s", Fields: []chain.AbiField{{Name: "f", Type: x}, {Name: "g", Type: y}}}},
			Variants: []chain.AbiVariant{{Name: "v", Types: []string{x, y}}}}
		for _, top := range exprs {
			for _, b := range inputs {
				got, _, err := abiDecode(a, top, b)
				if err == nil && mustFail(a, top, b) {
					w.Fail("ABI t=%q s{f %q, g %q} v{%q, %q}: %x decodes as %q %v", z, x, y, x, y, b, top, got)
				}
			}
		}
		for _, top := range []string{"t", "s", "v", "s[]", "t?"} {
			for _, v := range values {
				abiEncode(a, top, v)
			}
		}
		w.NonTrivial()
	})
	// long circular chains of every kind
	r.Sweep("circular chains", 4*60*2, func(w *mcx.W, i uint64) {
		kind, n, closed := i%4, int(i/4%60)+1, i/240 == 1
		if n > 50 {
			n = (n - 50) * 400
		}
		a := &chain.Abi{}
		for k := 0; k < n; k++ {
			nm, nx := fmt.Sprintf("k%d", k), fmt.Sprintf("k%d", k+1)
			if k == n-1 {
				nx = "uint8"
				if kind == 2 {
					nx = ""
				}
				if closed {
					nx = "k0"
				}
			}
			switch kind {
			case 0:
				a.Types = append(a.Types, chain.AbiType{NewTypeName: nm, Type: nx})
			case 1:
				a.Structs = append(a.Structs, chain.AbiStruct{Name: nm, Fields: []chain.AbiField{{Name: "f", Type: nx}}})
			case 2:
				a.Structs = append(a.Structs, chain.AbiStruct{Name: nm, Base: nx, Fields: []chain.AbiField{{Name: nm, Type: "uint8"}}})
			case 3:
				a.Variants = append(a.Variants, chain.AbiVariant{Name: nm, Types: []string{nx, nx}})
			}
		}
		in := bytes.Repeat([]byte{1}, n+5)
		got, _, err := abiDecode(a, "k0", in)
		if closed && err == nil {
			w.Fail("circular chain of %d (kind %d) decodes as %v", n, kind, got)
		}
		if !closed && err != nil && n < 1000 {
			w.Fail("chain of %d (kind %d) does not decode: %v", n, kind, err)
		}
		// endless values
		loop := map[string]any{}
		loop["f"] = loop
		for k := 0; k < n; k++ {
			loop[fmt.Sprintf("k%d", k)] = uint8(1)
		}
		for _, v := range []any{uint8(1), loop, map[string]any{}, nil, []any{"k1", []any{"k0", uint8(1)}}} {
			b, err := abiEncode(a, "k0", v)
			if closed && err == nil {
				w.Fail("circular chain of %d (kind %d) encodes %T as %x", n, kind, v, b)
			}
		}
		w.NonTrivial()
	})
}

// mustFail is a reference reading of a textual ABI: true if decoding b as the type must be an error because
// an empty, unknown or endless type is reached or the input ends. It gives up (false) on extensions.
func mustFail(a *chain.Abi, top string, b []byte) bool {
	pos := 0
	unknown := false
	var read func(t string, depth int) bool // true: error
	read = func(t string, depth int) bool {
		if unknown {
			return false
		}
		if depth > 5000 {
			return true
		}
		n := len(t)
		switch {
		case n > 0 && t[n-1] == '$':
			unknown = true
			return false
		case n > 0 && t[n-1] == '?':
			if pos == len(b) {
				return true
			}
			pos++
			if b[pos-1] == 0 {
				return false
			}
			return read(t[:n-1], depth+1)
		case n > 1 && t[n-2:] == "[]":
			if pos == len(b) {
				return true
			}
			c := int(b[pos])
			pos++
			for i := 0; i < c; i++ {
				if read(t[:n-2], depth+1) {
					return true
				}
			}
			return false
		}
		if s := find(a.Structs, func(s chain.AbiStruct) bool { return s.Name == t }); s != nil {
			if s.Base != "" {
				bt := s.Base
				for k := 0; ; k++ {
					if k > 100 {
						return true
					}
					al := find(a.Types, func(x chain.AbiType) bool { return x.NewTypeName == bt })
					if al == nil {
						break
					}
					bt = al.Type
				}
				if find(a.Structs, func(x chain.AbiStruct) bool { return x.Name == bt }) == nil {
					if l := len(bt); l > 0 && (bt[l-1] == '?' || bt[l-1] == ']' || bt[l-1] == '$') {
						unknown = true // base with a suffix: not defined
						return false
					}
					return true
				}
				if read(bt, depth+1) {
					return true
				}
			}
			for _, f := range s.Fields {
				if read(f.Type, depth+1) {
					return true
				}
			}
			return false
		}
		if v := find(a.Variants, func(v chain.AbiVariant) bool { return v.Name == t }); v != nil {
			if pos == len(b) {
				return true
			}
			k := int(b[pos])
			pos++
			if k >= len(v.Types) {
				return true
			}
			return read(v.Types[k], depth+1)
		}
		if al := find(a.Types, func(x chain.AbiType) bool { return x.NewTypeName == t }); al != nil {
			return read(al.Type, depth+1)
		}
		if t == "uint8" {
			if pos == len(b) {
				return true
			}
			pos++
			return false
		}
		return true
	}
	return read(top, 0) && !unknown
}

func find[T any](s []T, f func(T) bool) *T {
	for i := range s {
		if f(s[i]) {
			return &s[i]
		}
	}
	return nil
}
