package checks

import (
	"fmt"
	"reflect"

	"verif/mcx"
	"verif/ref"
)

func init() {
	register(&Check{
		ID: "C02", Level: "exploration",
		Rule:   "types are built by applying every combination of 14 type constructors (slice, array, maps, pointers, structs, optional, extension, variant, ...) to the leaf types; for every type every value of a systematic alphabet (empty, single, several elements; extremes of each leaf) is encoded by every codec path, compared with the reference encoder and decoded back with trailing bytes. A case is non-trivial when the encoding has at least two bytes.",
		Bounds: "constructor depth 0..2 over 22 leaves and depth 3 over 3 leaves (quick); depth 3 over all leaves and depth 4 over 2 leaves (thorough); 30 hand-written named, recursive, embedded and map types; variants of 1..300 alternatives; recursion up to 2000 levels.",
		Run:    runC02,
	})
}

type tcase struct {
	t reflect.Type
	v []reflect.Value
}

func cases(ts []reflect.Type) (out []struct {
	t reflect.Type
	k int
}) {
	for _, t := range ts {
		n := len(vals(t))
		for k := 0; k < n; k++ {
			out = append(out, struct {
				t reflect.Type
				k int
			}{t, k})
		}
	}
	return
}

// sweepTypes runs f on every value of every type.
// depths are nesting depths around likely limits.
var depths = []int{200, 254, 255, 256, 257, 299, 300, 399, 400, 499, 500, 501, 511, 512, 513, 600, 700, 800, 900, 999, 1000, 1001, 1022, 1023, 1024, 1025, 1026, 1200, 1500}

func sweepTypes(r *mcx.Run, name string, ts []reflect.Type, f func(w *mcx.W, v reflect.Value)) {
	cs := cases(ts)
	r.Sweep(fmt.Sprintf("%s (%d types)", name, len(ts)), uint64(len(cs)), func(w *mcx.W, i uint64) {
		f(w, vals(cs[i].t)[cs[i].k])
	})
}

func leavesC02() []reflect.Type {
	l := append([]reflect.Type{}, builtinLeaves...)
	for _, t := range chainLeaves {
		switch t.Name() {
		case "Name", "Asset", "Checksum160", "PublicKey", "Bytes", "Uint128", "TimePointSec":
			l = append(l, t)
		}
	}
	return l
}

func runC02(r *mcx.Run) {
	leaves := leavesC02()
	small := []reflect.Type{typeOf[uint8](), typeOf[string](), leaves[15]}
	check := func(w *mcx.W, v reflect.Value) {
		roundTrip(w, v)
		if e, _ := ref.Enc(v); len(e) > 1 {
			w.NonTrivial()
		}
		w.Sample(func() string { return show(v) })
	}
	sweepTypes(r, "leaves", leaves, check)
	sweepTypes(r, "named", append(append([]reflect.Type{}, namedTypes...), extTypes...), check)
	sweepTypes(r, "depth 1", closure(leaves, 1, allCtors), check)
	sweepTypes(r, "depth 2", closure(leaves, 2, allCtors), check)
	sweepTypes(r, "depth 3", closure(mcx.Pick(r, small, leaves), 3, allCtors), check)
	if r.Thorough {
		sweepTypes(r, "depth 4", closure(small[:2], 4, allCtors), check)
	}
	sweepTypes(r, "named depth 1", closure(append(append([]reflect.Type{}, namedTypes...), extTypes...), 1, allCtors), check)

	// different types with the same name
	var same []reflect.Value
	for _, v := range sameNamed() {
		same = append(same, reflect.ValueOf(v), reflect.Zero(reflect.TypeOf(v)), ptrTo(reflect.ValueOf(v)))
	}
	r.Sweep("types of the same name", uint64(len(same)), func(w *mcx.W, i uint64) { check(w, same[i]) })

	// all pairs of leaves in one struct
	var pairs []reflect.Type
	for _, a := range leaves {
		for _, b := range leaves {
			pairs = append(pairs, reflect.StructOf([]reflect.StructField{field("A", a, ""), field("B", b, ""), field("C", reflect.PointerTo(a), "optional")}))
		}
	}
	sweepTypes(r, "pairs", pairs, check)

	// missing trailing extensions
	exts := append([]reflect.Type{}, extTypes...)
	for _, t := range closure(leaves, 1, allCtors) {
		if x, ok := construct(9, t); ok {
			exts = append(exts, x)
		}
	}
	for _, t := range leaves {
		if x, ok := construct(9, t); ok {
			exts = append(exts, x)
		}
	}
	sweepTypes(r, "absent extensions", exts, func(w *mcx.W, v reflect.Value) {
		// rebuild the value with its extensions cleared, encode only the part before them
		t := v.Type()
		x := reflect.New(t).Elem()
		var b []byte
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).Tag.Get("eosio") == "extension" {
				break
			}
			x.Field(i).Set(v.Field(i))
			e, err := ref.Enc(v.Field(i))
			if err != nil {
				panic(err)
			}
			b = append(b, e...)
		}
		for _, c := range codecs {
			got, n, err := c.decodeNew(t, b)
			if err != nil || n != len(b) || !ref.Eq(got, x) {
				w.Fail("%s codec: %x without its extension decodes as %s, %v, want %s", c.name, b, show(got), err, show(x))
			}
			// into a destination that already has the extension set
			p := ptrTo(ref.Clone(v))
			if _, err := c.decode(b, p.Interface()); err != nil || !ref.Eq(p.Elem(), x) {
				w.Fail("%s codec: %x without its extension decodes into a used destination as %s, %v, want %s", c.name, b, show(p.Elem()), err, show(x))
			}
		}
		w.NonTrivial()
	})

	// absent extensions behind a lot of data
	type extP struct {
		A string
		B []uint16
		E *inner   `eosio:"extension"`
		F []string `eosio:"extension"`
	}
	longs := []int{0, 1, 100, 127, 128, 255, 256, 1023, 1024, 1025, 4096, 16384, 65530, 65535, 65536, 65537, 70000, 1 << 17, 1 << 20, 1<<24 + 1}
	r.Sweep("absent extensions behind long data", uint64(len(longs)), func(w *mcx.W, i uint64) {
		s := string(pat(longs[i], 1))
		for _, v := range []any{extP{A: s}, extP{A: s, B: []uint16{1}}, extP{A: "a", B: make([]uint16, min(longs[i], 70000))}} {
			x := reflect.ValueOf(v)
			b, err := ref.Enc(x.Field(0))
			if err != nil {
				panic(err)
			}
			b2, _ := ref.Enc(x.Field(1))
			b = append(b, b2...)
			for _, c := range codecs {
				got, n, err := c.decodeNew(x.Type(), b)
				if err != nil || n != len(b) || !ref.Eq(got, x) {
					w.Fail("%s codec: %d bytes without extensions decode as %s, %v", c.name, len(b), show(got), err)
				}
			}
		}
		w.NonTrivial()
	})

	// variants with many alternatives
	for _, n := range []int{1, 2, 3, 127, 128, 129, 200, 255, 256, 257, 300} {
		n := n
		fs := make([]reflect.StructField, n)
		for i := range fs {
			t := builtinLeaves[i%len(builtinLeaves)]
			fs[i] = field(fmt.Sprintf("V%d", i), reflect.PointerTo(t), "")
		}
		vt := reflect.StructOf(fs)
		t := reflect.StructOf([]reflect.StructField{field("A", vt, "variant"), field("B", typeOf[uint16](), "")})
		r.Sweep(fmt.Sprintf("variant of %d", n), uint64(n+40), func(w *mcx.W, i uint64) {
			v := reflect.New(t).Elem()
			v.Field(1).SetUint(0x0102)
			if i < uint64(n) {
				x := vals(fs[i].Type.Elem())
				v.Field(0).Field(int(i)).Set(ptrTo(x[len(x)-1]))
				roundTrip(w, v)
				w.NonTrivial()
				// decoding over another alternative leaves exactly one set
				b, _ := ref.Enc(v)
				for _, c := range codecs {
					p := reflect.New(t)
					for j := 0; j < n; j++ {
						y := vals(fs[j].Type.Elem())
						p.Elem().Field(0).Field(j).Set(ptrTo(ref.Clone(y[0])))
					}
					if _, err := c.decode(b, p.Interface()); err != nil || !ref.Eq(p.Elem(), v) {
						w.Fail("%s codec: variant %d of %d decodes over other alternatives as %s, %v", c.name, i, n, show(p.Elem()), err)
					}
				}
				return
			}
			// index out of range
			idx := uint64(n) + (i-uint64(n))*(i-uint64(n))*1000
			b := append(ref.Uvar(idx), 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1)
			for _, c := range codecs {
				if got, _, err := c.decodeNew(t, b); err == nil {
					w.Fail("%s codec: variant index %d of %d alternatives is accepted as %s", c.name, idx, n, show(got))
				}
			}
		})
	}
	// invalid variants: none or more than one alternative set
	r.Sweep("variant not single", 7, func(w *mcx.W, i uint64) {
		n := int64(3)
		e := exprV{}
		if i&1 != 0 {
			e.Num = &n
		}
		if i&2 != 0 {
			e.Neg = &expr{exprV{Num: &n}}
		}
		if i&4 != 0 {
			e.Add = &[]expr{}
		}
		if i == 1 || i == 2 || i == 4 {
			return
		}
		for _, c := range codecs {
			if b, err := c.encode(expr{e}); err == nil {
				w.Fail("%s codec encodes a variant with alternatives %03b set as %x", c.name, i, b)
			}
			if b, err := c.encode(&varPtr{V: &e}); err == nil {
				w.Fail("%s codec encodes a variant pointer with alternatives %03b set as %x", c.name, i, b)
			}
		}
		w.NonTrivial()
	})

	// nil where a value is required
	var nils []reflect.Type
	for _, t := range append(append(append([]reflect.Type{}, leaves...), chainLeaves...), namedTypes...) {
		nils = append(nils, reflect.PointerTo(t))
	}
	r.Sweep("nil pointers", uint64(len(nils)*7), func(w *mcx.W, i uint64) {
		t := nils[i/7]
		z := reflect.Zero(t)
		var v reflect.Value
		switch i % 7 {
		case 0:
			v = z
		case 1:
			v = reflect.Append(reflect.MakeSlice(reflect.SliceOf(t), 0, 1), z)
		case 2:
			v = reflect.Zero(reflect.ArrayOf(2, t))
		case 3:
			v = reflect.MakeMap(reflect.MapOf(typeOf[string](), t))
			v.SetMapIndex(reflect.ValueOf("k"), z)
		case 4:
			v = reflect.Zero(reflect.StructOf([]reflect.StructField{field("A", t, "")}))
		case 5:
			v = ptrTo(z)
		case 6:
			v = reflect.Zero(reflect.StructOf([]reflect.StructField{field("B", typeOf[uint8](), ""), field("A", reflect.ArrayOf(1, t), "")}))
		}
		for _, c := range codecs {
			if b, err := c.encode(v.Interface()); err == nil {
				w.Fail("%s codec encodes nil %s in a required position as %x", c.name, t, b)
			}
		}
		w.NonTrivial()
	})

	// nil among values: every position of a container of one to five pointers
	r.Sweep("nil among values", uint64(len(nils)*15*4), func(w *mcx.W, i uint64) {
		t := nils[i/60]
		n, pos := 1, int(i/4%15)
		for pos >= n {
			pos -= n
			n++
		}
		x := vals(t.Elem())
		elem := func(k int) reflect.Value {
			if k == pos {
				return reflect.Zero(t)
			}
			return ptrTo(x[k%len(x)])
		}
		var v reflect.Value
		switch i % 4 {
		case 0:
			v = reflect.MakeSlice(reflect.SliceOf(t), n, n)
			for k := 0; k < n; k++ {
				v.Index(k).Set(elem(k))
			}
		case 1:
			v = reflect.New(reflect.ArrayOf(n, t)).Elem()
			for k := 0; k < n; k++ {
				v.Index(k).Set(elem(k))
			}
		case 2:
			v = reflect.MakeMap(reflect.MapOf(typeOf[uint16](), t))
			for k := 0; k < n; k++ {
				v.SetMapIndex(reflect.ValueOf(uint16(k*300)), elem(k))
			}
		case 3:
			fs := make([]reflect.StructField, n)
			for k := range fs {
				fs[k] = field(fmt.Sprintf("F%d", k), t, "")
			}
			v = reflect.New(reflect.StructOf(fs)).Elem()
			for k := 0; k < n; k++ {
				v.Field(k).Set(elem(k))
			}
		}
		for _, c := range codecs {
			if b, err := c.encode(v.Interface()); err == nil {
				w.Fail("%s codec encodes %s with nil in place %d of %d as %s", c.name, v.Type(), pos, n, hexs(b))
			}
		}
		w.NonTrivial()
	})

	// deep but legitimate recursion
	n0 := mcx.Pick(r, 300, 1500)
	r.Sweep("recursion depth", uint64(n0+len(depths)), func(w *mcx.W, i uint64) {
		d := int(i)
		if d >= n0 {
			d = depths[d-n0]
		}
		n := node{V: byte(d)}
		tr := tree{V: "x"}
		num := int64(d)
		ex := expr{exprV{Num: &num}}
		for k := 0; k < d; k++ {
			c := n
			n = node{V: byte(k), Next: &c}
			tr = tree{V: "y", Kids: []tree{tr}}
			e2 := ex
			if k%2 == 0 {
				ex = expr{exprV{Neg: &e2}}
			} else {
				ex = expr{exprV{Add: &[]expr{e2}}}
			}
		}
		roundTrip(w, reflect.ValueOf(n))
		roundTrip(w, reflect.ValueOf(tr))
		roundTrip(w, reflect.ValueOf(ex))
		w.NonTrivial()
	})

	// long containers around every length-prefix and growth boundary
	lens := []int{}
	for _, c := range []int{0, 1, 127, 128, 255, 256, 512, 1023, 1024, 1025, 1100, 2047, 2048, 2049, 4096, 5000, 16383, 16384, 16385, 40000, 65535, 65536, 65537} {
		lens = append(lens, c)
	}
	r.Sweep("long containers", uint64(len(lens)), func(w *mcx.W, i uint64) {
		n := lens[i]
		a := make([]uint16, n)
		b := make([]string, n)
		c := make([]*inner, n)
		m := make(map[uint32]uint8, n)
		e := make([]node, n)
		for k := 0; k < n; k++ {
			a[k] = uint16(k * 7)
			b[k] = fmt.Sprint(k % 13)
			c[k] = &inner{byte(k), "z"}
			m[uint32(k*11)] = byte(k)
			e[k].V = byte(k)
			if k%3 == 0 {
				e[k].Next = &node{V: 1}
			}
		}
		for _, v := range []any{a, b, c, m, e, struct{ X, Y []uint16 }{a, a}} {
			roundTrip(w, reflect.ValueOf(v))
		}
		w.NonTrivial()
	})

	// more elements of every type than any limit on nesting
	var many []reflect.Type
	many = append(append(many, leaves...), namedTypes...)
	many = append(append(many, closure(small, 1, allCtors)...), closure(small[1:2], 2, allCtors)...)
	r.Sweep("lists of 10100", uint64(len(many)), func(w *mcx.W, i uint64) {
		t := many[i]
		l := reflect.MakeSlice(reflect.SliceOf(t), 0, 10100)
		var short []reflect.Value
		for _, v := range vals(t) {
			if b, err := ref.Enc(v); err == nil && len(b) > 0 && len(b) < 64 {
				short = append(short, v)
			}
		}
		for len(short) > 0 && l.Len() < 10100 {
			l = reflect.Append(l, short[l.Len()%len(short)])
		}
		roundTrip(w, l)
		w.NonTrivial()
	})

	// long arrays of every leaf
	alens := mcx.Pick(r, []int{2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513, 1023, 1024, 1025, 2048, 4097}, []int{5, 10, 64, 100, 255, 256, 257, 1000, 1024, 1025, 4096, 4097, 16384, 32767, 32768, 65535, 65536, 65537})
	r.Sweep("long arrays", uint64(len(alens)*len(leaves)), func(w *mcx.W, i uint64) {
		n, t := alens[i%uint64(len(alens))], leaves[i/uint64(len(alens))]
		v := reflect.New(reflect.ArrayOf(n, t)).Elem()
		x := vals(t)
		for k := 0; k < n; k++ {
			v.Index(k).Set(x[(k+k/len(x))%len(x)])
		}
		roundTrip(w, v)
		w.NonTrivial()
	})

	// wide structs: n fields of one kind and a special field at every position
	widths := []int{9, 17, 33, 65, 70, 129, 257, 1030}
	if r.Thorough {
		widths = append(widths, 10, 25, 64, 100, 128, 130, 200, 256, 300, 520)
	}
	specials := []struct {
		t   reflect.Type
		tag string
	}{
		{typeOf[string](), ""}, {typeOf[*uint16](), "optional"}, {typeOf[*string](), "optional"}, {typeOf[uint32](), "extension"}, {typeOf[[]uint16](), "extension"},
		{typeOf[exprV](), "variant"}, {typeOf[*inner](), ""}, {typeOf[map[uint8]string](), ""}, {typeOf[[3]int16](), ""}, {typeOf[[]byte](), ""}, {typeOf[inner](), ""}, {typeOf[uint](), ""},
	}
	for _, n := range widths {
		n := n
		var ps []int // positions of the special field
		for k := 0; k < n; k++ {
			if n < 130 || r.Thorough && n < 600 || k < 2 || k >= n-2 || k%64 >= 63 || k%64 == 0 {
				ps = append(ps, k)
			}
		}
		r.Sweep(fmt.Sprintf("structs of %d fields", n), uint64(len(ps)*len(specials)), func(w *mcx.W, i uint64) {
			pos, sp := ps[int(i)%len(ps)], specials[int(i)/len(ps)]
			fs := make([]reflect.StructField, n)
			for k := range fs {
				fs[k] = field(fmt.Sprintf("F%d", k), typeOf[uint8](), "")
				if k == pos {
					fs[k] = field(fmt.Sprintf("F%d", k), sp.t, sp.tag)
				} else if sp.tag == "extension" && k > pos {
					fs[k] = field(fmt.Sprintf("F%d", k), typeOf[uint8](), "extension")
				}
			}
			t := reflect.StructOf(fs)
			for _, x := range vals(sp.t) {
				v := reflect.New(t).Elem()
				for k := range fs {
					if k == pos {
						v.Field(k).Set(x)
					} else {
						v.Field(k).SetUint(uint64(k + 1))
					}
				}
				roundTrip(w, v)
				if sp.tag == "extension" {
					// cut off at every extension
					var b []byte
					z := reflect.New(t).Elem()
					for k := range fs {
						if k >= pos {
							for _, c := range codecs[:1] {
								got, m, err := c.decodeNew(t, b)
								if err != nil || m != len(b) || !ref.Eq(got, z) {
									w.Fail("%s codec: struct of %d fields with extensions from %d cut off before field %d decodes as %s, %v", c.name, n, pos, k, show(got), err)
								}
							}
						}
						z.Field(k).Set(v.Field(k))
						e, _ := ref.Enc(v.Field(k))
						b = append(b, e...)
					}
				}
			}
			w.NonTrivial()
		})
	}

	// embedded structs: every position, value and pointer, zero and not
	embeds := []reflect.Type{typeOf[inner](), typeOf[*inner](), typeOf[node](), typeOf[tree](), typeOf[Emb](), typeOf[*Emb](), typeOf[EmbEmpty](), typeOf[EmbZero]()}
	r.Sweep("embedded structs", uint64(len(embeds)*4), func(w *mcx.W, i uint64) {
		et := embeds[i/4]
		name := et.Name()
		if et.Kind() == reflect.Pointer {
			name = et.Elem().Name()
		}
		if name[0] >= 'a' { // only exported embedded types can be set
			return
		}
		pos := int(i % 4)
		fs := []reflect.StructField{field("A", typeOf[uint8](), ""), field("B", typeOf[string](), ""), field("C", typeOf[*uint16](), "optional")}
		ef := reflect.StructField{Name: name, Type: et, Anonymous: true}
		fs = append(fs[:pos:pos], append([]reflect.StructField{ef}, fs[pos:]...)...)
		t := reflect.StructOf(fs)
		for _, x := range vals(et) {
			if et.Kind() == reflect.Pointer && x.IsNil() {
				continue
			}
			for _, z := range []bool{false, true} {
				v := reflect.New(t).Elem()
				v.Field(pos).Set(x)
				if !z {
					u := uint16(513)
					v.FieldByName("A").SetUint(7)
					v.FieldByName("B").SetString("b")
					v.FieldByName("C").Set(reflect.ValueOf(&u))
				}
				roundTrip(w, v)
			}
		}
		for _, v := range []any{embStruct{}, embStruct{A: 1, Emb: Emb{1, "x"}, EmbZero: EmbZero{0}, Z: 3}, embStruct{A: 1, Z: 3}, embPtr{Emb: &Emb{}, Z: 1}, embPtr{A: 2, Emb: &Emb{0, "y"}}} {
			roundTrip(w, reflect.ValueOf(v))
		}
		w.NonTrivial()
	})
}

type Emb struct {
	X uint8
	Y string
}
type EmbEmpty struct{}
type EmbZero struct{ N uint64 }
type embStruct struct {
	A uint8
	Emb
	EmbEmpty
	EmbZero
	Z uint16
}
type embPtr struct {
	A uint8
	*Emb
	Z uint16
}
