package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"net"
	"reflect"
	"time"
	"unsafe"

	"verif/mcx"
	"verif/ref"

	"github.com/greymass/go-eosio/pkg/abi"
	"github.com/greymass/go-eosio/pkg/chain"
)

func init() {
	register(&Check{
		ID: "C23", Level: "exploration",
		Rule:   "types that hold something the codec cannot represent are enumerated by putting every unsupported leaf (channels, functions, complex numbers, uintptr, unsafe pointers, nil interfaces, malformed variants) under every composition of the type constructors and at every position among supported fields; a value that reaches it must be refused by the encoder, and input that reaches it by the decoder. Leaves that a codec may or may not support (named scalars, interfaces that hold a value) must be refused or round-trip. Every type of the universe is passed to the decoder by value, which must be refused without touching it, and every ABI type is given every unsupported Go value. A panic is a violation. A case is non-trivial if an unsupported leaf lies inside a container.",
		Bounds: "22 unsupported and 22 optional leaves; constructor depth 0..2 (quick) / 3 (thorough) of 15 constructors; every position in structs of 1..6 fields over 5 neighbours, plain, optional, extension and behind a pointer; destinations: all leaves, chain types, named types and constructor depth 1; ABI: all base types under suffix depth 1 x 29 Go values, plain and as a field, array element and variant alternative; three codecs.",
		Run:    runC23,
	})
}

type (
	badVarField struct{ A, B uint8 }
	badVarMixed struct {
		A *uint8
		B string
	}
	softU8   uint8
	softU16  uint16
	softI8   int8
	softI16  int16
	softStr  string
	softBool bool
	softF32  float32
	softF64  float64
	softInt  int
	softUint uint

	// types with text forms or codecs of their own that are no ABI types
	softTexter    struct{}
	softMarshaler struct{}
)

func (softTexter) String() string                     { return "1" }
func (softTexter) MarshalText() ([]byte, error)       { return []byte("1"), nil }
func (softMarshaler) MarshalABI(e *abi.Encoder) error { return e.WriteUint8(1) }

// badValues are values that have no encoding at all.
func badValues() []reflect.Value {
	c := make(chan int, 1)
	tagged := func(t reflect.Type, v reflect.Value) reflect.Value {
		s := reflect.New(reflect.StructOf([]reflect.StructField{field("V", t, "variant"), field("W", typeOf[uint8](), "")})).Elem()
		s.Field(0).Set(v)
		return s
	}
	x := uint8(3)
	out := []reflect.Value{
		reflect.ValueOf(c), reflect.ValueOf((<-chan int)(c)), reflect.ValueOf((chan<- string)(nil)),
		reflect.ValueOf(func() {}), reflect.ValueOf(func(int) string { return "" }), reflect.ValueOf((func())(nil)), reflect.ValueOf((func(...any) error)(nil)),
		reflect.ValueOf(complex64(1)), reflect.ValueOf(complex128(2)), reflect.ValueOf(uintptr(1)), reflect.ValueOf(unsafe.Pointer(&x)),
		reflect.ValueOf(complex64(0)), reflect.ValueOf(complex128(0)), reflect.ValueOf(uintptr(0)), reflect.ValueOf(unsafe.Pointer(nil)),
		reflect.New(typeOf[any]()).Elem(), reflect.New(typeOf[error]()).Elem(), reflect.New(typeOf[fmt.Stringer]()).Elem(),
		tagged(typeOf[badVarField](), reflect.ValueOf(badVarField{1, 2})),
		tagged(typeOf[badVarMixed](), reflect.ValueOf(badVarMixed{&x, "b"})),
		tagged(typeOf[uint8](), reflect.ValueOf(x)),
		tagged(typeOf[[]string](), reflect.ValueOf([]string{"a"})),
	}
	return out
}

// softValues are values which a codec may refuse or support.
func softValues() []reflect.Value {
	iface := func(v any) reflect.Value {
		s := reflect.New(typeOf[struct{ X any }]()).Elem()
		s.Field(0).Set(reflect.ValueOf(v))
		return s
	}
	x, s, n := uint8(3), "abc", chain.Name(77)
	return []reflect.Value{
		reflect.ValueOf(softU8(9)), reflect.ValueOf(softU16(900)), reflect.ValueOf(softI8(-9)), reflect.ValueOf(softI16(-900)), reflect.ValueOf(softStr("soft")), reflect.ValueOf(softBool(true)),
		reflect.ValueOf(softF32(1.5)), reflect.ValueOf(softF64(-1.5)), reflect.ValueOf(softInt(-70000)), reflect.ValueOf(softUint(70000)),
		iface(x), iface(s), iface(n), iface(&x), iface(&s), iface(&n), iface([]uint8{1}), iface(inner{1, "q"}), iface(&inner{1, "q"}), iface(map[string]uint8{"a": 1}), iface(&[]string{"a", "b"}), iface([2]uint16{1, 2}),
	}
}

// holding puts v under a constructor so that it is reached.
func holding(k int, v reflect.Value) (reflect.Value, bool) {
	t := v.Type()
	var ct reflect.Type
	if k == len(ctorNames) { // embedded behind a longer struct
		ct = reflect.StructOf([]reflect.StructField{field("A", typeOf[string](), ""), field("B", typeOf[chain.Name](), ""), field("C", t, "")})
	} else if k == 3 {
		if !v.Comparable() || t.Kind() == reflect.Interface || t.Kind() == reflect.Struct {
			return v, false
		}
		ct = reflect.MapOf(t, typeOf[uint8]())
	} else {
		var ok bool
		if ct, ok = construct(k, t); !ok {
			return v, false
		}
	}
	c := reflect.New(ct).Elem()
	ptr := func() reflect.Value { p := reflect.New(t); p.Elem().Set(v); return p }
	switch k {
	case 0:
		c.Set(reflect.Append(c, v))
	case 1:
		c.Index(0).Set(v)
		c.Index(1).Set(v)
	case 2:
		c.Set(reflect.MakeMap(ct))
		c.SetMapIndex(reflect.ValueOf("k"), v)
	case 3:
		c.Set(reflect.MakeMap(ct))
		c.SetMapIndex(v, reflect.ValueOf(uint8(1)))
	case 4:
		c.Field(0).Set(v)
	case 5, 6:
		c.Field(0).Set(ptr())
	case 7:
		c.Field(0).Field(1).Set(ptr())
	case 8:
		c.Set(reflect.Append(c, ptr()))
	case 9, 12:
		c.Field(0).Set(v)
		c.Field(1).Set(v)
	case 10:
		pp := reflect.New(reflect.PointerTo(t))
		pp.Elem().Set(ptr())
		c.Set(pp)
	case 11:
		c.Set(reflect.MakeMap(ct))
		c.SetMapIndex(reflect.ValueOf(uint16(1)), ptr())
	case 13:
		c.Index(0).Set(reflect.Append(c.Index(0), v))
	default:
		c.Field(2).Set(v)
	}
	return c, true
}

func holders(vs []reflect.Value, d int) (out []reflect.Value) {
	out = append(out, vs...)
	cur := vs
	for ; d > 0; d-- {
		var next []reflect.Value
		for _, v := range cur {
			for k := 0; k <= len(ctorNames); k++ {
				if c, ok := holding(k, v); ok {
					next = append(next, c)
				}
			}
		}
		out = append(out, next...)
		cur = next
	}
	return
}

// ones is input that reaches everything: lengths, presence flags and variant indexes are all 1.
var ones = bytes.Repeat([]byte{1}, 4096)

func refuse(w *mcx.W, v reflect.Value) {
	for _, c := range codecs {
		for _, in := range []reflect.Value{v, ptrTo(v)} {
			if in.Kind() == reflect.Interface && in.IsNil() {
				continue
			}
			var b bytes.Buffer
			if err := c.enc(&b).Encode(in.Interface()); err == nil {
				w.Fail("%s codec: %s, which has no encoding, encodes as %x without an error", c.name, v.Type(), b.Bytes())
			}
			w.Eval(1)
		}
		for _, e := range enders {
			p := reflect.New(v.Type())
			if err := c.dec(e.wrap(bytes.NewReader(ones))).Decode(p.Interface()); err == nil {
				w.Fail("%s codec, %s: decoding into %s, which has no encoding, gives no error", c.name, e.name, v.Type())
			}
			w.Eval(1)
		}
	}
}

func refuseOrKeep(w *mcx.W, v reflect.Value) {
	for _, c := range codecs {
		var b bytes.Buffer
		if err := c.enc(&b).Encode(v.Interface()); err == nil {
			p := reflect.New(v.Type())
			r := bytes.NewReader(withTail(b.Bytes()))
			err := c.dec(r).Decode(p.Interface())
			if err == nil && (r.Len() != len(tailBytes) || !reflect.DeepEqual(p.Elem().Interface(), v.Interface())) {
				w.Fail("%s codec: %s encodes as %x, which decodes as %s with %d bytes left, without an error", c.name, show(v), b.Bytes(), show(p.Elem()), r.Len())
			}
		}
		p := reflect.New(v.Type())
		r := bytes.NewReader(ones)
		if err := c.dec(r).Decode(p.Interface()); err == nil {
			var b bytes.Buffer
			if err := c.enc(&b).Encode(p.Elem().Interface()); err != nil || b.Len() != len(ones)-r.Len() {
				w.Fail("%s codec: %d bytes decode as %s, which encodes as %x, %v", c.name, len(ones)-r.Len(), show(p.Elem()), b.Bytes(), err)
			}
		}
		w.Eval(2)
	}
}

func runC23(r *mcx.Run) {
	depth := mcx.Pick(r, 2, 3)
	bad := holders(badValues(), depth)
	r.Sweep("unsupported types in every container", uint64(len(bad)), func(w *mcx.W, i uint64) {
		refuse(w, bad[i])
		if int(i) >= len(badValues()) {
			w.NonTrivial()
		}
		w.Sample(func() string { return clip(bad[i].Type().String()) })
	})
	soft := holders(softValues(), depth)
	r.Sweep("types that may be supported", uint64(len(soft)), func(w *mcx.W, i uint64) {
		refuseOrKeep(w, soft[i])
		w.NonTrivial()
	})

	// every position among supported fields
	nb := []reflect.Value{reflect.ValueOf(uint8(1)), reflect.ValueOf("a"), reflect.ValueOf(chain.Name(1)), reflect.ValueOf([]uint16{257}), reflect.ValueOf(inner{1, "\x01"})}
	bv := badValues()
	type pos struct{ n, at, nb, form int }
	var ps []pos
	for n := 1; n <= 6; n++ {
		for at := 0; at < n; at++ {
			for k := range nb {
				for form := 0; form < 4; form++ {
					ps = append(ps, pos{n, at, k, form})
				}
			}
		}
	}
	r.Sweep("unsupported fields in every position", uint64(len(ps)*len(bv)), func(w *mcx.W, i uint64) {
		p, v := ps[int(i)/len(bv)], bv[int(i)%len(bv)]
		fs := make([]reflect.StructField, p.n)
		for k := range fs {
			fs[k] = field(fmt.Sprintf("F%d", k), nb[p.nb].Type(), "")
		}
		name := fmt.Sprintf("F%d", p.at)
		x := v
		switch p.form {
		case 0:
			fs[p.at] = field(name, v.Type(), "")
		case 1:
			fs[p.at] = field(name, reflect.PointerTo(v.Type()), "optional")
			x = ptrTo(v)
		case 2:
			fs[p.at] = field(name, reflect.PointerTo(v.Type()), "")
			x = ptrTo(v)
		case 3:
			for k := p.at; k < p.n; k++ {
				fs[k] = field(fmt.Sprintf("F%d", k), nb[p.nb].Type(), "extension")
			}
			fs[p.at] = field(name, v.Type(), "extension")
		}
		s := reflect.New(reflect.StructOf(fs)).Elem()
		for k := range fs {
			if k == p.at {
				s.Field(k).Set(x)
			} else {
				s.Field(k).Set(nb[p.nb])
			}
		}
		refuse(w, s)
		w.NonTrivial()
	})

	// what does not reach it is not affected: empty lists, absent optionals
	r.Sweep("unsupported types that are not reached", uint64(len(bv)), func(w *mcx.W, i uint64) {
		t := bv[i].Type()
		s := reflect.New(reflect.StructOf([]reflect.StructField{field("A", reflect.SliceOf(t), ""), field("B", reflect.PointerTo(t), "optional"), field("C", reflect.MapOf(typeOf[string](), t), ""), field("D", typeOf[uint8](), "")})).Elem()
		s.Field(0).Set(reflect.MakeSlice(s.Field(0).Type(), 0, 0))
		s.Field(2).Set(reflect.MakeMap(s.Field(2).Type()))
		s.Field(3).SetUint(9)
		for _, c := range codecs {
			var b bytes.Buffer
			err := c.enc(&b).Encode(s.Interface())
			if err == nil && !bytes.Equal(b.Bytes(), []byte{0, 0, 0, 9}) {
				w.Fail("%s codec: %s without such a value encodes as %x", c.name, s.Type(), b.Bytes())
			}
			p := reflect.New(s.Type())
			if err := c.dec(bytes.NewReader([]byte{0, 0, 0, 9})).Decode(p.Interface()); err == nil && (p.Elem().Field(0).Len() != 0 || !p.Elem().Field(1).IsNil() || p.Elem().Field(2).Len() != 0 || p.Elem().Field(3).Uint() != 9) {
				w.Fail("%s codec: 00000009 decodes as %v", c.name, p.Elem())
			}
			w.Eval(2)
		}
		w.NonTrivial()
	})

	// destinations that are not pointers
	all := append(append([]reflect.Type{}, builtinLeaves...), chainLeaves...)
	all = append(append(all, namedTypes...), closure(all, 1, allCtors)...)
	cs := cases(all)
	r.Sweep("destinations by value", uint64(len(cs)), func(w *mcx.W, i uint64) {
		v := vals(cs[i].t)[cs[i].k]
		if v.Kind() == reflect.Pointer {
			return
		}
		want, err := ref.Enc(v)
		if err != nil {
			panic(err)
		}
		for _, c := range codecs {
			// input longer than the value, so that a copy of it would be overwritten
			for _, in := range [][]byte{ones, append(append([]byte{}, want...), ones...)} {
				if err := c.dec(bytes.NewReader(in)).Decode(v.Interface()); err == nil {
					w.Fail("%s codec: decoding into %s, which is not a pointer, gives no error", c.name, v.Type())
				}
				if got, _ := ref.Enc(v); v.Kind() != reflect.Map && !bytes.Equal(got, want) {
					w.Fail("%s codec: a refused destination %s was changed from %x to %x", c.name, v.Type(), want, got)
				}
				w.Eval(1)
			}
		}
		w.NonTrivial()
	})

	// variants by hand
	r.Sweep("variants that are not structs of pointers", uint64(len(all)), func(w *mcx.W, i uint64) {
		t := all[i]
		v := vals(t)[0]
		for v.Kind() == reflect.Pointer && !v.IsNil() {
			v = v.Elem()
		}
		if v.Kind() == reflect.Pointer || v.Kind() == reflect.Struct && v.NumField() > 0 && v.Field(0).Kind() == reflect.Pointer {
			return
		}
		if _, ok := reflect.New(v.Type()).Interface().(abi.Marshaler); ok {
			return // handled by its own methods
		}
		for _, c := range codecs {
			var b bytes.Buffer
			if err := c.enc(&b).EncodeVariant(v.Interface()); err == nil {
				w.Fail("%s codec: EncodeVariant of %s writes %x without an error", c.name, v.Type(), b.Bytes())
			}
			if err := c.dec(bytes.NewReader(ones)).DecodeVariant(reflect.New(v.Type()).Interface()); err == nil && !isEmptyStruct(v.Type()) {
				w.Fail("%s codec: DecodeVariant into %s gives no error", c.name, v.Type())
			}
			if err := c.dec(bytes.NewReader(ones)).DecodeVariant(v.Interface()); err == nil {
				w.Fail("%s codec: DecodeVariant into %s, which is not a pointer, gives no error", c.name, v.Type())
			}
			w.Eval(3)
		}
		w.NonTrivial()
	})

	// ABI types against Go values of no ABI type
	x := uint8(3)
	odd := []any{make(chan int), func() {}, complex64(1), complex128(1), uintptr(1), unsafe.Pointer(&x), struct{ A uint8 }{1}, &x, (*string)(nil), softStr("1"), softU8(1), softBool(true), map[int]any{1: 1}, []int{1}, [2]any{1, 2}, io.EOF,
		time.Second, time.Unix(0, 0), big.NewInt(7), reflect.TypeOf(x), json.Number("1"), json.RawMessage("1"), (func())(nil), (chan int)(nil), any((error)(io.EOF)), net.IPv4(1, 2, 3, 4), softTexter{}, softMarshaler{}, &softMarshaler{}}
	var ts []*ref.AT
	for _, t := range abiBase() {
		ts = append(ts, suffixed(t, 1)...)
	}
	r.Sweep("ABI types and unsupported Go values", uint64(len(ts)*len(odd)), func(w *mcx.W, i uint64) {
		t, v := ts[int(i)/len(odd)], odd[int(i)%len(odd)]
		st := ref.Struct("st", nil, af("p", ref.Bi("uint8")), af("q", t))
		vt := ref.Variant("vt", ref.Bi("bool"), t)
		at := ref.Arr(st)
		for _, c := range []struct {
			t *ref.AT
			v any
		}{{t, v}, {st, map[string]any{"p": uint8(1), "q": v}}, {vt, []any{t.Expr(), v}}, {at, []any{map[string]any{"p": uint8(1), "q": v}}}, {st, v}, {vt, v}, {at, v}, {at, []any{v}}} {
			var b bytes.Buffer
			if err := ref.Abi(c.t).Encode(&b, c.t.Expr(), c.v); err == nil {
				w.Fail("ABI type %s: Go value %T (%v) encodes as %x without an error", c.t.Expr(), v, clip(fmt.Sprint(c.v)), b.Bytes())
			}
			w.Eval(1)
		}
		w.NonTrivial()
	})
}

func isEmptyStruct(t reflect.Type) bool { return t.Kind() == reflect.Struct && t.NumField() == 0 }
