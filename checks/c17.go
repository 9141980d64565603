package checks

import (
	"bytes"
	"encoding"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"reflect"
	"strings"

	"verif/mcx"
	"verif/ref"

	"github.com/greymass/go-eosio/pkg/abi"
	"github.com/greymass/go-eosio/pkg/base58"
	"github.com/greymass/go-eosio/pkg/chain"
	"github.com/greymass/go-eosio/pkg/ripemd160"
)

func init() {
	register(&Check{
		ID: "C17", Level: "model_checking",
		Rule:        "model: every operation is a pure function, its arguments are read-only and its results own their memory. Single operations: every argument lies in guarded memory with spare capacity; after the call the arguments, their spare capacity and guards must be untouched, then all argument memory is overwritten and the result must not change, then every slice of the result is overwritten to its full capacity one by one and the others must not change. Histories: for all ordered pairs (j, i) of operations: run j, run i, overwrite everything i returned, then j's result must be unchanged and running j again must give the same. Shared arguments: every operation runs in two goroutines on the same argument memory under the race detector, which reports a write to it even if it is undone before the call returns. Kept copies: for all ordered pairs of values of a type the first is decoded (or parsed), a copy of the variable is kept, the second is decoded into the same variable, and the copy must not change. A case is non-trivial if memory was overwritten.",
		Bounds:      "single operations: encoding and decoding (three codecs, four kinds of reader) of every value of all leaves, chain types, named types and constructor depth 2 over 22 leaves, and 3 over 4 leaves (thorough); ABI-driven encoding and decoding of every base type under two (quick) or three suffixes; text and JSON forms of every text type; keys, base58, hashes, 128-bit numbers. Histories: all ordered pairs of about 330 operations, all triples of a subset.",
		Assumptions: []string{"constructors that wrap a given slice (NewPublicKey, NewSignature, NewAction) and accessors into an ABI (Get*) share memory by design; Sum of a hash appends to its argument by contract"},
		Run:         runC17,
	})
}

// arena hands out argument memory with guards and spare capacity and checks that it stays as it was.
type arena struct {
	raw  [][]byte // whole regions
	orig [][]byte
	vals []reflect.Value // pointers to values
	valo []reflect.Value
	bigs []*big.Int
	bigo []*big.Int

	record bool   // remember what was handed out
	given  []any  // in order
	replay *arena // hand out what that arena handed out
	next   int
}

func (a *arena) again() any {
	a.next++
	return a.replay.given[a.next-1]
}

func (a *arena) bytes(b []byte) []byte {
	if a.replay != nil {
		return a.again().([]byte)
	}
	r := bytes.Repeat([]byte{0xA5}, len(b)+48)
	copy(r[16:], b)
	a.raw = append(a.raw, r)
	a.orig = append(a.orig, append([]byte{}, r...))
	if a.record {
		a.given = append(a.given, r[16:16+len(b)])
	}
	return r[16 : 16+len(b)]
}

// val gives a deep copy of v whose slices have spare capacity.
func (a *arena) val(v reflect.Value) reflect.Value {
	if a.replay != nil {
		return a.again().(reflect.Value)
	}
	p := reflect.New(v.Type())
	p.Elem().Set(spare(v))
	if a.record {
		a.given = append(a.given, p.Elem())
	}
	a.vals = append(a.vals, p)
	a.valo = append(a.valo, wholeClone(p.Elem()))
	return p.Elem()
}

func (a *arena) big(b *big.Int) *big.Int {
	if a.replay != nil {
		return a.again().(*big.Int)
	}
	c := new(big.Int).Set(b)
	if a.record {
		a.given = append(a.given, c)
	}
	a.bigs = append(a.bigs, c)
	a.bigo = append(a.bigo, new(big.Int).Set(b))
	return c
}

func (a *arena) check(w *mcx.W, op string) {
	for i := range a.raw {
		if !bytes.Equal(a.raw[i], a.orig[i]) {
			w.Fail("%s changes its argument memory from %s to %s (argument at 16..%d)", op, hexs(a.orig[i]), hexs(a.raw[i]), len(a.raw[i])-32)
		}
	}
	for i := range a.vals {
		if !wholeEq(a.vals[i].Elem(), a.valo[i]) {
			w.Fail("%s changes its argument (or its spare capacity) from %s to %s", op, show(a.valo[i]), show(a.vals[i].Elem()))
		}
	}
	for i := range a.bigs {
		if a.bigs[i].Cmp(a.bigo[i]) != 0 {
			w.Fail("%s changes its argument from %v to %v", op, a.bigo[i], a.bigs[i])
		}
	}
}

func (a *arena) scribble() {
	for _, r := range a.raw {
		for i := range r {
			r[i] = 0x11
		}
	}
	for _, v := range a.vals {
		overwrite(v.Elem())
	}
	for _, b := range a.bigs {
		b.SetInt64(1234567)
	}
}

// spare is a deep copy with spare capacity in every slice.
func spare(v reflect.Value) reflect.Value {
	out := reflect.New(v.Type()).Elem()
	switch v.Kind() {
	case reflect.Slice:
		if v.IsNil() {
			return out
		}
		n := v.Len()
		s := reflect.MakeSlice(v.Type(), n+4, n+4)
		for i := 0; i < n+4; i++ {
			switch {
			case i < n:
				s.Index(i).Set(spare(v.Index(i)))
			case s.Index(i).Kind() == reflect.Uint8:
				s.Index(i).SetUint(0xA5)
			case n > 0:
				s.Index(i).Set(spare(v.Index(0)))
			}
		}
		out.Set(s.Slice3(0, n, n+4))
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			out.Index(i).Set(spare(v.Index(i)))
		}
	case reflect.Map:
		if v.IsNil() {
			return out
		}
		out.Set(reflect.MakeMap(v.Type()))
		for it := v.MapRange(); it.Next(); {
			out.SetMapIndex(spare(it.Key()), spare(it.Value()))
		}
	case reflect.Ptr:
		if !v.IsNil() {
			out.Set(reflect.New(v.Type().Elem()))
			out.Elem().Set(spare(v.Elem()))
		}
	case reflect.Interface:
		if !v.IsNil() {
			out.Set(spare(v.Elem()))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if out.Field(i).CanSet() {
				out.Field(i).Set(spare(v.Field(i)))
			}
		}
	default:
		out.Set(v)
	}
	return out
}

// wholeClone is a deep copy that includes the spare capacity of slices.
func wholeClone(v reflect.Value) reflect.Value {
	out := reflect.New(v.Type()).Elem()
	switch v.Kind() {
	case reflect.Slice:
		if v.IsNil() {
			return out
		}
		f := v.Slice(0, v.Cap())
		s := reflect.MakeSlice(v.Type(), v.Cap(), v.Cap())
		for i := 0; i < f.Len(); i++ {
			s.Index(i).Set(wholeClone(f.Index(i)))
		}
		out.Set(s.Slice(0, v.Len()))
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			out.Index(i).Set(wholeClone(v.Index(i)))
		}
	case reflect.Map:
		if v.IsNil() {
			return out
		}
		out.Set(reflect.MakeMap(v.Type()))
		for it := v.MapRange(); it.Next(); {
			out.SetMapIndex(wholeClone(it.Key()), wholeClone(it.Value()))
		}
	case reflect.Ptr:
		if !v.IsNil() {
			out.Set(reflect.New(v.Type().Elem()))
			out.Elem().Set(wholeClone(v.Elem()))
		}
	case reflect.Interface:
		if !v.IsNil() {
			out.Set(wholeClone(v.Elem()))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if out.Field(i).CanSet() {
				out.Field(i).Set(wholeClone(v.Field(i)))
			}
		}
	default:
		out.Set(v)
	}
	return out
}

// wholeEq compares including nil-ness and the spare capacity of slices in b.
func wholeEq(a, b reflect.Value) bool {
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Slice:
		if a.IsNil() != b.IsNil() || a.Len() != b.Len() || a.Cap() != b.Cap() {
			return false
		}
		if a.IsNil() {
			return true
		}
		x, y := a.Slice(0, a.Cap()), b.Slice(0, b.Cap())
		for i := 0; i < x.Len(); i++ {
			if !wholeEq(x.Index(i), y.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if !wholeEq(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.IsNil() != b.IsNil() || a.Len() != b.Len() {
			return false
		}
		for it := a.MapRange(); it.Next(); {
			y := b.MapIndex(it.Key())
			if !y.IsValid() || !wholeEq(it.Value(), y) {
				return false
			}
		}
		return true
	case reflect.Ptr, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return wholeEq(a.Elem(), b.Elem())
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if a.Type().Field(i).IsExported() && !wholeEq(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	}
	return ref.Eq(a, b)
}

// overwrite changes everything reachable from an addressable value, to the full capacity of its slices.
func overwrite(v reflect.Value) {
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(!v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(^v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(^v.Uint())
	case reflect.Float32, reflect.Float64:
		v.SetFloat(v.Float() + 1.25)
	case reflect.String:
		v.SetString("overwritten")
	case reflect.Slice:
		if !v.IsNil() {
			f := v.Slice(0, v.Cap())
			for i := 0; i < f.Len(); i++ {
				overwrite(f.Index(i))
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			overwrite(v.Index(i))
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		for _, k := range v.MapKeys() {
			e := reflect.New(v.Type().Elem()).Elem()
			x := v.MapIndex(k)
			deepOverwrite(x)
			e.Set(reflect.Zero(v.Type().Elem()))
			v.SetMapIndex(k, e)
		}
		// and extend it
		k := reflect.New(v.Type().Key()).Elem()
		switch k.Kind() {
		case reflect.String:
			k.SetString("\x00added")
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			k.SetInt(117)
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			k.SetUint(217)
		}
		e := reflect.New(v.Type().Elem()).Elem()
		if e.Kind() == reflect.Interface && e.NumMethod() == 0 {
			e.Set(reflect.ValueOf("added"))
		}
		v.SetMapIndex(k, e)
	case reflect.Ptr:
		if v.Type() == ref.BigType && !v.IsNil() {
			b := v.Interface().(*big.Int)
			ws := b.Bits()
			for i := range ws[:cap(ws)] {
				ws[:cap(ws)][i] ^= 0x5555
			}
			b.SetInt64(-987654321)
		} else if !v.IsNil() {
			overwrite(v.Elem())
		}
	case reflect.Interface:
		if !v.IsNil() {
			deepOverwrite(v.Elem())
			if v.CanSet() {
				v.Set(reflect.Zero(v.Type()))
			}
		} else if v.CanSet() && v.NumMethod() == 0 {
			v.Set(reflect.ValueOf("overwritten"))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				overwrite(v.Field(i))
			}
		}
	}
}

// deepOverwrite changes what a value that cannot be set itself refers to.
func deepOverwrite(v reflect.Value) {
	switch v.Kind() {
	case reflect.Slice, reflect.Map, reflect.Ptr:
		overwrite(v)
	case reflect.Interface:
		if !v.IsNil() {
			deepOverwrite(v.Elem())
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				deepOverwrite(v.Field(i))
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			deepOverwrite(v.Index(i))
		}
	}
}

// slicesOf collects every slice reachable from v.
func slicesOf(v reflect.Value, f func(reflect.Value)) {
	switch v.Kind() {
	case reflect.Slice:
		if v.IsNil() {
			return
		}
		if v.Cap() > 0 {
			f(v)
		}
		if v.Type().Elem().Kind() < reflect.Array {
			return
		}
		for i := 0; i < v.Len(); i++ {
			slicesOf(v.Index(i), f)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			slicesOf(v.Index(i), f)
		}
	case reflect.Map:
		for it := v.MapRange(); it.Next(); {
			slicesOf(it.Value(), f)
		}
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			slicesOf(v.Elem(), f)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				slicesOf(v.Field(i), f)
			}
		}
	}
}

// op17 is a pure operation: it takes its arguments from the arena and returns its results.
type op17 struct {
	name string
	run  func(a *arena) any
}

// single checks one operation alone.
func single(w *mcx.W, op op17) {
	a := &arena{}
	res := reflect.ValueOf(op.run(a))
	a.check(w, op.name)
	if !res.IsValid() {
		return
	}
	keep := ref.Clone(res)
	a.scribble()
	if !ref.Eq(res, keep) {
		w.Fail("%s: overwriting the arguments changes the result from %s to %s", op.name, show(keep), show(res))
	}
	// no two slices of a result share memory
	var ss []reflect.Value
	slicesOf(res, func(s reflect.Value) { ss = append(ss, s) })
	if len(ss) > 40 {
		ss = ss[:40]
	}
	for i, s := range ss {
		if s.Type().Elem().Kind() >= reflect.Array {
			continue
		}
		before := make([]reflect.Value, len(ss))
		for j := range ss {
			if j != i && ss[j].Type().Elem().Kind() < reflect.Array {
				before[j] = wholeClone(ss[j])
			}
		}
		saved := wholeClone(s)
		overwrite(s)
		for j := range ss {
			if before[j].IsValid() && !wholeEq(ss[j], before[j]) {
				w.Fail("%s: extending or changing one part of the result (%s) changes another part (or what it was extended with) from %s to %s", op.name, show(saved), show(before[j]), show(ss[j]))
			}
		}
		reflect.Copy(s.Slice(0, s.Cap()), saved.Slice(0, saved.Cap()))
	}
	// and the operation gives the same again after its result was overwritten
	p := reflect.New(res.Type())
	p.Elem().Set(res)
	overwrite(p.Elem())
	b := &arena{}
	again := reflect.ValueOf(op.run(b))
	if !ref.Eq(again, keep) {
		w.Fail("%s: gives %s at first and %s after the first result was overwritten", op.name, show(keep), show(again))
	}
	// two results share nothing, their spare capacity included
	q := reflect.New(res.Type())
	q.Elem().Set(again)
	was := wholeClone(res)
	overwrite(q.Elem())
	if !wholeEq(res, was) {
		w.Fail("%s: extending or changing the second result changes the first (or what it was extended with) from %s to %s", op.name, show(was), show(res))
	}
	w.Eval(1)
	w.NonTrivial()
	w.Step(4)
	w.Trace()
	w.AddStates(1)
}

type res2 struct {
	V any
	E string
}

func errText(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}

// plainR is a reader with no other method than Read.
type plainR struct{ r io.Reader }

func (p plainR) Read(b []byte) (int, error) { return p.r.Read(b) }

var readerKinds = []struct {
	name string
	mk   func(b []byte) io.Reader
}{
	{"bytes.Reader", func(b []byte) io.Reader { return bytes.NewReader(b) }},
	{"bytes.Buffer", func(b []byte) io.Reader { return bytes.NewBuffer(b) }},
	{"plain reader", func(b []byte) io.Reader { return plainR{bytes.NewReader(b)} }},
	{"chunks", func(b []byte) io.Reader {
		return io.MultiReader(bytes.NewReader(b[:len(b)/2]), bytes.NewBuffer(b[len(b)/2:]))
	}},
}

func encOp(c codec, v reflect.Value, byPtr bool) op17 {
	return op17{fmt.Sprintf("%s codec encoding %s (pointer=%v)", c.name, show(v), byPtr), func(a *arena) any {
		x := a.val(v)
		var b []byte
		var err error
		if byPtr {
			b, err = c.encode(x.Addr().Interface())
		} else {
			b, err = c.encode(x.Interface())
		}
		return res2{b, errText(err)}
	}}
}

func decOp(c codec, rk int, t reflect.Type, b []byte) op17 {
	return op17{fmt.Sprintf("%s codec decoding %s from %s (%s)", c.name, hexs(b), t, readerKinds[rk].name), func(a *arena) any {
		p := reflect.New(t)
		err := c.dec(readerKinds[rk].mk(a.bytes(b))).Decode(p.Interface())
		return res2{p.Elem().Interface(), errText(err)}
	}}
}

func abiOps(def *chain.Abi, t *ref.AT, v any, rk int) []op17 {
	e, _ := ref.AbiEnc(t, v)
	name := t.Expr()
	return []op17{
		{fmt.Sprintf("ABI encoding of %s %v", name, clip(fmt.Sprint(v))), func(a *arena) any {
			d := a.val(reflect.ValueOf(*def)).Interface().(chain.Abi)
			var b bytes.Buffer
			h := a.val(reflect.ValueOf(&[]any{v}).Elem())
			err := d.Encode(&b, name, h.Index(0).Interface())
			return res2{b.Bytes(), errText(err)}
		}},
		{fmt.Sprintf("ABI decoding of %s %s (%s)", name, hexs(e), readerKinds[rk].name), func(a *arena) any {
			d := a.val(reflect.ValueOf(*def)).Interface().(chain.Abi)
			x, err := d.Decode(readerKinds[rk].mk(a.bytes(e)), name)
			return res2{x, errText(err)}
		}},
	}
}

func textOps(t reflect.Type, s string) (ops []op17) {
	ops = append(ops, op17{fmt.Sprintf("%s parsing %q", t, clip(s)), func(a *arena) any {
		p := reflect.New(t)
		var err error
		b := a.bytes([]byte(s))
		switch u := p.Interface().(type) {
		case encoding.TextUnmarshaler:
			err = u.UnmarshalText(b)
		case json.Unmarshaler:
			err = u.UnmarshalJSON(b)
		}
		return res2{p.Elem().Interface(), errText(err)}
	}})
	if _, ok := reflect.New(t).Interface().(encoding.TextUnmarshaler); ok {
		ops = append(ops, op17{fmt.Sprintf("%s parsing JSON %q", t, clip(s)), func(a *arena) any {
			p := reflect.New(t)
			j, _ := json.Marshal(s)
			err := json.Unmarshal(a.bytes(j), p.Interface())
			return res2{p.Elem().Interface(), errText(err)}
		}})
	}
	return
}

func fmtOps(v reflect.Value) (ops []op17) {
	add := func(what string, f func(x reflect.Value) (any, error)) {
		ops = append(ops, op17{fmt.Sprintf("%s of %s", what, show(v)), func(a *arena) any {
			r, err := f(a.val(v))
			return res2{r, errText(err)}
		}})
	}
	if _, ok := reflect.New(v.Type()).Interface().(encoding.TextMarshaler); ok {
		add("MarshalText", func(x reflect.Value) (any, error) {
			return x.Addr().Interface().(encoding.TextMarshaler).MarshalText()
		})
	}
	if _, ok := reflect.New(v.Type()).Interface().(json.Marshaler); ok {
		add("MarshalJSON", func(x reflect.Value) (any, error) { return x.Addr().Interface().(json.Marshaler).MarshalJSON() })
	}
	if _, ok := reflect.New(v.Type()).Interface().(fmt.Stringer); ok {
		add("String", func(x reflect.Value) (any, error) { return x.Addr().Interface().(fmt.Stringer).String(), nil })
	}
	add("json.Marshal", func(x reflect.Value) (any, error) { return json.Marshal(x.Interface()) })
	switch v.Interface().(type) {
	case chain.Action:
		add("Action.Digest", func(x reflect.Value) (any, error) { return x.Interface().(chain.Action).Digest(), nil })
		add("Action.DecodeInto", func(x reflect.Value) (any, error) {
			var b [2][]byte
			err := x.Interface().(chain.Action).DecodeInto(&b)
			return b, err
		})
	case chain.Uint128:
		add("Uint128.Bytes", func(x reflect.Value) (any, error) {
			return [2][]byte{x.Interface().(chain.Uint128).Bytes(binary.BigEndian), x.Interface().(chain.Uint128).Bytes(binary.LittleEndian)}, nil
		})
		add("Uint128.BigInt", func(x reflect.Value) (any, error) { return x.Interface().(chain.Uint128).BigInt(), nil })
	case chain.Int128:
		add("Int128.Bytes", func(x reflect.Value) (any, error) {
			return [2][]byte{x.Interface().(chain.Int128).Bytes(binary.BigEndian), x.Interface().(chain.Int128).Bytes(binary.LittleEndian)}, nil
		})
		add("Int128.BigInt", func(x reflect.Value) (any, error) { return x.Interface().(chain.Int128).BigInt(), nil })
	}
	return
}

// byteOps are the operations on plain byte strings.
func byteOps(b []byte) []op17 {
	n := fmt.Sprintf(" of %d bytes", len(b))
	enc := base58.Encode(b)
	chk := base58.CheckEncode(b)
	eos := base58.CheckEncodeEosio(b, "K1")
	return []op17{
		{"base58.Encode" + n, func(a *arena) any { return base58.Encode(a.bytes(b)) }},
		{"base58.Decode" + n, func(a *arena) any { return base58.Decode(enc) }},
		{"base58.CheckEncode" + n, func(a *arena) any { return base58.CheckEncode(a.bytes(b)) }},
		{"base58.CheckEncodeEosio" + n, func(a *arena) any { return base58.CheckEncodeEosio(a.bytes(b), "K1") }},
		{"base58.CheckEncodeEosio without suffix" + n, func(a *arena) any { return base58.CheckEncodeEosio(a.bytes(b), "") }},
		{"base58.CheckDecode" + n, func(a *arena) any { r, err := base58.CheckDecode(chk); return res2{r, errText(err)} }},
		{"base58.CheckDecodeEosio" + n, func(a *arena) any { r, err := base58.CheckDecodeEosio(eos, "K1"); return res2{r, errText(err)} }},
		{"Checksum160Digest" + n, func(a *arena) any { return chain.Checksum160Digest(a.bytes(b)) }},
		{"Checksum256Digest" + n, func(a *arena) any { return chain.Checksum256Digest(a.bytes(b)) }},
		{"Checksum512Digest" + n, func(a *arena) any { return chain.Checksum512Digest(a.bytes(b)) }},
		{"ripemd160" + n, func(a *arena) any {
			h := ripemd160.New()
			x := a.bytes(b)
			h.Write(x[:len(x)/2])
			s1 := h.Sum(nil)
			h.Write(x[len(x)/2:])
			return [][]byte{s1, h.Sum(nil), h.Sum(nil)}
		}},
		{"Decoder.ReadBytes" + n, func(a *arena) any {
			d := abi.NewDecoder(bytes.NewBuffer(a.bytes(b)), declineDec)
			_, x, e1 := d.ReadBytes(len(b) / 2)
			_, y, e2 := d.ReadBytes(len(b) - len(b)/2)
			return res2{[][]byte{x, y}, errText(e1) + errText(e2)}
		}},
		{"Encoder.WriteBytes" + n, func(a *arena) any {
			var o bytes.Buffer
			err := abi.NewEncoder(&o, declineEnc).WriteBytes(a.bytes(b))
			return res2{o.Bytes(), errText(err)}
		}},
		{"key text" + n, func(a *arena) any {
			d := a.bytes(b)
			k := chain.PublicKey{Type: chain.K1, Data: d}
			s := chain.Signature{Type: chain.P1, Data: d}
			return []string{k.String(), s.String(), k.LegacyString("EOS")}
		}},
		{"Bytes and Blob" + n, func(a *arena) any {
			d := a.bytes(b)
			return []string{chain.Bytes(d).Hex(), chain.Blob(d).Base64()}
		}},
	}
}

func bigOps(b *big.Int) (ops []op17) {
	if b.Sign() >= 0 && b.BitLen() <= 128 {
		ops = append(ops, op17{"NewUint128 of " + b.String(), func(a *arena) any { return chain.NewUint128(a.big(b)) }})
	}
	if b.BitLen() < 128 {
		ops = append(ops, op17{"NewInt128 of " + b.String(), func(a *arena) any { return chain.NewInt128(a.big(b)) }})
	}
	return
}

// ctorOps are the constructors that parse a text.
func ctorOps() (ops []op17) {
	add := func(what, s string, f func(s string) (any, error)) {
		ops = append(ops, op17{fmt.Sprintf("%s(%q)", what, s), func(a *arena) any {
			r, err := f(s)
			return res2{r, errText(err)}
		}})
	}
	for _, v := range append(vals(typeOf[chain.Asset]()), reflect.ValueOf(chain.Asset{})) {
		x := v.Interface().(chain.Asset)
		add("NewAssetFromString", x.String(), func(s string) (any, error) { return chain.NewAssetFromString(s) })
		if _, err := chain.NewAssetFromString(x.String()); err == nil {
			add("A", x.String(), func(s string) (any, error) { return chain.A(s), nil })
		}
	}
	// texts that code might treat as common
	for _, s := range []string{"0.0000 EOS", "1.0000 EOS", "0.0001 EOS", "0 EOS", "1 EOS", "0.00000000 WAX", "1.00000000 WAX", "0.0000 WAX", "10.0000 EOS", "100.0000 EOS", "-1.0000 EOS", "0.00 A", "0 A", "1.0 A", "0.000000000000000000 ABCDEFG", "0.0000 TLOS", "0.0000 SYS", "1.0000 SYS", "0.0000 USDT", "1.23 FOO", "99.99999 DUCKS", "-0.0000 EOS", "9223372036854775807 EOS", ""} {
		add("NewAssetFromString", s, func(s string) (any, error) { return chain.NewAssetFromString(s) })
		if _, err := chain.NewAssetFromString(s); err == nil {
			add("A", s, func(s string) (any, error) { return chain.A(s), nil })
		}
	}
	for k := 0; k < 4; k++ {
		for t := chain.K1; t <= chain.P1; t++ {
			d, g := make([]byte, 33), make([]byte, 65)
			if k > 0 {
				d[0], g[0] = byte(k+1), byte(k+30)
			}
			if k == 3 {
				d[32], g[64] = 1, 1
			}
			x, y := chain.PublicKey{Type: t, Data: d}, chain.Signature{Type: t, Data: g}
			add("NewPublicKeyFromString", x.String(), func(s string) (any, error) { return chain.NewPublicKeyFromString(s) })
			add("NewSignatureString", y.String(), func(s string) (any, error) { return chain.NewSignatureString(s) })
			if t == chain.K1 {
				add("NewPublicKeyFromString", x.LegacyString("EOS"), func(s string) (any, error) { return chain.NewPublicKeyFromString(s) })
			}
		}
	}
	add("NewPublicKeyFromString", "EOS6MRyAjQq8ud7hVNYcfnVPJqcVpscN5So8BhtHuGYqET5GDW5CV", func(s string) (any, error) { return chain.NewPublicKeyFromString(s) })
	add("NewPublicKeyFromString", "EOS1111111111111111111111111111111114T1Anm", func(s string) (any, error) { return chain.NewPublicKeyFromString(s) })
	for _, v := range vals(typeOf[chain.PublicKey]()) {
		x := v.Interface().(chain.PublicKey)
		add("NewPublicKeyFromString", x.String(), func(s string) (any, error) { return chain.NewPublicKeyFromString(s) })
		if x.Type == chain.K1 {
			add("NewPublicKeyFromString", x.LegacyString("EOS"), func(s string) (any, error) { return chain.NewPublicKeyFromString(s) })
		}
	}
	for _, v := range vals(typeOf[chain.Signature]()) {
		x := v.Interface().(chain.Signature)
		add("NewSignatureString", x.String(), func(s string) (any, error) { return chain.NewSignatureString(s) })
	}
	add("NewAsset", "4,EOS", func(s string) (any, error) { y, err := chain.NewSymbolFromString(s); return chain.NewAsset(5, y), err })
	for _, s := range []string{"0", "1", "18446744073709551616", "340282366920938463463374607431768211455"} {
		add("NewUint128FromString", s, func(s string) (any, error) {
			x, err := chain.NewUint128FromString(s)
			return []any{x, x.BigInt(), x.Bytes(binary.LittleEndian)}, err
		})
		add("NewInt128FromString", "-"+s, func(s string) (any, error) {
			x, err := chain.NewInt128FromString(s)
			return []any{x, x.BigInt(), x.Bytes(binary.BigEndian)}, err
		})
	}
	return
}

func edgeBigs() (bigs []*big.Int) {
	for _, k := range []uint{0, 1, 31, 32, 63, 64, 65, 100, 126, 127, 128} {
		for d := int64(-2); d <= 2; d++ {
			x := new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), k), big.NewInt(d))
			bigs = append(bigs, x, new(big.Int).Neg(x))
		}
	}
	return
}

func runC17(r *mcx.Run) {
	leaves := append(append([]reflect.Type{}, builtinLeaves...), chainLeaves...)
	ts := append(append(append([]reflect.Type{}, leaves...), namedTypes...), extTypes...)
	ts = append(ts, closure(leaves, 1, allCtors)...)
	ts = append(ts, closure(leavesC02(), 2, allCtors)...)
	if r.Thorough {
		ts = append(ts, closure([]reflect.Type{typeOf[[]byte](), typeOf[chain.Bytes](), typeOf[string](), typeOf[chain.PublicKey]()}, 3, allCtors)...)
	}
	sweepTypes(r, "encoding and decoding", ts, func(w *mcx.W, v reflect.Value) {
		for _, c := range codecs {
			single(w, encOp(c, v, false))
			single(w, encOp(c, v, true))
		}
		b := ref.MustEnc(v.Interface())
		for rk := range readerKinds {
			single(w, decOp(codecs[0], rk, v.Type(), b))
		}
		single(w, decOp(codecs[1], 1, v.Type(), b))
		single(w, decOp(codecs[2], 1, v.Type(), b))
		single(w, decOp(codecs[0], 1, v.Type(), b[:len(b)/2]))
	})
	var ats []*ref.AT
	for _, t := range abiBase() {
		ats = append(ats, suffixed(t, mcx.Pick(r, 2, 3))...)
	}
	sweepAbi(r, "ABI-driven", ats, func(w *mcx.W, def *chain.Abi, t *ref.AT, v any) {
		for rk := range readerKinds {
			for _, op := range abiOps(def, t, v, rk) {
				single(w, op)
			}
		}
	})
	r.Sweep("texts", uint64(len(textTypes)), func(w *mcx.W, i uint64) {
		t := textTypes[i]
		ss := validTexts(t)
		for _, v := range vals(t) {
			for _, op := range fmtOps(v) {
				single(w, op)
			}
			if m, ok := v.Interface().(encoding.TextMarshaler); ok {
				x, _ := m.MarshalText()
				ss = append(ss, string(x))
			}
		}
		for _, s := range ss {
			for k := 0; k <= len(s); k++ {
				for _, op := range textOps(t, s[:k]) {
					single(w, op)
				}
			}
		}
	})
	r.Sweep("formatting of chain values", uint64(len(chainLeaves)), func(w *mcx.W, i uint64) {
		for _, v := range vals(chainLeaves[i]) {
			for _, op := range fmtOps(v) {
				single(w, op)
			}
		}
	})
	r.Sweep("byte string operations", 301, func(w *mcx.W, i uint64) {
		for s := 0; s < 3; s++ {
			b := pat(int(i), byte(s))
			if s == 2 {
				b = make([]byte, i)
			}
			for _, op := range byteOps(b) {
				single(w, op)
			}
		}
	})
	ctors := ctorOps()
	r.Sweep("constructors", uint64(len(ctors)), func(w *mcx.W, i uint64) { single(w, ctors[i]) })
	bigs := edgeBigs()
	r.Sweep("128-bit numbers", uint64(len(bigs)), func(w *mcx.W, i uint64) {
		for _, op := range bigOps(bigs[i]) {
			single(w, op)
		}
	})

	// a copy kept of an earlier result while its variable is decoded into again
	var kept []reflect.Type
	for _, t := range chainLeaves {
		if !strings.HasPrefix(t.Name(), "Abi") { // these are generic structs, refilled in place
			kept = append(kept, t)
		}
	}
	kept = append(kept, typeOf[[]byte](), typeOf[[][]byte](), typeOf[[]uint16](), typeOf[[]string](), typeOf[[]inner](), typeOf[[]chain.Name](), typeOf[[]chain.Bytes](), typeOf[[]chain.Action](), typeOf[[]*inner](), typeOf[[]node](),
		typeOf[map[string]uint8](), typeOf[map[string][]byte](), typeOf[map[uint8]string](), typeOf[map[chain.Name]chain.Bytes](),
		typeOf[struct {
			A []byte
			B chain.Bytes
		}](), typeOf[[2][]byte](), typeOf[[2]chain.Blob]())
	// more values for the generic ones, so that all pairs of lengths occur
	keptVals := func(t reflect.Type) (out []reflect.Value) {
		out = append(out, vals(t)...)
		if t.Kind() != reflect.Slice || t.Elem().Kind() == reflect.Uint8 {
			return
		}
		x := vals(t.Elem())
		for _, n := range []int{2, 3, 4, 5, 8, 17} {
			v := reflect.MakeSlice(t, n, n)
			for k := 0; k < n; k++ {
				v.Index(k).Set(x[(k+n)%len(x)])
			}
			if _, err := ref.Enc(v); err == nil {
				out = append(out, v)
			}
		}
		return
	}
	r.Sweep("kept copies", uint64(len(kept)*3), func(w *mcx.W, i uint64) {
		t, c := kept[i/3], codecs[i%3]
		vs := keptVals(t)
		for _, v1 := range vs {
			for _, v2 := range vs {
				if t.PkgPath() == "" && v1.Kind() != reflect.Struct && v1.Kind() != reflect.Array && t != typeOf[[]byte]() && (v1.Len() == v2.Len() || v1.Len() == 0) {
					continue // generic containers of the same length are refilled in place
				}
				e1, e2 := ref.MustEnc(v1.Interface()), ref.MustEnc(v2.Interface())
				p := reflect.New(t)
				if err := c.dec(bytes.NewReader(e1)).Decode(p.Interface()); err != nil {
					w.Fail("%s codec: cannot decode %s: %v", c.name, show(v1), err)
				}
				kept := reflect.New(t).Elem()
				kept.Set(p.Elem())
				was := wholeClone(kept)
				for _, in := range [][]byte{e2, e2[:len(e2)/2]} {
					c.dec(bytes.NewReader(in)).Decode(p.Interface())
					if !wholeEq(kept, was) {
						w.Fail("%s codec: %s is decoded and a copy of it kept; after %s is decoded into the same variable the copy (or its spare capacity) is %s", c.name, show(was), hexs(in), show(kept))
					}
				}
				w.Step(3)
				w.Eval(2)
			}
		}
		w.NonTrivial()
		w.Trace()
	})
	// texts parsed again into the same variable
	r.Sweep("kept copies, texts", uint64(len(textTypes)), func(w *mcx.W, i uint64) {
		t := textTypes[i]
		var ss []string
		for _, v := range vals(t) {
			if m, ok := v.Interface().(encoding.TextMarshaler); ok {
				x, _ := m.MarshalText()
				ss = append(ss, string(x))
			}
		}
		ss = append(ss, validTexts(t)...)
		parse := func(p reflect.Value, s string) error {
			switch u := p.Interface().(type) {
			case encoding.TextUnmarshaler:
				return u.UnmarshalText([]byte(s))
			case json.Unmarshaler:
				return u.UnmarshalJSON([]byte(s))
			}
			return nil
		}
		for _, s1 := range ss {
			for _, s2 := range ss {
				p := reflect.New(t)
				if parse(p, s1) != nil {
					continue
				}
				kept := reflect.New(t).Elem()
				kept.Set(p.Elem())
				was := wholeClone(kept)
				for _, s := range []string{s2, s2[:len(s2)/2], s2 + "!"} {
					parse(p, s)
					if !wholeEq(kept, was) {
						w.Fail("%s is parsed from %q and a copy of it kept; after %q is parsed into the same variable the copy (or its spare capacity) is %s", t, s1, s, show(kept))
					}
				}
				w.Step(4)
				w.Eval(3)
			}
		}
		w.NonTrivial()
		w.Trace()
	})

	if !r.Replaying() && !r.Stopped() {
		raceShared(r)
	}

	// histories: all ordered pairs of operations
	ops := opUniverse()
	m := uint64(len(ops))
	r.Sweep(fmt.Sprintf("pairs of %d operations", m), m*m, func(w *mcx.W, i uint64) {
		history(w, []op17{ops[i%m], ops[i/m]})
	})
	few3 := ops
	step := mcx.Pick(r, 4, 2)
	few3 = nil
	for i := 0; i < len(ops); i += step {
		few3 = append(few3, ops[i])
	}
	k := uint64(len(few3))
	r.Sweep(fmt.Sprintf("triples of %d operations", k), k*k*k, func(w *mcx.W, i uint64) {
		history(w, []op17{few3[i%k], few3[i/k%k], few3[i/k/k]})
	})
}

// history runs operations in order; the results of all but the first are overwritten, with all argument
// memory, after each step. The first result must survive and the first operation must give it again.
func history(w *mcx.W, ops []op17) {
	a := &arena{}
	first := reflect.ValueOf(ops[0].run(a))
	keep := ref.Clone(first)
	a.scribble()
	// the caller extends what it got: everything up to the capacity of the slices is now its own
	var ext, extKeep []reflect.Value
	if first.IsValid() {
		slicesOf(first, func(s reflect.Value) {
			f := s.Slice(0, s.Cap())
			for i := s.Len(); i < f.Len(); i++ {
				overwrite(f.Index(i))
			}
			ext = append(ext, f)
		})
		for _, f := range ext {
			extKeep = append(extKeep, wholeClone(f))
		}
	}
	names := ops[0].name
	for _, op := range ops[1:] {
		b := &arena{}
		res := op.run(b)
		b.check(w, op.name)
		b.scribble()
		if v := reflect.ValueOf(res); v.IsValid() {
			p := reflect.New(v.Type())
			p.Elem().Set(v)
			overwrite(p.Elem())
		}
		names += "; then " + op.name
		if !ref.Eq(first, keep) {
			w.Fail("%s: overwriting the last result changes the first from %s to %s", names, show(keep), show(first))
		}
		for i := range ext {
			if !wholeEq(ext[i], extKeep[i]) {
				w.Fail("%s: a slice of the first result was extended to %s; after the last result was extended and overwritten it is %s", names, show(extKeep[i]), show(ext[i]))
			}
		}
	}
	again := reflect.ValueOf(ops[0].run(&arena{}))
	if !ref.Eq(again, keep) {
		w.Fail("%s (result overwritten); then the first again: it gives %s, at first it gave %s", names, show(again), show(keep))
	}
	w.Eval(len(ops))
	w.NonTrivial()
	w.Step(len(ops) + 1)
	w.Trace()
	w.AddStates(1)
}

// opUniverse is a varied list of operations for histories.
func opUniverse() (ops []op17) {
	for i, t := range append(append(append([]reflect.Type{}, builtinLeaves...), chainLeaves...), namedTypes...) {
		vs := vals(t)
		v := vs[len(vs)-1]
		ops = append(ops, encOp(codecs[i%3], v, i%2 == 0), decOp(codecs[i%3], i%4, t, ref.MustEnc(v.Interface())))
	}
	for i, t := range textTypes {
		vs := vals(t)
		ops = append(ops, fmtOps(vs[len(vs)-1])...)
		ss := validTexts(t)
		ops = append(ops, textOps(t, ss[len(ss)-1])...)
		ops = append(ops, textOps(t, ss[i%len(ss)]+"!")[0])
	}
	for _, n := range []int{0, 1, 5, 33} {
		ops = append(ops, byteOps(pat(n, byte(n)))...)
	}
	for i, t := range append(append([]reflect.Type{}, chainLeaves...), typeOf[[]byte](), typeOf[string](), typeOf[[]uint16](), typeOf[[][]byte](), typeOf[map[string][]byte]()) {
		z := reflect.Zero(t)
		if b, err := ref.Enc(z); err == nil {
			ops = append(ops, encOp(codecs[i%3], z, false), decOp(codecs[i%3], i%4, t, b))
		}
	}
	for i, t := range []*ref.AT{abiN.d3, abiN.v2, abiN.s2, abiN.dAlias, ref.Arr(abiN.s1), ref.Bi("bytes"), ref.Bi("public_key"), ref.Bi("checksum256"), abiN.tree, abiN.expr, abiN.aArrArr, ref.Bi("string"), ref.Bi("asset")} {
		vs := abiVals(t)
		ops = append(ops, abiOps(ref.Abi(t), t, vs[0], (i+1)%4)...)
		ops = append(ops, abiOps(ref.Abi(t), t, vs[len(vs)-1], i%4)...)
	}
	for _, b := range []*big.Int{big.NewInt(77), new(big.Int).Lsh(big.NewInt(-3), 100)} {
		ops = append(ops, bigOps(b)...)
	}
	for i, c := range ctorOps() {
		if i%5 == 0 {
			ops = append(ops, c)
		}
	}
	return
}
