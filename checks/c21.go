package checks

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"reflect"

	"verif/mcx"
	"verif/ref"

	"github.com/greymass/go-eosio/pkg/abi"
	"github.com/greymass/go-eosio/pkg/chain"
)

func init() {
	register(&Check{
		ID: "C21", Level: "model_checking",
		Rule:        "the model encodes a value when a given set of types has an encoding of its own (claimed by the hook, or with marshalling methods) and all others the usual one. For every type of the universe, every value and every subset of the types occurring in it, the hook claims that subset: bytes, decoded value and number of bytes consumed must be those of the model, through both constructors. Then the hook fails at every single one of its calls: the very error must come back, the hook must not be called again and what was written must be a prefix. Types with methods (value or pointer receivers) are put in every position, and fail in every position. A case is non-trivial if a type is claimed, has methods, or a call fails.",
		Bounds:      "types: all named types and every type of constructor depth 2 over 12 leaves (quick), depth 3 over 5 (thorough); subsets: all if at most 6 (quick) / 8 (thorough) types occur, else all of at most 2 types and all of all but one; hooks that claim only some occurrences of a type: every subset of up to 4, in 5 containers; failures: every call, two ways of failing; 17 types with methods, depth 2 (quick) / 3 (thorough); named types of the 4 supported kinds, and 20 number types with methods, depth 1 (quick) / 2 (thorough).",
		Assumptions: []string{"the struct that holds the alternatives of a variant field is not offered to the hook, its alternative is; byte slices are offered whole; what the marshalling methods of chain types do inside is theirs"},
		Run:         runC21,
	})
}

// ---- types with their own methods

var ownMarker = map[reflect.Type][]byte{}

func ownType[T any](id byte) reflect.Type {
	t := typeOf[T]()
	ownMarker[t] = []byte{0xE0, id}
	return t
}

var errOwn = errors.New("own method fails")

func ownEnc(e *abi.Encoder, v any) error {
	rv := reflect.ValueOf(v)
	return wrapTo(e, ownMarker[rv.Type()], rv)
}

func wrapTo(e *abi.Encoder, marker []byte, rv reflect.Value) error {
	p, err := ref.Enc(rv)
	if err != nil {
		return err
	}
	return e.WriteBytes(append(append([]byte{}, marker...), ref.Wrapped(p)...))
}

func ownDec(d *abi.Decoder, p any) error {
	rv := reflect.ValueOf(p).Elem()
	return unwrapFrom(d, ownMarker[rv.Type()], rv)
}

func unwrapFrom(d *abi.Decoder, marker []byte, rv reflect.Value) error {
	_, h, err := d.ReadBytes(len(marker))
	if err != nil {
		return err
	}
	if !bytes.Equal(h, marker) {
		return errors.New("wrong marker")
	}
	n, err := d.ReadVaruint()
	if err != nil {
		return err
	}
	_, b, err := d.ReadBytes(int(n))
	if err != nil {
		return err
	}
	c := make([]byte, len(b))
	for i := range b {
		c[i] = ^b[i]
	}
	x, m, err := ref.Dec(rv.Type(), c)
	if err != nil || m.Pos != len(c) {
		return errors.New("bad payload")
	}
	rv.Set(x)
	return nil
}

type (
	ownStruct struct {
		A uint8
		B string
	}
	ownStructP struct {
		A uint16
		B []string
	}
	ownU8     uint8
	ownU8P    uint8
	ownU64    uint64
	ownU64P   uint64
	ownI32P   int32
	ownStr    string
	ownStrP   string
	ownBytes  []byte
	ownBytesP []byte
	ownList   []uint16
	ownListP  []ownStruct
	ownArr    [2]uint8
	ownArrP   [3]uint16
	ownMap    map[string]uint8
	ownBool   bool
	ownVar    struct {
		A *uint8
		B *string
	}
	ownVarP struct {
		A *uint8
		B *string
	}
)

func (v ownStruct) MarshalABI(e *abi.Encoder) error    { return ownEnc(e, v) }
func (v *ownStruct) UnmarshalABI(d *abi.Decoder) error { return ownDec(d, v) }

func (v *ownStructP) MarshalABI(e *abi.Encoder) error   { return ownEnc(e, *v) }
func (v *ownStructP) UnmarshalABI(d *abi.Decoder) error { return ownDec(d, v) }

func (v ownU8) MarshalABI(e *abi.Encoder) error    { return ownEnc(e, v) }
func (v *ownU8) UnmarshalABI(d *abi.Decoder) error { return ownDec(d, v) }

func (v *ownU8P) MarshalABI(e *abi.Encoder) error   { return ownEnc(e, *v) }
func (v *ownU8P) UnmarshalABI(d *abi.Decoder) error { return ownDec(d, v) }

func (v ownU64) MarshalABI(e *abi.Encoder) error    { return ownEnc(e, v) }
func (v *ownU64) UnmarshalABI(d *abi.Decoder) error { return ownDec(d, v) }

func (v *ownU64P) MarshalABI(e *abi.Encoder) error   { return ownEnc(e, *v) }
func (v *ownU64P) UnmarshalABI(d *abi.Decoder) error { return ownDec(d, v) }

func (v *ownI32P) MarshalABI(e *abi.Encoder) error   { return ownEnc(e, *v) }
func (v *ownI32P) UnmarshalABI(d *abi.Decoder) error { return ownDec(d, v) }

func (v ownStr) MarshalABI(e *abi.Encoder) error    { return ownEnc(e, v) }
func (v *ownStr) UnmarshalABI(d *abi.Decoder) error { return ownDec(d, v) }

func (v *ownStrP) MarshalABI(e *abi.Encoder) error   { return ownEnc(e, *v) }
func (v *ownStrP) UnmarshalABI(d *abi.Decoder) error { return ownDec(d, v) }

func (v ownBytes) MarshalABI(e *abi.Encoder) error    { return ownEnc(e, v) }
func (v *ownBytes) UnmarshalABI(d *abi.Decoder) error { return ownDec(d, v) }

func (v *ownBytesP) MarshalABI(e *abi.Encoder) error   { return ownEnc(e, *v) }
func (v *ownBytesP) UnmarshalABI(d *abi.Decoder) error { return ownDec(d, v) }

func (v ownList) MarshalABI(e *abi.Encoder) error    { return ownEnc(e, v) }
func (v *ownList) UnmarshalABI(d *abi.Decoder) error { return ownDec(d, v) }

func (v *ownListP) MarshalABI(e *abi.Encoder) error   { return ownEnc(e, *v) }
func (v *ownListP) UnmarshalABI(d *abi.Decoder) error { return ownDec(d, v) }

func (v ownArr) MarshalABI(e *abi.Encoder) error    { return ownEnc(e, v) }
func (v *ownArr) UnmarshalABI(d *abi.Decoder) error { return ownDec(d, v) }

func (v *ownArrP) MarshalABI(e *abi.Encoder) error   { return ownEnc(e, *v) }
func (v *ownArrP) UnmarshalABI(d *abi.Decoder) error { return ownDec(d, v) }

func (v ownMap) MarshalABI(e *abi.Encoder) error    { return ownEnc(e, v) }
func (v *ownMap) UnmarshalABI(d *abi.Decoder) error { return ownDec(d, v) }

func (v ownBool) MarshalABI(e *abi.Encoder) error    { return ownEnc(e, v) }
func (v *ownBool) UnmarshalABI(d *abi.Decoder) error { return ownDec(d, v) }

func (v ownVar) MarshalABI(e *abi.Encoder) error    { return ownVarEnc(e, v) }
func (v *ownVar) UnmarshalABI(d *abi.Decoder) error { return ownVarDec(d, v) }

func (v *ownVarP) MarshalABI(e *abi.Encoder) error   { return ownVarEnc(e, *v) }
func (v *ownVarP) UnmarshalABI(d *abi.Decoder) error { return ownVarDec(d, v) }

// every kind of number, by value and by pointer
type (
	own_uint16   uint16
	own_uint16Q  uint16
	own_uint32   uint32
	own_uint32Q  uint32
	own_int8     int8
	own_int8Q    int8
	own_int16    int16
	own_int16Q   int16
	own_int32    int32
	own_int32Q   int32
	own_int64    int64
	own_int64Q   int64
	own_int      int
	own_intQ     int
	own_uint     uint
	own_uintQ    uint
	own_float32  float32
	own_float32Q float32
	own_float64  float64
	own_float64Q float64
)

func (v own_uint16) MarshalABI(e *abi.Encoder) error    { return ownEnc(e, v) }
func (v *own_uint16) UnmarshalABI(d *abi.Decoder) error { return ownDec(d, v) }

func (v *own_uint16Q) MarshalABI(e *abi.Encoder) error   { return ownEnc(e, *v) }
func (v *own_uint16Q) UnmarshalABI(d *abi.Decoder) error { return ownDec(d, v) }

func (v own_uint32) MarshalABI(e *abi.Encoder) error    { return ownEnc(e, v) }
func (v *own_uint32) UnmarshalABI(d *abi.Decoder) error { return ownDec(d, v) }

func (v *own_uint32Q) MarshalABI(e *abi.Encoder) error   { return ownEnc(e, *v) }
func (v *own_uint32Q) UnmarshalABI(d *abi.Decoder) error { return ownDec(d, v) }

func (v own_int8) MarshalABI(e *abi.Encoder) error    { return ownEnc(e, v) }
func (v *own_int8) UnmarshalABI(d *abi.Decoder) error { return ownDec(d, v) }

func (v *own_int8Q) MarshalABI(e *abi.Encoder) error   { return ownEnc(e, *v) }
func (v *own_int8Q) UnmarshalABI(d *abi.Decoder) error { return ownDec(d, v) }

func (v own_int16) MarshalABI(e *abi.Encoder) error    { return ownEnc(e, v) }
func (v *own_int16) UnmarshalABI(d *abi.Decoder) error { return ownDec(d, v) }

func (v *own_int16Q) MarshalABI(e *abi.Encoder) error   { return ownEnc(e, *v) }
func (v *own_int16Q) UnmarshalABI(d *abi.Decoder) error { return ownDec(d, v) }

func (v own_int32) MarshalABI(e *abi.Encoder) error    { return ownEnc(e, v) }
func (v *own_int32) UnmarshalABI(d *abi.Decoder) error { return ownDec(d, v) }

func (v *own_int32Q) MarshalABI(e *abi.Encoder) error   { return ownEnc(e, *v) }
func (v *own_int32Q) UnmarshalABI(d *abi.Decoder) error { return ownDec(d, v) }

func (v own_int64) MarshalABI(e *abi.Encoder) error    { return ownEnc(e, v) }
func (v *own_int64) UnmarshalABI(d *abi.Decoder) error { return ownDec(d, v) }

func (v *own_int64Q) MarshalABI(e *abi.Encoder) error   { return ownEnc(e, *v) }
func (v *own_int64Q) UnmarshalABI(d *abi.Decoder) error { return ownDec(d, v) }

func (v own_int) MarshalABI(e *abi.Encoder) error    { return ownEnc(e, v) }
func (v *own_int) UnmarshalABI(d *abi.Decoder) error { return ownDec(d, v) }

func (v *own_intQ) MarshalABI(e *abi.Encoder) error   { return ownEnc(e, *v) }
func (v *own_intQ) UnmarshalABI(d *abi.Decoder) error { return ownDec(d, v) }

func (v own_uint) MarshalABI(e *abi.Encoder) error    { return ownEnc(e, v) }
func (v *own_uint) UnmarshalABI(d *abi.Decoder) error { return ownDec(d, v) }

func (v *own_uintQ) MarshalABI(e *abi.Encoder) error   { return ownEnc(e, *v) }
func (v *own_uintQ) UnmarshalABI(d *abi.Decoder) error { return ownDec(d, v) }

func (v own_float32) MarshalABI(e *abi.Encoder) error    { return ownEnc(e, v) }
func (v *own_float32) UnmarshalABI(d *abi.Decoder) error { return ownDec(d, v) }

func (v *own_float32Q) MarshalABI(e *abi.Encoder) error   { return ownEnc(e, *v) }
func (v *own_float32Q) UnmarshalABI(d *abi.Decoder) error { return ownDec(d, v) }

func (v own_float64) MarshalABI(e *abi.Encoder) error    { return ownEnc(e, v) }
func (v *own_float64) UnmarshalABI(d *abi.Decoder) error { return ownDec(d, v) }

func (v *own_float64Q) MarshalABI(e *abi.Encoder) error   { return ownEnc(e, *v) }
func (v *own_float64Q) UnmarshalABI(d *abi.Decoder) error { return ownDec(d, v) }

// named types without methods, for the hook
type (
	named_uint32 uint32
	named_uint64 uint64
	named_int32  int32
	named_int64  int64
)

var kindOwn = []reflect.Type{ownType[own_uint16](18), ownType[own_uint16Q](19), ownType[own_uint32](20), ownType[own_uint32Q](21), ownType[own_int8](22), ownType[own_int8Q](23), ownType[own_int16](24), ownType[own_int16Q](25), ownType[own_int32](26), ownType[own_int32Q](27), ownType[own_int64](28), ownType[own_int64Q](29), ownType[own_int](30), ownType[own_intQ](31), ownType[own_uint](32), ownType[own_uintQ](33), ownType[own_float32](34), ownType[own_float32Q](35), ownType[own_float64](36), ownType[own_float64Q](37)}
var kindNamed = []reflect.Type{typeOf[named_uint64](), typeOf[named_uint32](), typeOf[named_int64](), typeOf[named_int32]()}

// the model can only encode a struct of pointers as the alternatives of a variant
type varHolder[T any] struct {
	V T `eosio:"variant"`
}

func ownVarEnc[T any](e *abi.Encoder, v T) error {
	return wrapTo(e, ownMarker[reflect.TypeOf(v)], reflect.ValueOf(varHolder[T]{v}))
}

func ownVarDec[T any](d *abi.Decoder, p *T) error {
	var h varHolder[T]
	err := unwrapFrom(d, ownMarker[reflect.TypeOf(*p)], reflect.ValueOf(&h).Elem())
	if err == nil {
		*p = h.V
	}
	return err
}

var ownTypes = []reflect.Type{
	ownType[ownStruct](1), ownType[ownStructP](2), ownType[ownU8](3), ownType[ownU8P](4), ownType[ownU64](5), ownType[ownU64P](6),
	ownType[ownI32P](7), ownType[ownStr](8), ownType[ownStrP](9), ownType[ownBytes](10), ownType[ownBytesP](11),
	ownType[ownList](12), ownType[ownListP](13), ownType[ownArr](14), ownType[ownArrP](15), ownType[ownMap](16), ownType[ownBool](17),
}

var _, _ = ownType[ownVar](0x40), ownType[ownVarP](0x41)

// holders of types with methods where the reflection codec treats the field specially
type (
	ownVarField struct {
		A ownVar `eosio:"variant"`
		B uint8
	}
	ownVarPField struct {
		A ownVarP `eosio:"variant"`
		B uint8
	}
	ownVarPtrField struct {
		A *ownVarP `eosio:"variant"`
		C *ownVar  `eosio:"variant"`
		B uint8
	}
)

// ownFail fails in its methods when told to.
type ownFail struct{ N uint8 }

func (v ownFail) MarshalABI(e *abi.Encoder) error {
	if v.N == 0xBD {
		return errOwn
	}
	return e.WriteUint8(v.N)
}

func (v *ownFail) UnmarshalABI(d *abi.Decoder) (err error) {
	v.N, err = d.ReadUint8()
	if err == nil && v.N == 0xBD {
		return errOwn
	}
	return
}

// ---- the hook

var errHooked = errors.New("hook fails")

type hook struct {
	claim  map[reflect.Type][]byte
	calls  int
	failAt int
	done   bool
	err    error
	failed bool
	after  int
}

func (h *hook) step() (bool, error, bool) {
	h.calls++
	if h.failed {
		h.after++
	}
	if h.calls == h.failAt {
		h.failed = true
		return h.done, h.err, true
	}
	return false, nil, false
}

func (h *hook) enc(e *abi.Encoder, v interface{}) (bool, error) {
	if d, err, stop := h.step(); stop {
		return d, err
	}
	rv := reflect.ValueOf(v)
	if rv.Kind() == reflect.Ptr && !rv.IsNil() {
		rv = rv.Elem()
	}
	if rv.IsValid() {
		if m := h.claim[rv.Type()]; m != nil {
			return true, wrapTo(e, m, rv)
		}
	}
	return false, nil
}

func (h *hook) dec(d *abi.Decoder, v interface{}) (bool, error) {
	if d, err, stop := h.step(); stop {
		return d, err
	}
	rv := reflect.ValueOf(v)
	if rv.Kind() == reflect.Ptr && !rv.IsNil() {
		if m := h.claim[rv.Type().Elem()]; m != nil {
			return true, unwrapFrom(d, m, rv.Elem())
		}
	}
	return false, nil
}

func (h *hook) own(t reflect.Type) ([]byte, bool) {
	if m := h.claim[t]; m != nil {
		return m, false
	}
	if m := ownMarker[t]; m != nil {
		return m, false
	}
	return nil, opaque(t)
}

var (
	marshalerT   = typeOf[abi.Marshaler]()
	unmarshalerT = typeOf[abi.Unmarshaler]()
)

func opaque(t reflect.Type) bool {
	p := reflect.PointerTo(t)
	return t.Kind() != reflect.Ptr && (p.Implements(marshalerT) || p.Implements(unmarshalerT))
}

// occurring lists the types that the hook is offered inside t, and those hidden in types with methods.
func occurring(t reflect.Type) []reflect.Type {
	var out []reflect.Type
	hidden := map[reflect.Type]bool{}
	seen := map[reflect.Type]bool{}
	var hide func(t reflect.Type)
	hide = func(t reflect.Type) {
		if hidden[t] {
			return
		}
		hidden[t] = true
		switch t.Kind() {
		case reflect.Ptr, reflect.Slice, reflect.Array:
			hide(t.Elem())
		case reflect.Map:
			hide(t.Key())
			hide(t.Elem())
		case reflect.Struct:
			for i := 0; i < t.NumField(); i++ {
				hide(t.Field(i).Type)
			}
		}
	}
	var walk func(t reflect.Type, variant bool)
	walk = func(t reflect.Type, variant bool) {
		if t.Kind() == reflect.Ptr {
			walk(t.Elem(), variant)
			return
		}
		if seen[t] {
			return
		}
		seen[t] = true
		if variant {
			hidden[t] = true
		} else {
			out = append(out, t)
		}
		if opaque(t) {
			if ownMarker[t] == nil {
				switch t.Kind() {
				case reflect.Slice, reflect.Array:
					hide(t.Elem())
				case reflect.Struct:
					for i := 0; i < t.NumField(); i++ {
						hide(t.Field(i).Type)
					}
				}
			}
			return
		}
		switch t.Kind() {
		case reflect.Slice:
			if t.Elem() != typeOf[byte]() {
				walk(t.Elem(), false)
			}
		case reflect.Array:
			walk(t.Elem(), false)
		case reflect.Map:
			walk(t.Key(), false)
			walk(t.Elem(), false)
		case reflect.Struct:
			for i := 0; i < t.NumField(); i++ {
				walk(t.Field(i).Type, t.Field(i).Tag.Get("eosio") == "variant")
			}
		}
	}
	walk(t, false)
	var r []reflect.Type
	for _, x := range out {
		if !hidden[x] {
			r = append(r, x)
		}
	}
	return r
}

// subsets gives all subsets of n things, or those of bounded size if n is large.
func subsets(n, max int) (out []uint64) {
	if n <= max {
		for m := uint64(0); m < 1<<n; m++ {
			out = append(out, m)
		}
		return
	}
	full := uint64(1)<<n - 1
	out = append(out, 0, full)
	for i := 0; i < n; i++ {
		out = append(out, 1<<i, full&^(1<<i))
		for j := 0; j < i; j++ {
			out = append(out, 1<<i|1<<j)
		}
	}
	return
}

type hookedCodec struct {
	name string
	enc  func(w io.Writer, fn abi.EncodeFunc) *abi.Encoder
	dec  func(r io.Reader, fn abi.DecodeFunc) *abi.Decoder
}

var hooked = []hookedCodec{
	{"abi.New", abi.NewEncoder, abi.NewDecoder},
	{"chain.NewCustom", chain.NewCustomEncoder, chain.NewCustomDecoder},
}

func claims(ts []reflect.Type, m uint64) map[reflect.Type][]byte {
	c := map[reflect.Type][]byte{}
	for i, t := range ts {
		if m&(1<<i) != 0 {
			c[t] = []byte{0xEE, byte(i)}
		}
	}
	return c
}

func claimNames(c map[reflect.Type][]byte) string {
	s := ""
	for t := range c {
		s += t.String() + " "
	}
	return "{" + clip(s) + "}"
}

// hookCase checks one value with one set of claimed types.
func hookCase(w *mcx.W, v reflect.Value, claim map[reflect.Type][]byte) {
	model := &hook{claim: claim}
	var first []byte
	for _, c := range hooked {
		for _, ptr := range [2]bool{false, true} {
			h := &hook{claim: claim}
			var b bytes.Buffer
			in := v
			if ptr {
				in = ptrTo(v)
			}
			err := c.enc(&b, h.enc).Encode(in.Interface())
			if err != nil {
				w.Fail("%sEncoder, hook claims %s: cannot encode %s (pointer=%v): %v", c.name, claimNames(claim), show(v), ptr, err)
			}
			if !ref.EncodesOwn(model.own, b.Bytes(), v) {
				want, _ := ref.EncOwn(model.own, v)
				w.Fail("%sEncoder, hook claims %s: %s (pointer=%v) encodes as %s, want %s", c.name, claimNames(claim), show(v), ptr, hexs(b.Bytes()), hexs(want))
			}
			first = b.Bytes()
			w.Eval(1)
		}
		h := &hook{claim: claim}
		in := bytes.NewReader(withTail(first))
		p := reflect.New(v.Type())
		err := c.dec(in, h.dec).Decode(p.Interface())
		if err != nil {
			w.Fail("%sDecoder, hook claims %s: cannot decode %s from %s: %v", c.name, claimNames(claim), show(v), hexs(first), err)
		}
		if in.Len() != len(tailBytes) || !ref.Eq(p.Elem(), v) {
			w.Fail("%sDecoder, hook claims %s: %s of %s decodes as %s with %d bytes left, want %d", c.name, claimNames(claim), hexs(first), show(v), show(p.Elem()), in.Len(), len(tailBytes))
		}
		w.Eval(1)
	}
	w.AddStates(1)
	w.Step(6)
	w.Trace()
	if len(claim) > 0 {
		w.NonTrivial()
	}
	w.Outcome(mcx.Hash(first))
	w.Sample(func() string { return clip(fmt.Sprintf("claims %s: %s <-> %x", claimNames(claim), show(v), first)) })
}

// hookFail makes the hook fail at every one of its calls.
func hookFail(w *mcx.W, v reflect.Value, claim map[reflect.Type][]byte, fail error) {
	for _, c := range hooked {
		full := &hook{claim: claim}
		var all bytes.Buffer
		if err := c.enc(&all, full.enc).Encode(v.Interface()); err != nil {
			w.Fail("%sEncoder: cannot encode %s: %v", c.name, show(v), err)
		}
		for k := 1; k <= full.calls; k++ {
			for _, done := range [2]bool{false, true} {
				h := &hook{claim: claim, failAt: k, done: done, err: fail}
				var b bytes.Buffer
				err := c.enc(&b, h.enc).Encode(v.Interface())
				if !errors.Is(err, fail) {
					w.Fail("%sEncoder: hook fails at call %d of %d (done=%v) while encoding %s, reported %v", c.name, k, full.calls, done, show(v), err)
				}
				if h.after > 0 {
					w.Fail("%sEncoder: hook is called %d times after failing at call %d of %d (done=%v) while encoding %s", c.name, h.after, k, full.calls, done, show(v))
				}
				if !bytes.HasPrefix(all.Bytes(), b.Bytes()) {
					w.Fail("%sEncoder: hook fails at call %d of %d while encoding %s: written %s, not a prefix of %s", c.name, k, full.calls, show(v), hexs(b.Bytes()), hexs(all.Bytes()))
				}
				w.Eval(1)
				w.Step(1)
			}
		}
		full = &hook{claim: claim}
		if err := c.dec(bytes.NewReader(all.Bytes()), full.dec).Decode(reflect.New(v.Type()).Interface()); err != nil {
			w.Fail("%sDecoder: cannot decode %s: %v", c.name, show(v), err)
		}
		for k := 1; k <= full.calls; k++ {
			for _, done := range [2]bool{false, true} {
				h := &hook{claim: claim, failAt: k, done: done, err: fail}
				err := c.dec(bytes.NewReader(all.Bytes()), h.dec).Decode(reflect.New(v.Type()).Interface())
				if !errors.Is(err, fail) {
					w.Fail("%sDecoder: hook fails at call %d of %d (done=%v) while decoding %s, reported %v", c.name, k, full.calls, done, show(v), err)
				}
				if h.after > 0 {
					w.Fail("%sDecoder: hook is called %d times after failing at call %d of %d (done=%v) while decoding %s", c.name, h.after, k, full.calls, done, show(v))
				}
				w.Eval(1)
				w.Step(1)
			}
		}
	}
	w.NonTrivial()
}

func runC21(r *mcx.Run) {
	leaves := []reflect.Type{
		typeOf[bool](), typeOf[uint8](), typeOf[int](), typeOf[string](), typeOf[[]byte](), typeOf[float64](),
		typeOf[chain.Name](), typeOf[chain.Asset](), typeOf[chain.Checksum256](), typeOf[chain.PublicKey](), typeOf[inner](), typeOf[ownStruct](),
	}
	var types []reflect.Type
	types = append(types, builtinLeaves...)
	types = append(types, chainLeaves...)
	types = append(types, namedTypes...)
	types = append(types, closure(leaves, 1, allCtors)...)
	types = append(types, closure(leaves, 2, allCtors)...)
	types = append(types, kindNamed...)
	types = append(types, closure(kindNamed, 1, allCtors)...)
	if r.Thorough {
		types = append(types, closure(leaves[1:6], 3, allCtors)...)
	}
	type tcase struct {
		v  reflect.Value
		ts []reflect.Type
	}
	var cs []tcase
	perType := mcx.Pick(r, 3, 5)
	for _, t := range types {
		ts := occurring(t)
		vs := vals(t)
		for k := 0; k < len(vs) && k < perType; k++ {
			cs = append(cs, tcase{vs[len(vs)-1-k], ts}) // the largest values come last
		}
	}
	maxSub := mcx.Pick(r, 6, 8)
	r.Sweep(fmt.Sprintf("every subset claimed (%d types)", len(types)), uint64(len(cs)), func(w *mcx.W, i uint64) {
		c := cs[i]
		for _, m := range subsets(len(c.ts), maxSub) {
			hookCase(w, c.v, claims(c.ts, m))
		}
	})
	// failing hooks
	var fs []tcase
	for _, c := range cs {
		if c.v.Type().Kind() != reflect.Slice || c.v.Len() < 20 {
			fs = append(fs, c)
		}
	}
	r.Sweep("hook fails at every call", uint64(len(fs)), func(w *mcx.W, i uint64) {
		c := fs[i]
		hookFail(w, c.v, nil, errHooked)
		for k := range c.ts {
			hookFail(w, c.v, claims(c.ts, 1<<k), errHooked)
		}
	})
	r.Sweep("hook fails with the errors of the library", uint64(len(fs))*2, func(w *mcx.W, i uint64) {
		c := fs[i/2]
		e := io.EOF
		if i%2 == 1 {
			e = io.ErrUnexpectedEOF
		}
		if hasExt(c.v.Type()) {
			return // the end of the input means an absent extension
		}
		hookFail(w, c.v, nil, e)
	})
	// types with methods
	var owns []reflect.Type
	owns = append(owns, ownTypes...)
	owns = append(owns, kindOwn...)
	owns = append(owns, closure(kindOwn, 1, allCtors)...)
	if r.Thorough {
		owns = append(owns, closure(kindOwn, 2, allCtors)...)
	}
	for d := 1; d <= mcx.Pick(r, 2, 3); d++ {
		owns = append(owns, closure(ownTypes, d, allCtors)...)
	}
	r.Sweep(fmt.Sprintf("types with methods (%d types)", len(owns)), uint64(len(owns)), func(w *mcx.W, i uint64) {
		for _, v := range vals(owns[i]) {
			hookCase(w, v, nil)
			chainOwn(w, v)
			w.NonTrivial()
		}
	})
	u, s := uint8(9), "text"
	vh := []any{
		ownVarField{ownVar{A: &u}, 1}, ownVarField{ownVar{B: &s}, 1},
		ownVarPField{ownVarP{A: &u}, 1}, ownVarPField{ownVarP{B: &s}, 1},
		ownVarPtrField{&ownVarP{A: &u}, &ownVar{B: &s}, 1}, ownVarPtrField{&ownVarP{B: &s}, &ownVar{A: &u}, 1},
		[]ownVarField{{ownVar{A: &u}, 1}, {ownVar{B: &s}, 2}}, map[uint8]ownVarPField{1: {ownVarP{A: &u}, 1}},
	}
	r.Sweep("variants with methods", uint64(len(vh)), func(w *mcx.W, i uint64) {
		varOwn(w, reflect.ValueOf(vh[i]))
	})
	hookSome(r)
	// failing methods
	failTypes := append([]reflect.Type{typeOf[ownFail]()}, closure([]reflect.Type{typeOf[ownFail]()}, 1, allCtors)...)
	failTypes = append(failTypes, closure([]reflect.Type{typeOf[ownFail]()}, 2, allCtors)...)
	if r.Thorough {
		failTypes = append(failTypes, closure([]reflect.Type{typeOf[ownFail]()}, 3, allCtors)...)
	}
	r.Sweep("methods that fail", uint64(len(failTypes)), func(w *mcx.W, i uint64) {
		for _, v := range vals(failTypes[i]) {
			ownFails(w, v)
		}
	})
}

func hasExt(t reflect.Type) bool {
	found := false
	seen := map[reflect.Type]bool{}
	var walk func(t reflect.Type)
	walk = func(t reflect.Type) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch t.Kind() {
		case reflect.Ptr, reflect.Slice, reflect.Array:
			walk(t.Elem())
		case reflect.Map:
			walk(t.Key())
			walk(t.Elem())
		case reflect.Struct:
			for i := 0; i < t.NumField(); i++ {
				found = found || t.Field(i).Tag.Get("eosio") == "extension"
				walk(t.Field(i).Type)
			}
		}
	}
	walk(t)
	return found
}

// chainOwn runs a value with methods inside through the standard codec.
func chainOwn(w *mcx.W, v reflect.Value) {
	m := &hook{}
	for _, in := range []reflect.Value{v, ptrTo(v)} {
		b, err := codecs[0].encode(in.Interface())
		if err != nil || !ref.EncodesOwn(m.own, b, v) {
			want, _ := ref.EncOwn(m.own, v)
			w.Fail("chain.NewEncoder: %s (as %s) encodes as %s, %v, its methods give %s", show(v), in.Type(), hexs(b), err, hexs(want))
		}
		x, n, err := codecs[0].decodeNew(v.Type(), withTail(b))
		if err != nil || n != len(b) || !ref.Eq(x, v) {
			w.Fail("chain.NewDecoder: %s of %s decodes as %s, %v, %d bytes", hexs(b), show(v), show(x), err, n)
		}
		w.Eval(2)
	}
}

// varOwn: variants are read back as written, through their methods.
func varOwn(w *mcx.W, v reflect.Value) {
	for _, c := range codecs {
		for _, in := range []reflect.Value{v, ptrTo(v)} {
			b, err := c.encode(in.Interface())
			if err != nil {
				w.Fail("%s codec: cannot encode %s: %v", c.name, show(v), err)
			}
			if !bytes.Contains(b, []byte{0xE0, 0x40}) && !bytes.Contains(b, []byte{0xE0, 0x41}) {
				w.Fail("%s codec: %s (as %s) encodes as %s without its methods", c.name, show(v), in.Type(), hexs(b))
			}
			x, n, err := c.decodeNew(v.Type(), withTail(b))
			if err != nil || n != len(b) || !ref.Eq(x, v) {
				w.Fail("%s codec: %s of %s decodes as %s, %v, %d bytes", c.name, hexs(b), show(v), show(x), err, n)
			}
			w.Eval(2)
		}
	}
	w.NonTrivial()
}

// ownFails puts the failing value at every place of v where a value with methods is.
func ownFails(w *mcx.W, v reflect.Value) {
	c := ref.Clone(v)
	n := 0
	var find func(x reflect.Value, set func(reflect.Value)) // visits every ownFail
	var places []func()
	find = func(x reflect.Value, set func(reflect.Value)) {
		if x.Type() == typeOf[ownFail]() {
			places = append(places, func() { set(reflect.ValueOf(ownFail{0xBD})) })
			n++
			return
		}
		switch x.Kind() {
		case reflect.Ptr:
			if !x.IsNil() {
				find(x.Elem(), func(y reflect.Value) { x.Elem().Set(y) })
			}
		case reflect.Slice, reflect.Array:
			for i := 0; i < x.Len(); i++ {
				e := x.Index(i)
				find(e, func(y reflect.Value) { e.Set(y) })
			}
		case reflect.Struct:
			for i := 0; i < x.NumField(); i++ {
				e := x.Field(i)
				if x.Type().Field(i).Tag.Get("eosio") == "optional" && e.IsZero() {
					continue
				}
				find(e, func(y reflect.Value) { e.Set(y) })
			}
		case reflect.Map:
			for it := x.MapRange(); it.Next(); {
				k, e := it.Key(), it.Value()
				if e.Type() == typeOf[ownFail]() {
					find(e, func(y reflect.Value) { x.SetMapIndex(k, y) })
				} else if e.Kind() == reflect.Ptr {
					find(e, nil)
				} else if e.Kind() == reflect.Slice {
					find(e, nil)
				}
				if k.Type() == typeOf[ownFail]() {
					find(k, func(y reflect.Value) { x.SetMapIndex(k, reflect.Value{}); x.SetMapIndex(y, e) })
				}
			}
		}
	}
	root := ptrTo(c).Elem()
	find(root, func(y reflect.Value) { root.Set(y) })
	for k := 0; k < n; k++ {
		places = places[:0]
		root = ptrTo(ref.Clone(v)).Elem()
		find(root, func(y reflect.Value) { root.Set(y) })
		if k >= len(places) {
			break
		}
		places[k]()
		for _, cd := range codecs {
			for _, in := range []reflect.Value{root, ptrTo(root)} {
				_, err := cd.encode(in.Interface())
				if !errors.Is(err, errOwn) {
					w.Fail("%s codec: MarshalABI fails inside %s, reported %v", cd.name, show(root), err)
				}
			}
			b, _ := ref.Enc(root) // the plain form of ownFail is its byte
			_, _, err := cd.decodeNew(root.Type(), b)
			if !errors.Is(err, errOwn) {
				w.Fail("%s codec: UnmarshalABI fails inside %s (%s), reported %v", cd.name, show(root), hexs(b), err)
			}
			w.Eval(3)
			w.Step(3)
		}
		w.NonTrivial()
	}
}

// hookSome: the hook claims some occurrences of a type and declines others, every subset of them, by the
// value when encoding and by the order of the calls when decoding.
func hookSome(r *mcx.Run) {
	elems := append(append([]reflect.Type{}, builtinLeaves...), chainLeaves...)
	elems = append(elems, namedTypes...)
	type sc struct {
		v    reflect.Value   // the container
		head []byte          // before the first occurrence
		occ  []reflect.Value // occurrences in order
		mid  map[int][]byte  // bytes before an occurrence
	}
	var cs []sc
	for _, t := range elems {
		var vs []reflect.Value
		for _, v := range vals(t) { // distinct values
			dup := false
			for _, x := range vs {
				dup = dup || ref.Eq(x, v)
			}
			if !dup && len(vs) < 4 {
				vs = append(vs, v)
			}
		}
		if len(vs) < 2 || t.Kind() == reflect.Map || ref.BigMap(vs[len(vs)-1]) || selfNested(t) {
			continue
		}
		n := len(vs)
		if t.Kind() != reflect.Uint8 {
			sl := reflect.MakeSlice(reflect.SliceOf(t), 0, n)
			cs = append(cs, sc{reflect.Append(sl, vs...), ref.Uvar(uint64(n)), vs, nil})
			nn := reflect.MakeSlice(reflect.SliceOf(sl.Type()), 0, 2)
			nn = reflect.Append(nn, reflect.Append(sl, vs[:1]...), reflect.Append(reflect.MakeSlice(sl.Type(), 0, n), vs[1:]...))
			cs = append(cs, sc{nn, []byte{2, 1}, vs, map[int][]byte{1: ref.Uvar(uint64(n - 1))}})
		}
		pl := reflect.MakeSlice(reflect.SliceOf(reflect.PointerTo(t)), 0, n)
		for _, v := range vs {
			pl = reflect.Append(pl, ptrTo(v))
		}
		cs = append(cs, sc{pl, ref.Uvar(uint64(n)), vs, nil})
		ar := reflect.New(reflect.ArrayOf(n, t)).Elem()
		for i, v := range vs {
			ar.Index(i).Set(v)
		}
		cs = append(cs, sc{ar, nil, vs, nil})
		var sf []reflect.StructField
		mid := map[int][]byte{}
		for i := range vs {
			ft := t
			if i%2 == 1 {
				ft = reflect.PointerTo(t)
			}
			tag := ""
			if i == 1 {
				tag = `eosio:"optional"`
				mid[i] = []byte{1}
			}
			sf = append(sf, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: ft, Tag: reflect.StructTag(tag)})
		}
		st := reflect.New(reflect.StructOf(sf)).Elem()
		for i, v := range vs {
			if i%2 == 1 {
				st.Field(i).Set(ptrTo(v))
			} else {
				st.Field(i).Set(v)
			}
		}
		cs = append(cs, sc{st, nil, vs, mid})
	}
	marker := []byte{0xd7, 0x5c}
	r.Sweep("some occurrences claimed", uint64(len(cs)), func(w *mcx.W, i uint64) {
		c := cs[i]
		t := c.occ[0].Type()
		for set := 0; set < 1<<len(c.occ); set++ {
			want := append([]byte{}, c.head...)
			for k, o := range c.occ {
				want = append(want, c.mid[k]...)
				p := ref.MustEnc(o.Interface())
				if set>>k&1 == 1 {
					p = append(append([]byte{}, marker...), ref.Wrapped(p)...)
				}
				want = append(want, p...)
			}
			for _, hc := range hooked {
				var b bytes.Buffer
				err := hc.enc(&b, func(e *abi.Encoder, v interface{}) (bool, error) {
					rv := reflect.ValueOf(v)
					if rv.Kind() == reflect.Ptr && !rv.IsNil() {
						rv = rv.Elem()
					}
					if rv.IsValid() && rv.Type() == t {
						for k, o := range c.occ {
							if set>>k&1 == 1 && ref.Eq(o, rv) {
								return true, wrapTo(e, marker, rv)
							}
						}
					}
					return false, nil
				}).Encode(c.v.Interface())
				if err != nil || !bytes.Equal(b.Bytes(), want) {
					w.Fail("%sEncoder, hook claims occurrences %b of %s in %s: %s, %v, want %s", hc.name, set, t, show(c.v), hexs(b.Bytes()), err, hexs(want))
				}
				n := 0
				d := reflect.New(c.v.Type())
				in := bytes.NewReader(withTail(want))
				err = hc.dec(in, func(d *abi.Decoder, v interface{}) (bool, error) {
					rv := reflect.ValueOf(v)
					if rv.Kind() == reflect.Ptr && !rv.IsNil() && rv.Type().Elem() == t {
						n++
						if set>>(n-1)&1 == 1 {
							return true, unwrapFrom(d, marker, rv.Elem())
						}
					}
					return false, nil
				}).Decode(d.Interface())
				if err != nil || in.Len() != len(tailBytes) || !ref.Eq(d.Elem(), c.v) {
					w.Fail("%sDecoder, hook claims occurrences %b of %s in %s: %s decodes as %s, %v, %d bytes left", hc.name, set, t, show(c.v), hexs(want), show(d.Elem()), err, in.Len())
				}
				w.Eval(2)
			}
			w.AddStates(1)
			w.Step(4)
			w.Trace()
			w.NonTrivial()
			w.Outcome(mcx.Hash(want))
		}
	})
}

// selfNested: a value of the type can contain another one.
func selfNested(t reflect.Type) bool {
	found := false
	seen := map[reflect.Type]bool{}
	var walk func(u reflect.Type)
	walk = func(u reflect.Type) {
		if u == t && len(seen) > 0 {
			found = true
		}
		if seen[u] {
			return
		}
		seen[u] = true
		switch u.Kind() {
		case reflect.Ptr, reflect.Slice, reflect.Array:
			walk(u.Elem())
		case reflect.Map:
			walk(u.Key())
			walk(u.Elem())
		case reflect.Struct:
			for i := 0; i < u.NumField(); i++ {
				walk(u.Field(i).Type)
			}
		}
	}
	walk(t)
	return found
}
