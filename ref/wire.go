// Package ref is the reference model: an independent, deliberately plain statement of the EOSIO wire
// format, text formats and ABI semantics. It shares no code with the library; of the library it uses
// only the type declarations.
package ref

import (
	"errors"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"sort"

	"github.com/greymass/go-eosio/pkg/chain"
)

var (
	ErrShort = errors.New("ref: input ends inside the value")
	ErrBad   = errors.New("ref: not a value")
	ErrNil   = errors.New("ref: nil where a value is required")
	ErrRange = errors.New("ref: out of range")
)

var (
	typPublicKey = reflect.TypeOf(chain.PublicKey{})
	typSignature = reflect.TypeOf(chain.Signature{})
)

func LE(v uint64, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(v >> (8 * uint(i)))
	}
	return b
}

func FromLE(b []byte) (v uint64) {
	for i := len(b) - 1; i >= 0; i-- {
		v = v<<8 | uint64(b[i])
	}
	return
}

// Uvar is the minimal LEB128 form.
func Uvar(v uint64) []byte {
	var b []byte
	for v >= 128 {
		b = append(b, byte(v%128)+128)
		v /= 128
	}
	return append(b, byte(v))
}

// Svar is the zig-zag LEB128 form.
func Svar(v int64) []byte {
	if v >= 0 {
		return Uvar(uint64(v) * 2)
	}
	return Uvar(uint64(-(v+1))*2 + 1)
}

// Own tells for a type whether it has an encoding of its own, which is then the marker followed by the
// length and the complement of the plain encoding, or whether it is opaque, so that Own does not apply inside.
type Own func(t reflect.Type) (marker []byte, opaque bool)

// has tells whether elements of a byte-sized type stand for themselves.
func (o Own) has(t reflect.Type) bool {
	if o == nil || t == reflect.TypeOf(byte(0)) {
		return false
	}
	m, _ := o(t)
	return m != nil
}

// EncOwn is the encoding when some types have their own.
func EncOwn(o Own, v reflect.Value) ([]byte, error) { return enc(o, nil, v) }

func DecOwn(o Own, t reflect.Type, b []byte) (reflect.Value, *D, error) {
	d := &D{B: b, own: o}
	v := reflect.New(t).Elem()
	err := d.dec(v)
	return v, d, err
}

// EncodesOwn tells whether b is an encoding of v.
func EncodesOwn(o Own, b []byte, v reflect.Value) bool {
	w, err := EncOwn(o, v)
	if err != nil || len(w) != len(b) {
		return false
	}
	if !BigMap(v) {
		return string(b) == string(w)
	}
	x, d, err := DecOwn(o, v.Type(), b)
	return err == nil && d.Pos == len(b) && !d.Loose && !d.Amb && Eq(x, v)
}

func wrap(b, marker []byte, v reflect.Value) ([]byte, error) {
	p, err := Enc(v)
	if err != nil {
		return b, err
	}
	return append(append(b, marker...), Wrapped(p)...), nil
}

// Wrapped is the length and the complement of p.
func Wrapped(p []byte) []byte {
	out := Uvar(uint64(len(p)))
	for _, c := range p {
		out = append(out, ^c)
	}
	return out
}

// Enc is the EOSIO encoding of v; map entries are in iteration order.
func Enc(v reflect.Value) ([]byte, error) { return enc(nil, nil, v) }

func EncAny(v any) ([]byte, error) { return enc(nil, nil, reflect.ValueOf(v)) }

// MustEnc is for values known to be encodable.
func MustEnc(v any) []byte {
	b, err := EncAny(v)
	if err != nil {
		panic(err)
	}
	return b
}

func enc(o Own, b []byte, v reflect.Value) ([]byte, error) {
	if !v.IsValid() {
		return b, ErrNil
	}
	t := v.Type()
	if o != nil {
		if m, end := o(t); m != nil {
			return wrap(b, m, v)
		} else if end {
			o = nil
		}
	}
	switch t {
	case typPublicKey:
		k := v.Interface().(chain.PublicKey)
		return append(append(b, byte(k.Type)), k.Data...), nil
	case typSignature:
		k := v.Interface().(chain.Signature)
		return append(append(b, byte(k.Type)), k.Data...), nil
	}
	var err error
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			return append(b, 1), nil
		}
		return append(b, 0), nil
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return append(b, LE(v.Uint(), int(t.Size()))...), nil
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return append(b, LE(uint64(v.Int()), int(t.Size()))...), nil
	case reflect.Uint:
		if v.Uint() > math.MaxUint32 {
			return b, ErrRange
		}
		return append(b, Uvar(v.Uint())...), nil
	case reflect.Int:
		if v.Int() > math.MaxInt32 || v.Int() < math.MinInt32 {
			return b, ErrRange
		}
		return append(b, Svar(v.Int())...), nil
	case reflect.Float32:
		return append(b, LE(uint64(f32bits(v)), 4)...), nil
	case reflect.Float64:
		return append(b, LE(math.Float64bits(v.Float()), 8)...), nil
	case reflect.String:
		b = append(b, Uvar(uint64(v.Len()))...)
		return append(b, v.String()...), nil
	case reflect.Slice:
		b = append(b, Uvar(uint64(v.Len()))...)
		fallthrough
	case reflect.Array:
		if t.Elem().Kind() == reflect.Uint8 && v.Kind() == reflect.Slice && !o.has(t.Elem()) {
			return append(b, v.Bytes()...), nil
		}
		for i := 0; i < v.Len(); i++ {
			if b, err = enc(o, b, v.Index(i)); err != nil {
				return b, err
			}
		}
		return b, nil
	case reflect.Map:
		b = append(b, Uvar(uint64(v.Len()))...)
		// the format leaves the order open; the reference uses that of the encoded entries
		var es []string
		for it := v.MapRange(); it.Next(); {
			e, err := enc(o, nil, it.Key())
			if err != nil {
				return b, err
			}
			if e, err = enc(o, e, it.Value()); err != nil {
				return b, err
			}
			es = append(es, string(e))
		}
		sort.Strings(es)
		for _, e := range es {
			b = append(b, e...)
		}
		return b, nil
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return b, ErrNil
		}
		return enc(o, b, v.Elem())
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			switch t.Field(i).Tag.Get("eosio") {
			case "optional":
				if f.IsZero() {
					b = append(b, 0)
					continue
				}
				b = append(b, 1)
				b, err = enc(o, b, f)
			case "variant":
				b, err = encVariant(o, b, f)
			default:
				b, err = enc(o, b, f)
			}
			if err != nil {
				return b, err
			}
		}
		return b, nil
	}
	return b, fmt.Errorf("ref: unsupported type %s", t)
}

func encVariant(o Own, b []byte, v reflect.Value) ([]byte, error) {
	if o != nil {
		e := v
		for e.Kind() == reflect.Ptr && !e.IsNil() {
			e = e.Elem()
		}
		if m, _ := o(e.Type()); m != nil {
			return wrap(b, m, e)
		}
	}
	for v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return b, ErrNil
		}
		v = v.Elem()
	}
	set := -1
	for i := 0; i < v.NumField(); i++ {
		if v.Field(i).IsNil() {
			continue
		}
		if set >= 0 {
			return b, ErrBad
		}
		set = i
	}
	if set < 0 {
		return b, ErrNil
	}
	b = append(b, Uvar(uint64(set))...)
	return enc(o, b, v.Field(set))
}

// D is a reference decoding in progress.
type D struct {
	B   []byte
	Pos int
	// Amb is set when the input is one for which the format does not single out a result: over-long
	// variable-length integers, repeated map keys, huge arrays of elements that occupy no bytes.
	Amb bool
	// Loose is set when a variable-length integer is not in its shortest form.
	Loose bool
	own   Own
}

func (d *D) take(n uint64) ([]byte, error) {
	if uint64(len(d.B)-d.Pos) < n {
		d.Pos = len(d.B)
		return nil, ErrShort
	}
	b := d.B[d.Pos : d.Pos+int(n)]
	d.Pos += int(n)
	return b, nil
}

func (d *D) uvar64() (uint64, error) {
	var v uint64
	for i := 0; ; i++ {
		c, err := d.take(1)
		if err != nil {
			return 0, err
		}
		if i == 9 && c[0] > 1 || i > 9 {
			return 0, ErrRange
		}
		v |= uint64(c[0]&127) << (7 * uint(i))
		if c[0] < 128 {
			if i >= 5 {
				d.Amb = true
			}
			if i > 0 && c[0] == 0 {
				d.Loose = true
			}
			return v, nil
		}
	}
}

func (d *D) uvar() (uint64, error) {
	v, err := d.uvar64()
	if err == nil && v > math.MaxUint32 {
		return 0, ErrRange
	}
	return v, err
}

// Dec decodes a value of type t from the front of b. It returns the value and the number of bytes it occupies.
func Dec(t reflect.Type, b []byte) (reflect.Value, *D, error) {
	d := &D{B: b}
	v := reflect.New(t).Elem()
	err := d.dec(v)
	return v, d, err
}

func (d *D) unwrap(m []byte, v reflect.Value) error {
	h, err := d.take(uint64(len(m)))
	if err != nil {
		return err
	}
	if string(h) != string(m) {
		return ErrBad
	}
	b, err := d.blob()
	if err != nil {
		return err
	}
	for i := range b {
		b[i] = ^b[i]
	}
	x, p, err := Dec(v.Type(), b)
	if err != nil || p.Pos != len(b) {
		return ErrBad
	}
	v.Set(x)
	return nil
}

func (d *D) fixed(n int) (uint64, error) {
	b, err := d.take(uint64(n))
	if err != nil {
		return 0, err
	}
	return FromLE(b), nil
}

func (d *D) blob() ([]byte, error) {
	n, err := d.uvar()
	if err != nil {
		return nil, err
	}
	b, err := d.take(n)
	return append([]byte{}, b...), err
}

func (d *D) keyData(kind byte, plain uint64, wa uint64, parts int) ([]byte, error) {
	if kind < 2 {
		b, err := d.take(plain)
		return append([]byte{}, b...), err
	}
	if kind > 2 {
		return nil, ErrBad
	}
	b, err := d.take(wa)
	if err != nil {
		return nil, err
	}
	out := append([]byte{}, b...)
	for i := 0; i < parts; i++ {
		p, err := d.blob()
		if err != nil {
			return nil, err
		}
		out = append(out, Uvar(uint64(len(p)))...)
		out = append(out, p...)
	}
	return out, nil
}

func (d *D) dec(v reflect.Value) error {
	t := v.Type()
	if d.own != nil {
		o := d.own
		if m, end := o(t); m != nil {
			return d.unwrap(m, v)
		} else if end {
			d.own = nil
			defer func() { d.own = o }()
		}
	}
	switch t {
	case typPublicKey, typSignature:
		k, err := d.take(1)
		if err != nil {
			return err
		}
		if t == typPublicKey {
			data, err := d.keyData(k[0], 33, 34, 1)
			if err != nil {
				return err
			}
			v.Set(reflect.ValueOf(chain.PublicKey{Type: chain.KeyType(k[0]), Data: data}))
		} else {
			data, err := d.keyData(k[0], 65, 65, 2)
			if err != nil {
				return err
			}
			v.Set(reflect.ValueOf(chain.Signature{Type: chain.KeyType(k[0]), Data: data}))
		}
		return nil
	}
	switch v.Kind() {
	case reflect.Bool:
		x, err := d.fixed(1)
		if err != nil {
			return err
		}
		v.SetBool(x != 0)
		return nil
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		x, err := d.fixed(int(t.Size()))
		if err != nil {
			return err
		}
		v.SetUint(x)
		return nil
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		n := int(t.Size())
		x, err := d.fixed(n)
		if err != nil {
			return err
		}
		v.SetInt(int64(x<<(64-8*uint(n))) >> (64 - 8*uint(n)))
		return nil
	case reflect.Uint:
		x, err := d.uvar()
		if err != nil {
			return err
		}
		v.SetUint(x)
		return nil
	case reflect.Int:
		u, err := d.uvar64()
		if err != nil {
			return err
		}
		x := int64(u >> 1)
		if u&1 == 1 {
			x = -x - 1
		}
		if x > math.MaxInt32 || x < math.MinInt32 {
			return ErrRange
		}
		v.SetInt(x)
		return nil
	case reflect.Float32:
		x, err := d.fixed(4)
		if err != nil {
			return err
		}
		v.Set(reflect.ValueOf(math.Float32frombits(uint32(x))).Convert(t))
		return nil
	case reflect.Float64:
		x, err := d.fixed(8)
		if err != nil {
			return err
		}
		v.SetFloat(math.Float64frombits(x))
		return nil
	case reflect.String:
		b, err := d.blob()
		if err != nil {
			return err
		}
		v.SetString(string(b))
		return nil
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 && !d.own.has(t.Elem()) {
			b, err := d.blob()
			if err != nil {
				return err
			}
			v.SetBytes(b)
			return nil
		}
		n, err := d.uvar()
		if err != nil {
			return err
		}
		s := reflect.MakeSlice(t, 0, 0)
		for i := uint64(0); i < n; i++ {
			p := d.Pos
			e := reflect.New(t.Elem()).Elem()
			if err := d.dec(e); err != nil {
				return err
			}
			s = reflect.Append(s, e)
			if d.Pos == p && n > 4096 {
				d.Amb = true
				return ErrBad
			}
		}
		v.Set(s)
		return nil
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			if err := d.dec(v.Index(i)); err != nil {
				return err
			}
		}
		return nil
	case reflect.Map:
		n, err := d.uvar()
		if err != nil {
			return err
		}
		m := reflect.MakeMap(t)
		for i := uint64(0); i < n; i++ {
			p := d.Pos
			k, e := reflect.New(t.Key()).Elem(), reflect.New(t.Elem()).Elem()
			if err := d.dec(k); err != nil {
				return err
			}
			if err := d.dec(e); err != nil {
				return err
			}
			if m.MapIndex(k).IsValid() {
				d.Amb = true
			}
			m.SetMapIndex(k, e)
			if !m.MapIndex(k).IsValid() { // NaN
				d.Amb = true
			}
			if d.Pos == p && n > 4096 {
				d.Amb = true
				return ErrBad
			}
		}
		v.Set(m)
		return nil
	case reflect.Ptr:
		e := reflect.New(t.Elem())
		if err := d.dec(e.Elem()); err != nil {
			return err
		}
		v.Set(e)
		return nil
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			switch t.Field(i).Tag.Get("eosio") {
			case "optional":
				x, err := d.fixed(1)
				if err != nil {
					return err
				}
				if x == 0 {
					continue
				}
				if err := d.dec(f); err != nil {
					return err
				}
			case "extension":
				if d.Pos == len(d.B) {
					continue
				}
				if err := d.dec(f); err != nil {
					return err
				}
			case "variant":
				if d.own != nil {
					e := f.Type()
					if e.Kind() == reflect.Ptr {
						e = e.Elem()
					}
					if m, _ := d.own(e); m != nil {
						if err := d.dec(f); err != nil {
							return err
						}
						continue
					}
				}
				idx, err := d.uvar()
				if err != nil {
					return err
				}
				s := f
				if s.Kind() == reflect.Ptr {
					s = reflect.New(f.Type().Elem()).Elem()
				}
				if idx >= uint64(s.NumField()) {
					return ErrRange
				}
				if err := d.dec(s.Field(int(idx))); err != nil {
					return err
				}
				if f.Kind() == reflect.Ptr {
					f.Set(s.Addr())
				}
			default:
				if err := d.dec(f); err != nil {
					return err
				}
			}
		}
		return nil
	}
	return fmt.Errorf("ref: unsupported type %s", t)
}

// f32bits avoids the detour through float64, which would quieten signalling NaNs.
func f32bits(v reflect.Value) uint32 {
	return math.Float32bits(v.Convert(reflect.TypeOf(float32(0))).Interface().(float32))
}

// Eq compares two values: floats by their bits, nil and empty slices and maps as equal.
func Eq(a, b reflect.Value) bool {
	if !a.IsValid() || !b.IsValid() {
		return a.IsValid() == b.IsValid()
	}
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Float32:
		return f32bits(a) == f32bits(b)
	case reflect.Float64:
		return math.Float64bits(a.Float()) == math.Float64bits(b.Float())
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return false
		}
		if a.Kind() == reflect.Slice && a.Type().Elem().Kind() == reflect.Uint8 {
			return string(a.Bytes()) == string(b.Bytes())
		}
		for i := 0; i < a.Len(); i++ {
			if !Eq(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.Len() != b.Len() {
			return false
		}
		for it := a.MapRange(); it.Next(); {
			if !Eq(it.Value(), b.MapIndex(it.Key())) {
				return false
			}
		}
		return true
	case reflect.Ptr, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		if a.Kind() == reflect.Ptr && a.Pointer() == b.Pointer() {
			return true
		}
		if a.Type() == BigType {
			return a.Interface().(*big.Int).Cmp(b.Interface().(*big.Int)) == 0
		}
		return Eq(a.Elem(), b.Elem())
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !Eq(a.Field(i), b.Field(i)) {
				return false
			}
			if k := a.Field(i).Kind(); (k == reflect.Slice || k == reflect.Map) && a.Type().Field(i).Tag.Get("eosio") == "optional" && a.Field(i).IsNil() != b.Field(i).IsNil() {
				return false // nil is absent, empty is present
			}
		}
		return true
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.String:
		return a.String() == b.String()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() == b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() == b.Uint()
	}
	return reflect.DeepEqual(a.Interface(), b.Interface())
}

func EqAny(a, b any) bool { return Eq(reflect.ValueOf(a), reflect.ValueOf(b)) }

// BigMap tells whether v contains a map with more than one entry, whose entry order the format leaves open.
func BigMap(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Map:
		if v.Len() > 1 {
			return true
		}
		for it := v.MapRange(); it.Next(); {
			if BigMap(it.Key()) || BigMap(it.Value()) {
				return true
			}
		}
	case reflect.Slice, reflect.Array:
		if k := v.Type().Elem().Kind(); k < reflect.Array {
			return false
		}
		for i := 0; i < v.Len(); i++ {
			if BigMap(v.Index(i)) {
				return true
			}
		}
	case reflect.Ptr, reflect.Interface:
		return !v.IsNil() && BigMap(v.Elem())
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if BigMap(v.Field(i)) {
				return true
			}
		}
	}
	return false
}

// Encodes tells whether b is an encoding of v.
func Encodes(b []byte, v reflect.Value) bool {
	w, err := Enc(v)
	if err != nil {
		return false
	}
	if !BigMap(v) {
		return string(b) == string(w)
	}
	if len(b) != len(w) {
		return false
	}
	x, d, err := Dec(v.Type(), b)
	return err == nil && d.Pos == len(b) && !d.Loose && !d.Amb && Eq(x, v)
}

// Clone is a deep copy sharing no memory with v.
func Clone(v reflect.Value) reflect.Value {
	out := reflect.New(v.Type()).Elem()
	switch v.Kind() {
	case reflect.Slice:
		if v.IsNil() {
			return out
		}
		out.Set(reflect.MakeSlice(v.Type(), v.Len(), v.Len()))
		if v.Type().Elem().Kind() < reflect.Array {
			reflect.Copy(out, v)
			return out
		}
		for i := 0; i < v.Len(); i++ {
			out.Index(i).Set(Clone(v.Index(i)))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			out.Index(i).Set(Clone(v.Index(i)))
		}
	case reflect.Map:
		if v.IsNil() {
			return out
		}
		out.Set(reflect.MakeMap(v.Type()))
		for it := v.MapRange(); it.Next(); {
			out.SetMapIndex(Clone(it.Key()), Clone(it.Value()))
		}
	case reflect.Ptr:
		if v.Type() == BigType && !v.IsNil() {
			out.Set(reflect.ValueOf(new(big.Int).Set(v.Interface().(*big.Int))))
		} else if !v.IsNil() {
			out.Set(reflect.New(v.Type().Elem()))
			out.Elem().Set(Clone(v.Elem()))
		}
	case reflect.Interface:
		if !v.IsNil() {
			out.Set(Clone(v.Elem()))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			out.Field(i).Set(Clone(v.Field(i)))
		}
	default:
		out.Set(v)
	}
	return out
}

// BigType is compared and copied as the number it is.
var BigType = reflect.TypeOf((*big.Int)(nil))
