package checks

import (
	"bytes"
	"fmt"
	"io"
	"reflect"

	"verif/mcx"
	"verif/ref"

	"github.com/greymass/go-eosio/pkg/abi"
	"github.com/greymass/go-eosio/pkg/chain"
)

// The three ways to construct a codec. They must be indistinguishable for every value.
type codec struct {
	name string
	enc  func(w io.Writer) *abi.Encoder
	dec  func(r io.Reader) *abi.Decoder
}

func declineEnc(e *abi.Encoder, v interface{}) (bool, error) { return false, nil }
func declineDec(d *abi.Decoder, v interface{}) (bool, error) { return false, nil }

var codecs = []codec{
	{"chain", chain.NewEncoder, chain.NewDecoder},
	{"plain", func(w io.Writer) *abi.Encoder { return abi.NewEncoder(w, declineEnc) },
		func(r io.Reader) *abi.Decoder { return abi.NewDecoder(r, declineDec) }},
	{"custom", func(w io.Writer) *abi.Encoder { return chain.NewCustomEncoder(w, declineEnc) },
		func(r io.Reader) *abi.Decoder { return chain.NewCustomDecoder(r, declineDec) }},
}

func (c codec) encode(v any) ([]byte, error) {
	var b bytes.Buffer
	err := c.enc(&b).Encode(v)
	intoAll(b.Bytes(), err, func(w io.Writer) error { return c.enc(w).Encode(v) })
	return b.Bytes(), err
}

// decode decodes into p and returns how many bytes were consumed.
func (c codec) decode(b []byte, p any) (int, error) {
	r, left := readerOf(kindFor(b), b)
	err := c.dec(r).Decode(p)
	return len(b) - left(), err
}

// decodeNew decodes into a fresh value of type t.
func (c codec) decodeNew(t reflect.Type, b []byte) (reflect.Value, int, error) {
	p := reflect.New(t)
	n, err := c.decode(b, p.Interface())
	return p.Elem(), n, err
}

var tailBytes = []byte{0xA5, 0x01, 0x5A}

func withTail(b []byte) []byte { return append(append(make([]byte, 0, len(b)+3), b...), tailBytes...) }

// ptrTo gives a pointer to a copy of v.
func ptrTo(v reflect.Value) reflect.Value {
	p := reflect.New(v.Type())
	p.Elem().Set(v)
	return p
}

func show(v reflect.Value) string {
	return fmt.Sprintf("%s %s", v.Type(), showv(v, 0))
}

func showv(v reflect.Value, d int) string {
	if d > 6 {
		return "..."
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		return "&" + showv(v.Elem(), d+1)
	case reflect.Struct:
		s := "{"
		for i := 0; i < v.NumField(); i++ {
			if i > 0 {
				s += " "
			}
			if i > 12 {
				s += "..."
				break
			}
			s += showv(v.Field(i), d+1)
		}
		return s + "}"
	case reflect.Slice, reflect.Array:
		if v.Len() > 0 && v.Index(0).Kind() == reflect.Uint8 && v.Kind() == reflect.Slice {
			return clip(fmt.Sprintf("0x%x", v.Bytes()))
		}
		s := "["
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				s += " "
			}
			if i > 12 {
				s += "..."
				break
			}
			s += showv(v.Index(i), d+1)
		}
		return s + "]"
	case reflect.Map:
		s := "map["
		n := 0
		for it := v.MapRange(); it.Next(); {
			if n > 8 {
				break
			}
			n++
			s += showv(it.Key(), d+1) + ":" + showv(it.Value(), d+1) + " "
		}
		return s + "]"
	case reflect.String:
		return clip(fmt.Sprintf("%q", v.String()))
	}
	if v.CanInterface() {
		switch v.Kind() {
		case reflect.Bool:
			return fmt.Sprint(v.Bool())
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			return fmt.Sprint(v.Int())
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			return fmt.Sprint(v.Uint())
		case reflect.Float32, reflect.Float64:
			return fmt.Sprint(v.Float())
		}
	}
	return "?"
}

func clip(s string) string {
	if len(s) > 200 {
		return s[:200] + fmt.Sprintf("...(%d)", len(s))
	}
	return s
}

func hexs(b []byte) string { return clip(fmt.Sprintf("%x", b)) }

// roundTrip checks one value completely: every codec, by value and by pointer, encoding and decoding.
func roundTrip(w *mcx.W, v reflect.Value) {
	var first []byte
	for ci, c := range codecs {
		for _, byPtr := range [2]bool{false, true} {
			var in any
			if byPtr {
				in = ptrTo(v).Interface()
			} else {
				in = v.Interface()
			}
			b, err := c.encode(in)
			if err != nil {
				w.Fail("%s codec (pointer=%v) cannot encode %s: %v", c.name, byPtr, show(v), err)
			}
			if first == nil {
				if !ref.Encodes(b, v) {
					want, _ := ref.Enc(v)
					w.Fail("%s codec (pointer=%v) encodes %s as %s, EOSIO form is %s", c.name, byPtr, show(v), hexs(b), hexs(want))
				}
				first = b
				if first == nil {
					first = []byte{}
				}
			} else if !bytes.Equal(first, b) {
				w.Fail("%s codec (pointer=%v) encodes %s as %s, another path as %s", c.name, byPtr, show(v), hexs(b), hexs(first))
			}
		}
		w.Eval(2)
		_ = ci
	}
	for _, c := range codecs {
		got, n, err := c.decodeNew(v.Type(), withTail(first))
		if err != nil {
			w.Fail("%s codec cannot decode %s back from %s: %v", c.name, show(v), hexs(first), err)
		}
		if n != len(first) {
			w.Fail("%s codec consumes %d of the %d bytes of %s (%s)", c.name, n, len(first), show(v), hexs(first))
		}
		if !ref.Eq(got, v) {
			w.Fail("%s codec decodes %s of %s as %s", c.name, hexs(first), show(v), show(got))
		}
		w.Eval(1)
	}
	w.Outcome(mcx.Hash(first))
}
