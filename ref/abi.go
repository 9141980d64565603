package ref

import (
	"fmt"
	"math"
	"reflect"

	"github.com/greymass/go-eosio/pkg/chain"
)

// AK is the kind of a node of the ABI type language.
type AK int

const (
	ABuiltin AK = iota
	AArray
	AOptional
	AStruct
	AVariant
	AAlias
)

// AT is a type of the ABI type language as a syntax tree; Expr and Abi render it in the textual form
// that the library parses.
type AT struct {
	K      AK
	Name   string
	Elem   *AT // array, optional, alias
	Base   *AT // struct, may be an alias of one
	Fields []AF
	Alts   []*AT
}

type AF struct {
	Name string
	T    *AT
	Ext  bool
}

func Bi(name string) *AT           { return &AT{K: ABuiltin, Name: name} }
func Arr(t *AT) *AT                { return &AT{K: AArray, Elem: t} }
func Opt(t *AT) *AT                { return &AT{K: AOptional, Elem: t} }
func Alias(name string, t *AT) *AT { return &AT{K: AAlias, Name: name, Elem: t} }
func Struct(name string, base *AT, f ...AF) *AT {
	return &AT{K: AStruct, Name: name, Base: base, Fields: f}
}
func Variant(name string, alts ...*AT) *AT { return &AT{K: AVariant, Name: name, Alts: alts} }

func (t *AT) Expr() string {
	switch t.K {
	case AArray:
		return t.Elem.Expr() + "[]"
	case AOptional:
		return t.Elem.Expr() + "?"
	}
	return t.Name
}

// Abi collects the definitions reachable from the given types.
func Abi(ts ...*AT) *chain.Abi {
	a := &chain.Abi{Version: "eosio::abi/1.1"}
	seen := map[*AT]bool{}
	var walk func(t *AT)
	walk = func(t *AT) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		switch t.K {
		case AAlias:
			a.Types = append(a.Types, chain.AbiType{NewTypeName: t.Name, Type: t.Elem.Expr()})
		case AStruct:
			s := chain.AbiStruct{Name: t.Name}
			if t.Base != nil {
				s.Base = t.Base.Expr()
			}
			for _, f := range t.Fields {
				x := f.T.Expr()
				if f.Ext {
					x += "$"
				}
				s.Fields = append(s.Fields, chain.AbiField{Name: f.Name, Type: x})
			}
			a.Structs = append(a.Structs, s)
		case AVariant:
			v := chain.AbiVariant{Name: t.Name}
			for _, x := range t.Alts {
				v.Types = append(v.Types, x.Expr())
			}
			a.Variants = append(a.Variants, v)
		}
		walk(t.Elem)
		walk(t.Base)
		for _, f := range t.Fields {
			walk(f.T)
		}
		for _, x := range t.Alts {
			walk(x)
		}
	}
	for _, t := range ts {
		walk(t)
	}
	return a
}

// Strip removes aliases.
func (t *AT) Strip() *AT {
	for t.K == AAlias {
		t = t.Elem
	}
	return t
}

// AllFields lists inherited fields first.
func (t *AT) AllFields() []AF {
	t = t.Strip()
	var out []AF
	if t.Base != nil {
		out = append(out, t.Base.AllFields()...)
	}
	return append(out, t.Fields...)
}

// Builtins of the ABI language with the Go type dynamic decoding returns.
var Builtins = []struct {
	Name string
	T    reflect.Type
}{
	{"bool", reflect.TypeOf(false)}, {"string", reflect.TypeOf("")},
	{"uint8", reflect.TypeOf(uint8(0))}, {"uint16", reflect.TypeOf(uint16(0))}, {"uint32", reflect.TypeOf(uint32(0))}, {"uint64", reflect.TypeOf(chain.Uint64(0))},
	{"int8", reflect.TypeOf(int8(0))}, {"int16", reflect.TypeOf(int16(0))}, {"int32", reflect.TypeOf(int32(0))}, {"int64", reflect.TypeOf(int64(0))},
	{"uint128", reflect.TypeOf(chain.Uint128{})}, {"int128", reflect.TypeOf(chain.Int128{})},
	{"float32", reflect.TypeOf(float32(0))}, {"float64", reflect.TypeOf(float64(0))}, {"float128", reflect.TypeOf(chain.Float128{})},
	{"varuint32", reflect.TypeOf(uint(0))}, {"varint32", reflect.TypeOf(int(0))},
	{"bytes", reflect.TypeOf(chain.Bytes{})},
	{"asset", reflect.TypeOf(chain.Asset{})}, {"extended_asset", reflect.TypeOf(chain.ExtendedAsset{})},
	{"symbol", reflect.TypeOf(chain.Symbol(0))}, {"symbol_code", reflect.TypeOf(chain.SymbolCode(0))},
	{"name", reflect.TypeOf(chain.Name(0))}, {"eosio::name", reflect.TypeOf(chain.Name(0))},
	{"checksum160", reflect.TypeOf(chain.Checksum160{})}, {"checksum256", reflect.TypeOf(chain.Checksum256{})}, {"checksum512", reflect.TypeOf(chain.Checksum512{})},
	{"public_key", reflect.TypeOf(chain.PublicKey{})}, {"signature", reflect.TypeOf(chain.Signature{})},
	{"time_point", reflect.TypeOf(chain.TimePoint(0))}, {"time_point_sec", reflect.TypeOf(chain.TimePointSec(0))}, {"block_timestamp_type", reflect.TypeOf(chain.BlockTimestamp(0))},
}

var builtinType = func() map[string]reflect.Type {
	m := map[string]reflect.Type{}
	for _, b := range Builtins {
		m[b.Name] = b.T
	}
	return m
}()

// GoType is the Go type of a builtin.
func GoType(name string) reflect.Type { return builtinType[name] }

// AbiEnc is the encoding the ABI prescribes for v. Absent trailing extensions are left out; an absent
// optional extension is written as absent optional unless an extension before it was left out.
func AbiEnc(t *AT, v any) ([]byte, error) { return abiEnc(nil, t, v) }

func abiEnc(b []byte, t *AT, v any) ([]byte, error) {
	var err error
	switch t.K {
	case AAlias:
		return abiEnc(b, t.Elem, v)
	case AOptional:
		if v == nil {
			return append(b, 0), nil
		}
		return abiEnc(append(b, 1), t.Elem, v)
	case AArray:
		s, ok := v.([]any)
		if !ok {
			return b, ErrBad
		}
		b = append(b, Uvar(uint64(len(s)))...)
		for _, e := range s {
			if b, err = abiEnc(b, t.Elem, e); err != nil {
				return b, err
			}
		}
		return b, nil
	case AStruct:
		m, ok := v.(map[string]any)
		if !ok {
			return b, ErrBad
		}
		skipped := false
		for _, f := range t.AllFields() {
			x := m[f.Name]
			if f.Ext && x == nil && (skipped || f.T.Strip().K != AOptional) {
				skipped = true
				continue
			}
			if skipped {
				return b, ErrBad
			}
			if b, err = abiEnc(b, f.T, x); err != nil {
				return b, err
			}
		}
		return b, nil
	case AVariant:
		s, ok := v.([]any)
		if !ok || len(s) != 2 {
			return b, ErrBad
		}
		for i, a := range t.Alts {
			if a.Expr() == s[0] {
				return abiEnc(append(b, Uvar(uint64(i))...), a, s[1])
			}
		}
		return b, ErrBad
	}
	want := builtinType[t.Name]
	if v == nil || want == nil {
		return b, ErrBad
	}
	switch x := v.(type) {
	case uint64:
		if t.Name == "uint64" {
			return append(b, LE(x, 8)...), nil
		}
	case []byte:
		if t.Name == "bytes" {
			return append(append(b, Uvar(uint64(len(x)))...), x...), nil
		}
	}
	if reflect.TypeOf(v) != want {
		return b, ErrBad
	}
	return enc(nil, b, reflect.ValueOf(v))
}

// AbiDec decodes a value of type t from the front of b.
func AbiDec(t *AT, b []byte) (any, *D, error) {
	d := &D{B: b}
	v, err := d.abi(t, 0)
	return v, d, err
}

func (d *D) abi(t *AT, depth int) (any, error) {
	if depth > 3000 {
		d.Amb = true
		return nil, ErrBad
	}
	switch t.K {
	case AAlias:
		return d.abi(t.Elem, depth+1)
	case AOptional:
		x, err := d.fixed(1)
		if err != nil || x == 0 {
			return nil, err
		}
		return d.abi(t.Elem, depth+1)
	case AArray:
		n, err := d.uvar()
		if err != nil {
			return nil, err
		}
		out := []any{}
		for i := uint64(0); i < n; i++ {
			p := d.Pos
			e, err := d.abi(t.Elem, depth+1)
			if err != nil {
				return nil, err
			}
			out = append(out, e)
			if d.Pos == p && n > 4096 {
				d.Amb = true
				return nil, ErrBad
			}
		}
		return out, nil
	case AStruct:
		m := map[string]any{}
		for _, f := range t.AllFields() {
			if f.Ext && d.Pos == len(d.B) {
				m[f.Name] = nil
				continue
			}
			x, err := d.abi(f.T, depth+1)
			if err != nil {
				return nil, err
			}
			m[f.Name] = x
		}
		return m, nil
	case AVariant:
		i, err := d.uvar()
		if err != nil {
			return nil, err
		}
		if i >= uint64(len(t.Alts)) || i > math.MaxInt32 {
			return nil, ErrRange
		}
		x, err := d.abi(t.Alts[i], depth+1)
		if err != nil {
			return nil, err
		}
		return []any{t.Alts[i].Expr(), x}, nil
	}
	gt := builtinType[t.Name]
	if gt == nil {
		return nil, fmt.Errorf("ref: unknown type %s", t.Name)
	}
	v := reflect.New(gt).Elem()
	if err := d.dec(v); err != nil {
		return nil, err
	}
	return v.Interface(), nil
}

// Norm gives the form in which dynamic decoding returns v.
func Norm(v any) any {
	switch x := v.(type) {
	case uint64:
		return chain.Uint64(x)
	case []byte:
		return chain.Bytes(x)
	case []any:
		out := make([]any, len(x))
		for i := range x {
			out[i] = Norm(x[i])
		}
		return out
	case map[string]any:
		out := map[string]any{}
		for k, e := range x {
			out[k] = Norm(e)
		}
		return out
	}
	return v
}
