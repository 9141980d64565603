package checks

import (
	"fmt"
	"math"
	"reflect"
	"strings"
	"sync"

	"github.com/greymass/go-eosio/pkg/chain"
)

func typeOf[T any]() reflect.Type { return reflect.TypeOf((*T)(nil)).Elem() }

// ---- leaves

var builtinLeaves = []reflect.Type{
	typeOf[bool](), typeOf[uint8](), typeOf[uint16](), typeOf[uint32](), typeOf[uint64](),
	typeOf[int8](), typeOf[int16](), typeOf[int32](), typeOf[int64](),
	typeOf[float32](), typeOf[float64](), typeOf[int](), typeOf[uint](),
	typeOf[string](), typeOf[[]byte](),
}

var chainLeaves = []reflect.Type{
	typeOf[chain.Name](), typeOf[chain.Symbol](), typeOf[chain.SymbolCode](), typeOf[chain.Asset](), typeOf[chain.ExtendedAsset](),
	typeOf[chain.Checksum160](), typeOf[chain.Checksum256](), typeOf[chain.Checksum512](),
	typeOf[chain.Uint64](), typeOf[chain.BlockNum](), typeOf[chain.Uint128](), typeOf[chain.Int128](), typeOf[chain.Float128](),
	typeOf[chain.TimePoint](), typeOf[chain.TimePointSec](), typeOf[chain.BlockTimestamp](),
	typeOf[chain.Bytes](), typeOf[chain.Blob](), typeOf[chain.PublicKey](), typeOf[chain.Signature](),
	typeOf[chain.PermissionLevel](), typeOf[chain.Action](),
	typeOf[chain.TransactionHeader](), typeOf[chain.TransactionExtension](), typeOf[chain.Transaction](),
	typeOf[chain.Abi](), typeOf[chain.AbiType](), typeOf[chain.AbiStruct](), typeOf[chain.AbiField](), typeOf[chain.AbiAction](),
	typeOf[chain.AbiTable](), typeOf[chain.AbiClause](), typeOf[chain.AbiExtension](), typeOf[chain.AbiErrorMessage](), typeOf[chain.AbiVariant](),
}

// user-defined named types of the kinds the reflection codec supports
type (
	myU64   uint64
	myU32   uint32
	myI64   int64
	myI32   int32
	myList  []uint16
	myArr   [3]int8
	myMap   map[string]uint8
	myPtr   struct{ P *uint8 }
	myEmpty struct{}

	inner struct {
		A uint8
		B string
	}
	embedded struct {
		inner2
		C uint16
	}
	inner2    = Embed
	Embed     struct{ X, Y uint8 }
	embedBoth struct {
		Embed
		*EmbedPtr
		Z int
	}
	EmbedPtr struct{ W string }

	node struct {
		V    uint8
		Next *node `eosio:"optional"`
	}
	tree struct {
		V    string
		Kids []tree
	}
	treeM struct {
		Kids map[string]*treeM
	}
	mutA struct {
		B *mutB `eosio:"optional"`
		N int
	}
	mutB struct {
		A []mutA
	}
	expr struct {
		E exprV `eosio:"variant"`
	}
	exprV struct {
		Num *int64
		Neg *expr
		Add *[]expr
	}
	varPtr struct {
		V *exprV `eosio:"variant"`
		T uint8
	}
	ext2 struct {
		A uint8
		B uint16   `eosio:"extension"`
		C []string `eosio:"extension"`
	}
	extPtr struct {
		A string
		E *inner `eosio:"extension"`
	}
	extStruct struct {
		A []uint8
		E inner `eosio:"extension"`
	}
	optMix struct {
		A *uint8           `eosio:"optional"`
		B *string          `eosio:"optional"`
		C *[]uint16        `eosio:"optional"`
		D *map[string]int8 `eosio:"optional"`
		E *chain.Name      `eosio:"optional"`
		F *inner           `eosio:"optional"`
		G chain.Asset      `eosio:"optional"`
		H uint32           `eosio:"optional"`
		I string           `eosio:"optional"`
		J [2]uint8         `eosio:"optional"`
		K []uint16         `eosio:"optional"`
		L map[uint8]bool   `eosio:"optional"`
		M []byte           `eosio:"optional"`
		N [][]string       `eosio:"optional"`
	}
	wide struct {
		A bool
		B uint8
		C uint16
		D uint32
		E uint64
		F int8
		G int16
		H int32
		I int64
		J float32
		K float64
		L int
		M uint
		N string
		O []byte
		P chain.Name
		Q *chain.PublicKey
		R []*chain.Signature
		S [2]*inner
		T map[chain.Name]*chain.Asset
		U **uint16
		V []map[uint8][]string
		W [2][3]uint8
		X struct{ A, B int }
	}
)

var namedTypes = []reflect.Type{
	typeOf[myU64](), typeOf[myU32](), typeOf[myI64](), typeOf[myI32](), typeOf[myList](), typeOf[myArr](), typeOf[myMap](),
	typeOf[myPtr](), typeOf[myEmpty](), typeOf[inner](), typeOf[embedBoth](), typeOf[node](), typeOf[tree](), typeOf[treeM](),
	typeOf[mutA](), typeOf[mutB](), typeOf[expr](), typeOf[varPtr](), typeOf[optMix](), typeOf[wide](),
	typeOf[map[chain.Checksum160]chain.Bytes](), typeOf[map[uint16]map[uint8]string](), typeOf[map[bool][2]bool](),
	typeOf[map[chain.Uint128]int](), typeOf[map[inner]inner](), typeOf[map[[2]uint8]**string](), typeOf[map[float64]float32](),
	typeOf[map[int]uint](), typeOf[map[chain.Asset]chain.ExtendedAsset](), typeOf[map[int32]*int32](),
}

var extTypes = []reflect.Type{typeOf[ext2](), typeOf[extPtr](), typeOf[extStruct]()}

// ---- type constructors

var ctorNames = []string{"[]T", "[2]T", "map[string]T", "map[T]u8", "{T;int}", "{opt *T}", "{*T}", "variant", "[]*T", "{T;ext T}", "**T", "map[u16]*T", "opt T", "[1][]T"}

func field(name string, t reflect.Type, tag string) reflect.StructField {
	f := reflect.StructField{Name: name, Type: t}
	if tag != "" {
		f.Tag = reflect.StructTag(`eosio:"` + tag + `"`)
	}
	return f
}

func construct(k int, t reflect.Type) (reflect.Type, bool) {
	P := reflect.PointerTo
	switch k {
	case 0:
		return reflect.SliceOf(t), true
	case 1:
		return reflect.ArrayOf(2, t), true
	case 2:
		return reflect.MapOf(typeOf[string](), t), true
	case 3:
		if !keyable(t) {
			return nil, false
		}
		return reflect.MapOf(t, typeOf[uint8]()), true
	case 4:
		return reflect.StructOf([]reflect.StructField{field("A", t, ""), field("B", typeOf[int](), "")}), true
	case 5:
		return reflect.StructOf([]reflect.StructField{field("A", P(t), "optional"), field("B", typeOf[uint8](), "")}), true
	case 6:
		return reflect.StructOf([]reflect.StructField{field("A", P(t), "")}), true
	case 7:
		v := reflect.StructOf([]reflect.StructField{field("V0", typeOf[*string](), ""), field("V1", P(t), "")})
		return reflect.StructOf([]reflect.StructField{field("A", v, "variant"), field("B", typeOf[bool](), "")}), true
	case 8:
		return reflect.SliceOf(P(t)), true
	case 9:
		return reflect.StructOf([]reflect.StructField{field("A", t, ""), field("E", t, "extension")}), true
	case 10:
		return P(P(t)), true
	case 11:
		return reflect.MapOf(typeOf[uint16](), P(t)), true
	case 12:
		return reflect.StructOf([]reflect.StructField{field("A", t, "optional"), field("B", t, "")}), true
	case 13:
		return reflect.ArrayOf(1, reflect.SliceOf(t)), true
	}
	return nil, false
}

// keyable: usable as a map key with value equality (no pointers, no floats because of NaN).
func keyable(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Bool, reflect.String, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return true
	case reflect.Array:
		return keyable(t.Elem())
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if !keyable(t.Field(i).Type) {
				return false
			}
		}
		return true
	}
	return false
}

// closure gives all types reachable with exactly d constructor applications.
func closure(base []reflect.Type, d int, ctors []int) []reflect.Type {
	cur := base
	for ; d > 0; d-- {
		var next []reflect.Type
		for _, t := range cur {
			for _, k := range ctors {
				if n, ok := construct(k, t); ok {
					next = append(next, n)
				}
			}
		}
		cur = next
	}
	return cur
}

var allCtors = func() []int {
	var r []int
	for i := range ctorNames {
		r = append(r, i)
	}
	return r
}()

// ---- values

func pat(n int, seed byte) []byte {
	b := make([]byte, n)
	x := uint32(seed)*2654435761 + 12345
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	return b
}

func key(t chain.KeyType, n int) chain.PublicKey {
	d := pat(33, byte(n+1))
	d[0] = 2 + byte(n&1)
	if t == chain.WA {
		d = append(d, 1)
		d = append(d, uvarint(n)...)
		d = append(d, pat(n, 9)...)
	}
	return chain.PublicKey{Type: t, Data: d}
}

func sig(t chain.KeyType, n, m int) chain.Signature {
	d := pat(65, byte(n+m+3))
	if t == chain.WA {
		d = append(d, uvarint(n)...)
		d = append(d, pat(n, 4)...)
		d = append(d, uvarint(m)...)
		d = append(d, pat(m, 5)...)
	}
	return chain.Signature{Type: t, Data: d}
}

func uvarint(n int) []byte {
	var b []byte
	for n >= 128 {
		b = append(b, byte(n&127|128))
		n >>= 7
	}
	return append(b, byte(n))
}

var valMu sync.Mutex
var valCache = map[reflect.Type][]reflect.Value{}

// vals is the value alphabet of a type: small but including the extremes of every leaf and, for
// containers, empty, one and several elements. Values must not be modified.
func vals(t reflect.Type) []reflect.Value {
	valMu.Lock()
	v, ok := valCache[t]
	valMu.Unlock()
	if ok {
		return v
	}
	v = makeVals(t, 0)
	valMu.Lock()
	valCache[t] = v
	valMu.Unlock()
	return v
}

func list(xs ...any) (r []reflect.Value) {
	for _, x := range xs {
		r = append(r, reflect.ValueOf(x))
	}
	return
}

func conv(t reflect.Type, xs ...any) (r []reflect.Value) {
	for _, x := range xs {
		r = append(r, reflect.ValueOf(x).Convert(t))
	}
	return
}

func makeVals(t reflect.Type, depth int) []reflect.Value {
	switch t {
	case typeOf[chain.PublicKey]():
		return list(key(chain.K1, 0), key(chain.P1, 1), key(chain.WA, 0), key(chain.WA, 13))
	case typeOf[chain.Signature]():
		return list(sig(chain.K1, 0, 0), sig(chain.P1, 1, 0), sig(chain.WA, 0, 3), sig(chain.WA, 37, 130))
	case typeOf[node]():
		a := node{V: 7}
		b := node{V: 1, Next: &a}
		return list(a, b, node{V: 2, Next: &b}, node{V: 0xff, Next: &node{V: 9, Next: &b}})
	case typeOf[tree]():
		return list(tree{}, tree{V: "a", Kids: []tree{{V: "b"}, {V: "c", Kids: []tree{{V: "d"}, {}}}}})
	case typeOf[treeM]():
		return list(treeM{}, treeM{map[string]*treeM{"a": {}, "b": {map[string]*treeM{"x": {}}}}})
	case typeOf[mutA]():
		return list(mutA{N: -1}, mutA{B: &mutB{A: []mutA{{N: 3}, {B: &mutB{}, N: math.MaxInt32}}}})
	case typeOf[mutB]():
		return list(mutB{}, mutB{A: []mutA{{N: 1}, {B: &mutB{A: []mutA{{N: 2}}}}}})
	case typeOf[expr]():
		n := int64(-5)
		e1 := expr{exprV{Num: &n}}
		e2 := expr{exprV{Neg: &e1}}
		return list(e1, e2, expr{exprV{Add: &[]expr{}}}, expr{exprV{Add: &[]expr{e1, e2, {exprV{Add: &[]expr{e2}}}}}})
	case typeOf[exprV]():
		n := int64(7)
		e1 := expr{exprV{Num: &n}}
		return list(exprV{Num: &n}, exprV{Neg: &e1}, exprV{Add: &[]expr{e1}})
	}
	switch t.Kind() {
	case reflect.Bool:
		return conv(t, false, true)
	case reflect.Uint8:
		return conv(t, uint8(0), uint8(1), uint8(128), uint8(255))
	case reflect.Uint16:
		return conv(t, uint16(0), uint16(0x0102), uint16(0xfffe))
	case reflect.Uint32:
		return conv(t, uint32(0), uint32(0x01020304), uint32(math.MaxUint32))
	case reflect.Uint64:
		return conv(t, uint64(0), uint64(0x0102030405060708), uint64(math.MaxUint64), uint64(1)<<63)
	case reflect.Int8:
		return conv(t, int8(0), int8(-1), int8(-128), int8(127))
	case reflect.Int16:
		return conv(t, int16(0), int16(-2), int16(math.MinInt16), int16(0x0102))
	case reflect.Int32:
		return conv(t, int32(0), int32(-2), int32(math.MinInt32), int32(0x01020304))
	case reflect.Int64:
		return conv(t, int64(0), int64(-2), int64(math.MinInt64), int64(0x0102030405060708))
	case reflect.Float32:
		return conv(t, float32(0), float32(-1.5), float32(math.Inf(1)), float32(math.SmallestNonzeroFloat32))
	case reflect.Float64:
		return conv(t, 0.0, -1.5, math.Inf(-1), math.MaxFloat64)
	case reflect.Int:
		return conv(t, int(0), int(-1), int(64), int(math.MaxInt32), int(math.MinInt32))
	case reflect.Uint:
		return conv(t, uint(0), uint(127), uint(128), uint(math.MaxUint32))
	case reflect.String:
		return conv(t, "", "a", "h\u00e9\x00\xff", strings.Repeat("x", 130))
	case reflect.Array:
		ev := vals(t.Elem())
		var r []reflect.Value
		for k := 0; k < len(ev); k++ {
			a := reflect.New(t).Elem()
			for i := 0; i < t.Len(); i++ {
				a.Index(i).Set(ev[(k+i)%len(ev)])
			}
			r = append(r, a)
		}
		if t.Len() == 0 {
			r = r[:1]
		}
		return r
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			r := []reflect.Value{reflect.Zero(t)}
			for _, n := range []int{1, 3, 200} {
				b := reflect.New(t).Elem()
				b.SetBytes(pat(n, byte(n)))
				r = append(r, b)
			}
			return r
		}
		ev := vals(t.Elem())
		r := []reflect.Value{reflect.Zero(t)}
		mk := func(idx ...int) {
			s := reflect.MakeSlice(t, 0, len(idx))
			for _, i := range idx {
				s = reflect.Append(s, ev[i%len(ev)])
			}
			r = append(r, s)
		}
		mk(len(ev) - 1)
		mk(1, 0)
		all := []int{}
		for i := range ev {
			all = append(all, i)
		}
		mk(append(all, 0)...)
		if ev[0].Type().Size() <= 8 {
			long := make([]int, 130)
			for i := range long {
				long[i] = i
			}
			if isScalar(t.Elem()) {
				mk(long...)
			}
		}
		return r
	case reflect.Map:
		kv, ev := vals(t.Key()), vals(t.Elem())
		r := []reflect.Value{reflect.Zero(t)}
		mk := func(n int, off int) {
			m := reflect.MakeMap(t)
			for i := 0; i < n; i++ {
				m.SetMapIndex(kv[i%len(kv)], ev[(i+off)%len(ev)])
			}
			r = append(r, m)
		}
		mk(1, 1)
		mk(len(kv), 0)
		if len(ev) > len(kv) {
			mk(len(kv), len(kv))
		}
		return r
	case reflect.Ptr:
		var r []reflect.Value
		for _, e := range vals(t.Elem()) {
			r = append(r, ptrTo(e))
		}
		return r
	case reflect.Struct:
		return structVals(t)
	}
	panic(fmt.Sprintf("no values for %s", t))
}

func isScalar(t reflect.Type) bool { return t.Kind() < reflect.Array || t.Kind() == reflect.String }

func isVariant(t reflect.Type) bool {
	if t.NumField() == 0 {
		return false
	}
	for i := 0; i < t.NumField(); i++ {
		if t.Field(i).Type.Kind() != reflect.Ptr || t.Field(i).Tag.Get("eosio") != "" {
			return false
		}
	}
	return true
}

func variantVals(t reflect.Type) (r []reflect.Value) {
	for i := 0; i < t.NumField(); i++ {
		for _, v := range vals(t.Field(i).Type) {
			s := reflect.New(t).Elem()
			s.Field(i).Set(v)
			r = append(r, s)
		}
	}
	return
}

func fieldVals(f reflect.StructField) []reflect.Value {
	switch f.Tag.Get("eosio") {
	case "optional":
		if f.Type.Kind() == reflect.Ptr {
			return append([]reflect.Value{reflect.Zero(f.Type)}, vals(f.Type)...)
		}
		vs := vals(f.Type)
		switch f.Type.Kind() { // present and empty
		case reflect.Slice:
			vs = append([]reflect.Value{vs[0], reflect.MakeSlice(f.Type, 0, 0)}, vs[1:]...)
		case reflect.Map:
			vs = append([]reflect.Value{vs[0], reflect.MakeMap(f.Type)}, vs[1:]...)
		}
		return vs
	case "variant":
		if f.Type.Kind() == reflect.Ptr {
			var r []reflect.Value
			for _, v := range variantVals(f.Type.Elem()) {
				r = append(r, ptrTo(v))
			}
			return r
		}
		return variantVals(f.Type)
	}
	return vals(f.Type)
}

// structVals varies one field at a time around three base assignments.
func structVals(t reflect.Type) []reflect.Value {
	n := t.NumField()
	if n == 0 {
		return []reflect.Value{reflect.Zero(t)}
	}
	fv := make([][]reflect.Value, n)
	max := 0
	for i := range fv {
		fv[i] = fieldVals(t.Field(i))
		if len(fv[i]) > max {
			max = len(fv[i])
		}
	}
	var r []reflect.Value
	for k := 0; k < max; k++ { // diagonal
		s := reflect.New(t).Elem()
		for i := range fv {
			s.Field(i).Set(fv[i][(k+i)%len(fv[i])])
		}
		r = append(r, s)
	}
	if n > 1 && n <= 3 { // one field at a time
		for i := range fv {
			for k := 1; k < len(fv[i]); k++ {
				s := reflect.New(t).Elem()
				for j := range fv {
					s.Field(j).Set(fv[j][0])
				}
				s.Field(i).Set(fv[i][k])
				r = append(r, s)
			}
		}
	}
	return r
}
