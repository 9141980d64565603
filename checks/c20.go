package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"verif/mcx"
	"verif/ref"

	"github.com/greymass/go-eosio/pkg/chain"
)

func init() {
	register(&Check{
		ID: "C20", Level: "exploration",
		Rule:        "an independent model gives the JSON document of every value: each scalar in its EOSIO text or number form, each chain structure with the EOSIO field names. json.Marshal of the value in every position must give that document, json.Unmarshal of that output and of the model's own rendering (keys reversed, empty lists left out) must give an equal value. Values decoded through an ABI are marshalled as returned. A case is non-trivial if the value is not at top level.",
		Bounds:      "positions: all compositions of two (quick) or three (thorough) of 16 positions (value, pointer, pointer to pointer, tagged and untagged struct field by value and by pointer, slice, slice of pointers, array, map value, map value pointer, map key, interface holding value or pointer, generic list, generic map) over every scalar and structure type of the chain package with 4 to 40 values each; all structures with every combination of field values up to pairs; range of every scalar: every month and 60000 (quick) / 2 million (thorough) steps of each time type, powers of two and ten and their neighbours of every integer type under every precision, every symbol precision and code length, every character of a name at every position, bytes of every length to 1030, every byte value in checksums, also read into destinations in use; ABI-driven: every builtin and named type under two suffixes; 768 whole documents with their binary form written down by hand.",
		Assumptions: []string{"values within the text range of their type; strings of valid UTF-8 except inside generic maps; nil and empty lists are the same"},
		Run:         runC20,
	})
}

// ---- the model

type jField struct {
	goName, name string
	list         bool // may be left out when empty
}

var jStruct = map[reflect.Type][]jField{
	typeOf[chain.PermissionLevel]():      {{"Actor", "actor", false}, {"Permission", "permission", false}},
	typeOf[chain.ExtendedAsset]():        {{"Quantity", "quantity", false}, {"Contract", "contract", false}},
	typeOf[chain.Action]():               {{"Account", "account", false}, {"Name", "name", false}, {"Authorization", "authorization", false}, {"Data", "data", false}},
	typeOf[chain.TransactionHeader]():    {{"Expiration", "expiration", false}, {"RefBlockNum", "ref_block_num", false}, {"RefBlockPrefix", "ref_block_prefix", false}, {"MaxNetUsageWords", "max_net_usage_words", false}, {"MaxCpuUsageMs", "max_cpu_usage_ms", false}, {"DelaySec", "delay_sec", false}},
	typeOf[chain.TransactionExtension](): {{"Type", "type", false}, {"Data", "data", false}},
	typeOf[chain.Transaction]():          {{"TransactionHeader", "", false}, {"ContextFreeActions", "context_free_actions", false}, {"Actions", "actions", false}, {"Extensions", "transaction_extensions", false}},
	typeOf[chain.Abi]():                  {{"Version", "version", false}, {"Types", "types", false}, {"Structs", "structs", false}, {"Actions", "actions", false}, {"Tables", "tables", false}, {"RicardianClauses", "ricardian_clauses", false}, {"ErrorMessages", "error_messages", true}, {"Extensions", "abi_extensions", true}, {"Variants", "variants", true}},
	typeOf[chain.AbiType]():              {{"NewTypeName", "new_type_name", false}, {"Type", "type", false}},
	typeOf[chain.AbiVariant]():           {{"Name", "name", false}, {"Types", "types", false}},
	typeOf[chain.AbiStruct]():            {{"Name", "name", false}, {"Base", "base", false}, {"Fields", "fields", false}},
	typeOf[chain.AbiField]():             {{"Name", "name", false}, {"Type", "type", false}},
	typeOf[chain.AbiAction]():            {{"Name", "name", false}, {"Type", "type", false}, {"RicardianContract", "ricardian_contract", false}},
	typeOf[chain.AbiTable]():             {{"Name", "name", false}, {"IndexType", "index_type", false}, {"KeyNames", "key_names", false}, {"KeyTypes", "key_types", false}, {"Type", "type", false}},
	typeOf[chain.AbiClause]():            {{"Id", "id", false}, {"Body", "body", false}},
	typeOf[chain.AbiExtension]():         {{"Type", "type", false}, {"Data", "data", false}},
	typeOf[chain.AbiErrorMessage]():      {{"Code", "error_code", false}, {"Message", "error_msg", false}},
}

// emptyList stands for null or []; with omit it may also be left out as an object member.
type emptyList struct{ omit bool }

// jScalar gives the text of a chain scalar and whether it is a string.
func jScalar(v reflect.Value) (s string, quoted, ok bool) {
	num := func(x uint64) (string, bool, bool) { return strconv.FormatUint(x, 10), x > 0xffffffff, true }
	switch x := v.Interface().(type) {
	case chain.Name:
		return refNameText(uint64(x)), true, true
	case chain.Symbol:
		return fmt.Sprintf("%d,%s", byte(x), codeOf(uint64(x)>>8)), true, true
	case chain.SymbolCode:
		return codeOf(uint64(x)), true, true
	case chain.Asset:
		return refAssetText(x.Value, int(byte(x.Symbol)), codeOf(uint64(x.Symbol)>>8)), true, true
	case chain.Checksum160, chain.Checksum256, chain.Checksum512, chain.Float128, chain.Bytes:
		return fmt.Sprintf("%x", rawBytes(v)), true, true
	case chain.Blob:
		return ref64Text(x, true), true, true
	case chain.Uint64:
		return num(uint64(x))
	case chain.BlockNum:
		return num(uint64(x))
	case chain.Uint128, chain.Int128:
		b, err := ref.Enc(v)
		if err != nil {
			panic(err)
		}
		for i, j := 0, 15; i < j; i, j = i+1, j-1 {
			b[i], b[j] = b[j], b[i]
		}
		n := new(big.Int).SetBytes(b)
		if _, neg := x.(chain.Int128); neg && b[0] >= 128 {
			n.Sub(n, new(big.Int).Lsh(big.NewInt(1), 128))
		}
		return n.String(), true, true
	case chain.TimePoint:
		return isoText(int64(x)/1000, true), true, true
	case chain.TimePointSec:
		return isoText(int64(x)*1000, false), true, true
	case chain.BlockTimestamp:
		return isoText(int64(x)*500+946684800000, true), true, true
	case chain.PublicKey:
		return "PUB_" + kt(x.Type) + "_" + ref.KeyText("", kt(x.Type), x.Data), true, true
	case chain.Signature:
		return "SIG_" + kt(x.Type) + "_" + ref.KeyText("", kt(x.Type), x.Data), true, true
	}
	return "", false, false
}

func kt(t chain.KeyType) string {
	switch t {
	case chain.K1:
		return "K1"
	case chain.P1:
		return "P1"
	}
	return "WA"
}

func codeOf(x uint64) string {
	s := ""
	for ; x > 0; x >>= 8 {
		s += string(rune(byte(x)))
	}
	return s
}

// jTree is the document of a value: nil, bool, string, json.Number, []any, map[string]any or emptyList.
func jTree(v reflect.Value) any {
	if !v.IsValid() {
		return nil
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return nil
		}
		return jTree(v.Elem())
	}
	if s, q, ok := jScalar(v); ok {
		if q {
			return s
		}
		return json.Number(s)
	}
	switch v.Kind() {
	case reflect.Bool:
		return v.Bool()
	case reflect.String:
		return string([]rune(v.String()))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return json.Number(strconv.FormatInt(v.Int(), 10))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return json.Number(strconv.FormatUint(v.Uint(), 10))
	case reflect.Float32:
		return json.Number(strconv.FormatFloat(v.Float(), 'g', -1, 32))
	case reflect.Float64:
		return json.Number(strconv.FormatFloat(v.Float(), 'g', -1, 64))
	case reflect.Slice, reflect.Array:
		if v.Len() == 0 {
			return emptyList{}
		}
		out := []any{}
		for i := 0; i < v.Len(); i++ {
			out = append(out, jTree(v.Index(i)))
		}
		return out
	case reflect.Map:
		out := map[string]any{}
		for it := v.MapRange(); it.Next(); {
			var k string
			switch t := jTree(it.Key()).(type) {
			case string:
				k = t
			case json.Number:
				k = string(t)
			}
			out[k] = jTree(it.Value())
		}
		return out
	case reflect.Struct:
		out := map[string]any{}
		if fs, ok := jStruct[v.Type()]; ok {
			for _, f := range fs {
				x := jTree(v.FieldByName(f.goName))
				if f.name == "" {
					for k, e := range x.(map[string]any) {
						out[k] = e
					}
				} else {
					if _, e := x.(emptyList); e {
						x = emptyList{f.list}
					}
					out[f.name] = x
				}
			}
			return out
		}
		for i := 0; i < v.NumField(); i++ { // of the harness
			f := v.Type().Field(i)
			n := f.Tag.Get("json")
			if n == "" {
				n = f.Name
			}
			out[n] = jTree(v.Field(i))
		}
		return out
	}
	panic("no JSON model for " + v.Type().String())
}

// jSame compares a parsed document with the model.
func jSame(got, want any) bool {
	switch x := want.(type) {
	case emptyList:
		l, ok := got.([]any)
		return got == nil || ok && len(l) == 0
	case nil:
		return got == nil
	case []any:
		l, ok := got.([]any)
		if !ok || len(l) != len(x) {
			return false
		}
		for i := range x {
			if !jSame(l[i], x[i]) {
				return false
			}
		}
		return true
	case map[string]any:
		if len(x) == 0 && got == nil {
			return true
		}
		m, ok := got.(map[string]any)
		if !ok {
			return false
		}
		for k := range m {
			if _, ok := x[k]; !ok {
				return false
			}
		}
		for k, e := range x {
			g, ok := m[k]
			if l, empty := e.(emptyList); !ok && !(empty && l.omit) {
				return false
			}
			if !jSame(g, e) {
				return false
			}
		}
		return true
	case json.Number:
		g, ok := got.(json.Number)
		if !ok {
			return false
		}
		if g == x {
			return true
		}
		if !strings.ContainsAny(string(g)+string(x), ".eE") {
			return false
		}
		a, e1 := strconv.ParseFloat(string(g), 64)
		b, e2 := strconv.ParseFloat(string(x), 64)
		return e1 == nil && e2 == nil && a == b
	}
	return got == want
}

// jText renders the model in the given style: 0 plain, 1 keys reversed and empty lists left out.
func jText(b []byte, t any, style int) []byte {
	switch x := t.(type) {
	case emptyList:
		return append(b, "[]"...)
	case nil:
		return append(b, "null"...)
	case bool:
		return strconv.AppendBool(b, x)
	case json.Number:
		return append(b, x...)
	case string:
		if style == 1 {
			b = append(b, '"')
			for _, r := range x {
				if r < 0x10000 && !(r >= '0' && r <= '9') {
					b = append(b, fmt.Sprintf("\\u%04x", r)...)
				} else {
					b = append(b, string(r)...)
				}
			}
			return append(b, '"')
		}
		q, _ := json.Marshal(x)
		return append(b, q...)
	case []any:
		b = append(b, '[')
		for i, e := range x {
			if i > 0 {
				b = append(b, ',')
			}
			b = jText(b, e, style)
		}
		return append(b, ']')
	case map[string]any:
		var ks []string
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		if style == 1 {
			sort.Sort(sort.Reverse(sort.StringSlice(ks)))
			b = append(b, ' ')
		}
		b = append(b, '{')
		n := 0
		for _, k := range ks {
			if _, empty := x[k].(emptyList); empty && style == 1 {
				continue
			}
			if n > 0 {
				b = append(b, ',')
			}
			n++
			b = append(jText(b, k, 0), ':')
			b = jText(b, x[k], style)
		}
		return append(b, '}')
	}
	panic("jText")
}

func jParse(b []byte) (any, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var v any
	err := d.Decode(&v)
	return v, err
}

// jsonOut checks the document of a value.
func jsonOut(w *mcx.W, v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		w.Fail("json.Marshal of %s: %v", show(reflect.ValueOf(v)), err)
	}
	got, err := jParse(b)
	if err != nil {
		w.Fail("json.Marshal of %s gives %s: %v", show(reflect.ValueOf(v)), b, err)
	}
	if want := jTree(reflect.ValueOf(v)); !jSame(got, want) {
		w.Fail("json.Marshal of %s gives %s, EOSIO form is %s", show(reflect.ValueOf(v)), clip(string(b)), clip(string(jText(nil, want, 0))))
	}
	w.Outcome(mcx.Hash(b))
	return b
}

func jsonRound(w *mcx.W, v reflect.Value) {
	b := jsonOut(w, v.Interface())
	p := ptrTo(v)
	b2 := jsonOut(w, p.Interface())
	tree := jTree(v)
	for _, text := range [][]byte{b, b2, jText(nil, tree, 0), jText(nil, tree, 1)} {
		d := reflect.New(v.Type())
		if err := json.Unmarshal(text, d.Interface()); err != nil {
			w.Fail("json.Unmarshal of %s into %s: %v", clip(string(text)), v.Type(), err)
		}
		if !ref.Eq(d.Elem(), v) {
			w.Fail("json.Unmarshal of %s gives %s, was %s", clip(string(text)), show(d.Elem()), show(v))
		}
		w.Eval(1)
	}
	w.Sample(func() string { return fmt.Sprintf("%s <-> %s", v.Type(), b) })
}

// ---- values

func jVals(t reflect.Type, thorough bool) []reflect.Value {
	u64 := func(xs ...uint64) (r []reflect.Value) {
		for _, x := range xs {
			r = append(r, reflect.ValueOf(x).Convert(t))
		}
		return
	}
	names := func(ss ...string) (r []uint64) {
		for _, s := range ss {
			r = append(r, refNameValue(s))
		}
		return
	}
	switch t {
	case typeOf[chain.Name]():
		return u64(append(names("", "a", "eosio", "eosio.token", ".a", "1.2.3.4.5", "zzzzzzzzzzzzj", "abcdefghijk5"), 1, math.MaxUint64, 0x8000000000000000, 16)...)
	case typeOf[chain.Symbol]():
		return list(mkSymbol(0, "A"), mkSymbol(4, "EOS"), mkSymbol(18, "ABCDEFG"), mkSymbol(9, "ZZZZZZZ"))
	case typeOf[chain.SymbolCode]():
		return list(chain.SymbolCode(mkSymbol(0, "A")>>8), chain.SymbolCode(mkSymbol(0, "EOS")>>8), chain.SymbolCode(mkSymbol(0, "ZYXWVUT")>>8))
	case typeOf[chain.Asset]():
		var r []reflect.Value
		for _, v := range []int64{0, 1, -1, 9, -10, 12345678, math.MaxInt64, math.MinInt64} {
			for _, s := range []chain.Symbol{mkSymbol(0, "A"), mkSymbol(4, "EOS"), mkSymbol(18, "ABCDEFG")} {
				r = append(r, reflect.ValueOf(chain.Asset{Value: v, Symbol: s}))
			}
		}
		return r
	case typeOf[chain.Uint64]():
		return u64(0, 1, 9, 1<<31, 1<<32-1, 1<<32, 1<<32+1, 1<<53, 1<<53+1, 1<<63-1, 1<<63, math.MaxUint64)
	case typeOf[chain.BlockNum]():
		return u64(0, 1, 1<<31, 1<<32-1)
	case typeOf[chain.TimePoint]():
		return u64(0, 1000, 999000, 1e6, 946684800000000, 951868799999000, 4107542399999000, 253402300799999000)
	case typeOf[chain.TimePointSec]():
		return u64(0, 1, 59, 951782400, 951868799, 1<<31-1, 1<<31, 1<<32-1)
	case typeOf[chain.BlockTimestamp]():
		return u64(0, 1, 2, 119, 10281599, 1<<31-1, 1<<31, 1<<32-1)
	case typeOf[chain.PublicKey]():
		var r []reflect.Value
		for i := 0; i < 4; i++ {
			r = append(r, list(key(chain.K1, i), key(chain.P1, i), key(chain.WA, i*47))...)
		}
		return r
	case typeOf[chain.Signature]():
		var r []reflect.Value
		for i := 0; i < 4; i++ {
			r = append(r, list(sig(chain.K1, i, 0), sig(chain.P1, 0, i), sig(chain.WA, i*47, 130-i))...)
		}
		return r
	case typeOf[chain.Bytes](), typeOf[chain.Blob]():
		var r []reflect.Value
		for _, n := range []int{0, 1, 2, 3, 4, 31, 200} {
			r = append(r, reflect.ValueOf(pat(n, byte(n))).Convert(t), reflect.ValueOf(bytes.Repeat([]byte{0xfb}, n)).Convert(t))
		}
		return r
	case typeOf[chain.Uint128](), typeOf[chain.Int128]():
		var r []reflect.Value
		for _, hi := range []uint64{0, 1, 1<<63 - 1, 1 << 63, math.MaxUint64} {
			for _, lo := range []uint64{0, 1, 1 << 63, math.MaxUint64} {
				v, _, err := ref.Dec(t, append(ref.LE(lo, 8), ref.LE(hi, 8)...))
				if err != nil {
					panic(err)
				}
				r = append(r, v)
			}
		}
		return r
	case typeOf[string]():
		return list("", "a", "h\u00e9<&>\"\\\u2028\n\x00\U0001F600", strings.Repeat("x", 130))
	}
	if _, ok := jStruct[t]; ok {
		return jStructVals(t, thorough)
	}
	switch t.Kind() {
	case reflect.Slice:
		ev := jVals(t.Elem(), thorough)
		r := []reflect.Value{reflect.Zero(t)}
		mk := func(n, off int) {
			s := reflect.MakeSlice(t, 0, n)
			for i := 0; i < n; i++ {
				s = reflect.Append(s, ev[(i+off)%len(ev)])
			}
			r = append(r, s)
		}
		mk(1, 1)
		mk(3, 0)
		return r
	case reflect.Ptr:
		var r []reflect.Value
		for _, v := range jVals(t.Elem(), thorough) {
			r = append(r, ptrTo(v))
		}
		return r
	}
	return vals(t)
}

// jStructVals: the diagonal, every value of one field, and (thorough) every pair of field values.
func jStructVals(t reflect.Type, thorough bool) []reflect.Value {
	n := t.NumField()
	fv := make([][]reflect.Value, n)
	max := 0
	for i := range fv {
		fv[i] = jVals(t.Field(i).Type, false)
		if len(fv[i]) > max {
			max = len(fv[i])
		}
	}
	var r []reflect.Value
	for k := 0; k < max; k++ {
		s := reflect.New(t).Elem()
		for i := range fv {
			s.Field(i).Set(fv[i][(k+i)%len(fv[i])])
		}
		r = append(r, s)
	}
	for i := range fv {
		for k := range fv[i] {
			s := reflect.New(t).Elem()
			for j := range fv {
				s.Field(j).Set(fv[j][1%len(fv[j])])
			}
			s.Field(i).Set(fv[i][k])
			r = append(r, s)
			if !thorough {
				continue
			}
			for j := 0; j < i; j++ {
				for l := range fv[j] {
					c := ref.Clone(s)
					c.Field(j).Set(fv[j][l])
					r = append(r, c)
				}
			}
		}
	}
	return r
}

// ---- positions

var jPosNames = []string{"value", "*", "**", "field", "*field", "tagged", "[]", "[]*", "[2]", "map value", "map *value", "map key", "any", "any*", "[]any", "map any"}

// jPos puts a value in a position; round says whether the type can be read back.
func jPos(k int, v reflect.Value) (out reflect.Value, round, ok bool) {
	t := v.Type()
	p := func() reflect.Value { return ptrTo(v) }
	st := func(f ...reflect.StructField) reflect.Value { return reflect.New(reflect.StructOf(f)).Elem() }
	anyT := typeOf[any]()
	switch k {
	case 0:
		return v, true, true
	case 1:
		return p(), true, true
	case 2:
		return ptrTo(p()), true, true
	case 3:
		s := st(reflect.StructField{Name: "A", Type: t}, reflect.StructField{Name: "B", Type: typeOf[int]()})
		s.Field(0).Set(v)
		return s, true, true
	case 4:
		s := st(reflect.StructField{Name: "A", Type: typeOf[string]()}, reflect.StructField{Name: "B", Type: reflect.PointerTo(t)}, reflect.StructField{Name: "C", Type: reflect.PointerTo(t)})
		s.Field(1).Set(p())
		return s, true, true
	case 5:
		s := st(reflect.StructField{Name: "A", Type: t, Tag: `json:"some_name"`}, reflect.StructField{Name: "B", Type: t, Tag: `json:"a"`})
		s.Field(0).Set(v)
		s.Field(1).Set(v)
		return s, true, true
	case 6, 7:
		e := v
		if k == 7 {
			e = p()
		}
		s := reflect.MakeSlice(reflect.SliceOf(e.Type()), 0, 2)
		return reflect.Append(s, e, e), true, e.Kind() != reflect.Uint8
	case 8:
		a := reflect.New(reflect.ArrayOf(2, t)).Elem()
		a.Index(0).Set(v)
		a.Index(1).Set(v)
		return a, true, true
	case 9, 10:
		e := v
		if k == 10 {
			e = p()
		}
		m := reflect.MakeMap(reflect.MapOf(typeOf[string](), e.Type()))
		m.SetMapIndex(reflect.ValueOf("k1"), e)
		m.SetMapIndex(reflect.ValueOf(""), e)
		return m, true, true
	case 11: // only scalars in text form can be keys
		s, q, ok := jScalar(v)
		if _, txt := v.Interface().(interface{ MarshalText() ([]byte, error) }); !ok || !q || s == "" || !txt || !t.Comparable() {
			return out, false, false
		}
		m := reflect.MakeMap(reflect.MapOf(t, typeOf[uint8]()))
		m.SetMapIndex(v, reflect.ValueOf(uint8(7)))
		return m, true, true
	case 12, 13:
		e := v
		if k == 13 {
			e = p()
		}
		s := st(reflect.StructField{Name: "A", Type: anyT})
		s.Field(0).Set(e)
		return s, false, true
	case 14:
		return reflect.ValueOf([]any{v.Interface(), nil, p().Interface()}), false, true
	case 15:
		return reflect.ValueOf(map[string]any{"x": v.Interface(), "y": p().Interface()}), false, true
	}
	return out, false, false
}

// jsonable: representable in JSON (no infinities).
func jsonable(v any) bool {
	switch x := v.(type) {
	case float32:
		return !math.IsInf(float64(x), 0) && x == x
	case float64:
		return !math.IsInf(x, 0) && x == x
	case []any:
		for _, e := range x {
			if !jsonable(e) {
				return false
			}
		}
	case map[string]any:
		for _, e := range x {
			if !jsonable(e) {
				return false
			}
		}
	}
	return true
}

// jsonFit: within the text range of its type.
func jsonFit(v any) bool {
	switch x := v.(type) {
	case chain.Symbol:
		c := codeOf(uint64(x) >> 8)
		return byte(x) <= 18 && c != "" && capitals(c)
	case chain.SymbolCode:
		return codeOf(uint64(x)) != "" && capitals(codeOf(uint64(x)))
	case chain.Asset:
		return jsonFit(x.Symbol)
	case chain.ExtendedAsset:
		return jsonFit(x.Quantity)
	case chain.TimePoint:
		return int64(x) >= 0 && x < 253402300800000000 && x%1000 == 0
	case string:
		return utf8.ValidString(x)
	case []any:
		for _, e := range x {
			if !jsonFit(e) {
				return false
			}
		}
	case map[string]any:
		for _, e := range x {
			if !jsonFit(e) {
				return false
			}
		}
	}
	return true
}

// jUsed reads a document into a destination that already holds another value.
func jUsed(w *mcx.W, v reflect.Value) {
	text := jText(nil, jTree(v), 0)
	for _, p := range priors(v.Type()) {
		d := reflect.New(v.Type())
		d.Elem().Set(ref.Clone(p))
		if err := json.Unmarshal(text, d.Interface()); err != nil || !ref.Eq(d.Elem(), v) {
			w.Fail("json.Unmarshal of %s into a %s holding %s gives %s, %v", clip(string(text)), v.Type(), show(p), show(d.Elem()), err)
		}
		w.Eval(1)
	}
}

// jRanges goes through the range of every scalar type.
func jRanges(r *mcx.Run) {
	var vs []reflect.Value
	add := func(x any) { vs = append(vs, reflect.ValueOf(x)) }
	// times: every month of the range of each type, and an even stride through it
	for m := int64(0); m < 12*(10000-1970); m++ {
		y := 1970 + m/12
		d := daysTo(y, int(m%12)+1)
		for _, sec := range []int64{d * 86400, d*86400 + 86399, (d+27)*86400 + 43200} {
			if sec < 1<<32 {
				add(chain.TimePointSec(sec))
			}
			if bt := (sec - 946684800) * 2; bt >= 0 && bt < 1<<32 {
				add(chain.BlockTimestamp(bt))
				add(chain.BlockTimestamp(bt + 1))
			}
			if m%12 < 3 || y < 2110 || r.Thorough {
				add(chain.TimePoint(sec * 1000000))
				add(chain.TimePoint(sec*1000000 + 1000*(1+sec%999)))
			}
		}
	}
	n := uint64(mcx.Pick(r, 60000, 2000000))
	for i := uint64(0); i < n; i++ {
		add(chain.TimePointSec(i * (1 << 32 / n)))
		add(chain.BlockTimestamp(i * (1 << 32 / n)))
	}
	// integers: every power of two and of ten, and their neighbours
	one := big.NewInt(1)
	mask := new(big.Int).Sub(new(big.Int).Lsh(one, 64), one)
	b128 := func(x *big.Int) {
		if x.Sign() < 0 || x.BitLen() > 128 {
			return
		}
		lo, hi := new(big.Int).And(x, mask).Uint64(), new(big.Int).Rsh(x, 64).Uint64()
		u := chain.Uint128{Lo: lo, Hi: hi}
		add(u)
		b := append(ref.LE(lo, 8), ref.LE(hi, 8)...)
		i, _, err := ref.Dec(typeOf[chain.Int128](), b)
		if err != nil {
			panic(err)
		}
		vs = append(vs, i)
		for k := range b { // its negation
			b[k] = ^b[k]
		}
		i, _, _ = ref.Dec(typeOf[chain.Int128](), b)
		vs = append(vs, i)
		if hi == 0 {
			add(chain.Uint64(lo))
			if lo < 1<<32 {
				add(chain.BlockNum(lo))
			}
			add(chain.Name(lo))
			for p := 0; p <= 18; p++ {
				s := mkSymbol(p, "ABCDEFG"[:p%7+1])
				add(chain.Asset{Value: int64(lo), Symbol: s})
				add(chain.Asset{Value: -int64(lo), Symbol: s})
				add(chain.ExtendedAsset{Quantity: chain.Asset{Value: int64(lo), Symbol: s}, Contract: chain.Name(lo)})
			}
		}
	}
	for _, base := range []int64{2, 10} {
		for x, k := big.NewInt(1), 0; x.BitLen() <= 129; x, k = new(big.Int).Mul(x, big.NewInt(base)), k+1 {
			for d := int64(-2); d <= 2; d++ {
				b128(new(big.Int).Add(x, big.NewInt(d)))
			}
			b128(new(big.Int).Mul(x, big.NewInt(3)))
			b128(new(big.Int).Mul(x, big.NewInt(7)))
		}
	}
	for p := 0; p <= 18; p++ {
		for n := 1; n <= 7; n++ {
			for c := 0; c < 26; c++ {
				code := strings.Repeat("M", n-1-c%n) + string(rune('A'+c)) + strings.Repeat("Z", c%n)
				add(mkSymbol(p, code))
				if p == 0 {
					add(chain.SymbolCode(mkSymbol(0, code) >> 8))
				}
			}
		}
	}
	// names: every character at every position
	for pos := 0; pos < 13; pos++ {
		for _, c := range ".12345abcdefghijklmnopqrstuvwxyz" {
			if pos == 12 && c > 'j' {
				continue
			}
			s := []byte("eosio.token1b"[:pos+1])
			s[pos] = byte(c)
			add(chain.Name(refNameValue(string(s))))
		}
	}
	// bytes: every length, every byte at every position of the fixed ones
	for n := 0; n <= 1030; n++ {
		for _, b := range [][]byte{pat(n, byte(n)), bytes.Repeat([]byte{0}, n), bytes.Repeat([]byte{0xff}, n)} {
			add(chain.Bytes(b))
			add(chain.Blob(b))
		}
	}
	for x := 0; x < 256; x++ {
		for pos := 0; pos < 64; pos++ {
			b := pat(64, 3)
			b[pos] = byte(x)
			for _, t := range []reflect.Type{typeOf[chain.Checksum160](), typeOf[chain.Checksum256](), typeOf[chain.Checksum512](), typeOf[chain.Float128]()} {
				if l := int(t.Size()); pos < l && (r.Thorough || pos%16 < 2 || pos > l-3) {
					v, _, err := ref.Dec(t, b[:l])
					if err != nil {
						panic(err)
					}
					vs = append(vs, v)
				}
			}
		}
		add(chain.Bytes{byte(x)})
		add(chain.Blob{byte(x), byte(x >> 4), byte(x << 4)})
	}
	for i := 0; i < 130; i++ {
		add(key(chain.K1, i))
		add(key(chain.P1, i))
		add(key(chain.WA, i))
		add(sig(chain.K1, i%50, i))
		add(sig(chain.P1, i%50, i))
		add(sig(chain.WA, i, i*3%131))
	}
	r.Sweep("range of every scalar", uint64(len(vs)), func(w *mcx.W, i uint64) {
		jsonRound(w, vs[i])
		if i%16 == 0 || vs[i].Kind() == reflect.Slice {
			jUsed(w, vs[i])
		}
	})
}

// daysTo is the number of days from 1970-01-01 to the first of a month.
func daysTo(y int64, m int) int64 {
	y0 := y - 1
	d := y*365 + y0/4 - y0/100 + y0/400 - (1970*365 + 1969/4 - 1969/100 + 1969/400)
	for k := 1; k < m; k++ {
		d += int64([]int{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}[k-1])
		if k == 2 && (y%4 == 0 && y%100 != 0 || y%400 == 0) {
			d++
		}
	}
	return d
}

// jDocuments reads and writes whole documents as nodeos shows them; the binary form is written down here, so
// that the forms of the fields do not depend on their Go types.
func jDocuments(r *mcx.Run) {
	le := func(v uint64, n int) (b []byte) {
		for ; n > 0; n-- {
			b = append(b, byte(v))
			v >>= 8
		}
		return
	}
	vu := func(v uint64) (b []byte) {
		for ; v >= 128; v >>= 7 {
			b = append(b, byte(v)|128)
		}
		return append(b, byte(v))
	}
	str := func(s string) []byte { return append(vu(uint64(len(s))), s...) }
	cat := func(bs ...[]byte) []byte { return bytes.Join(bs, nil) }
	check := func(w *mcx.W, doc string, bin []byte, v any) {
		if err := json.Unmarshal([]byte(doc), v); err != nil {
			w.Fail("%T: cannot read %s: %v", v, doc, err)
		}
		if got, err := codecs[0].encode(v); err != nil || !bytes.Equal(got, bin) {
			w.Fail("%T: %s has the binary form %x, want %x (%v)", v, doc, got, bin, err)
		}
		n := reflect.New(reflect.TypeOf(v).Elem())
		if err := chain.NewDecoder(bytes.NewReader(bin)).Decode(n.Interface()); err != nil {
			w.Fail("%T: cannot decode %x: %v", v, bin, err)
		}
		for _, x := range []any{v, n.Interface(), n.Elem().Interface()} {
			got, err := json.Marshal(x)
			if err != nil {
				w.Fail("%T: cannot marshal %x: %v", x, bin, err)
			}
			g, err := jParse(got)
			d, _ := jParse([]byte(doc))
			if err != nil || !reflect.DeepEqual(g, d) {
				w.Fail("%T: %x is shown as %s, want %s", x, bin, got, doc)
			}
		}
		w.NonTrivial()
	}
	r.Sweep("whole documents", 256*3, func(w *mcx.W, j uint64) {
		i := j / 3
		nm := refNameText(i * 0x0123456789abcdef)
		name := le(refNameValue(nm), 8)
		switch j % 3 {
		case 0:
			act := func(x uint64) (string, []byte) {
				return fmt.Sprintf(`{"account":"eosio.token","name":"%s","authorization":[{"actor":"%s","permission":"active"}],"data":"%02x%02x"}`, nm, nm, byte(x), byte(x+7)),
					cat(le(refNameValue("eosio.token"), 8), name, []byte{1}, name, le(refNameValue("active"), 8), []byte{2, byte(x), byte(x + 7)})
			}
			d1, b1 := act(i)
			d2, b2 := act(i + 1)
			d3, b3 := act(i + 2)
			doc := fmt.Sprintf(`{"expiration":"2018-06-15T%02d:%02d:%02d","ref_block_num":%d,"ref_block_prefix":%d,"max_net_usage_words":%d,"max_cpu_usage_ms":%d,"delay_sec":%d,"context_free_actions":[%s],"actions":[%s,%s],"transaction_extensions":[{"type":%d,"data":"%02xff"}]}`,
				i%24, i%60, i%59, i*257, i*16843009, i*3, i, i*1000, d1, d2, d3, i*256, i)
			bin := cat(le(1529020800+i%24*3600+i%60*60+i%59, 4), le(i*257, 2), le(i*16843009, 4), vu(i*3), []byte{byte(i)}, vu(i*1000), []byte{1}, b1, []byte{2}, b2, b3, []byte{1}, le(i*256, 2), []byte{2, byte(i), 255})
			check(w, doc, bin, new(chain.Transaction))
		case 1:
			code := strconv.FormatUint(i*i*i*i*i, 10)
			if i*i*i*i*i > 0xffffffff {
				code = `"` + code + `"`
			}
			doc := fmt.Sprintf(`{"version":"eosio::abi/1.%d","types":[{"new_type_name":"a%d","type":"name"}],"structs":[{"name":"s%d","base":"b","fields":[{"name":"f%d","type":"t"}]}],"actions":[{"name":"%s","type":"s%d","ricardian_contract":""}],"tables":[{"name":"%s","index_type":"i64","key_names":["k"],"key_types":["u%d"],"type":"row"}],"ricardian_clauses":[{"id":"c%d","body":""}],"error_messages":[{"error_code":%s,"error_msg":"m%d"}],"abi_extensions":[{"type":%d,"data":"0a%02x"}],"variants":[{"name":"v%d","types":["x","y%d"]}]}`,
				i, i, i, i, nm, i, nm, i, i, code, i, i*257, i, i, i)
			n := func(p string) []byte { return str(p + fmt.Sprint(i)) }
			bin := cat(n("eosio::abi/1."), []byte{1}, n("a"), str("name"), []byte{1}, n("s"), str("b"), []byte{1}, n("f"), str("t"), []byte{1}, name, n("s"), str(""), []byte{1}, name, str("i64"), []byte{1}, str("k"), []byte{1}, n("u"), str("row"),
				[]byte{1}, n("c"), str(""), []byte{1}, le(i*i*i*i*i, 8), n("m"), []byte{1}, le(i*257, 2), []byte{2, 10, byte(i)}, []byte{1}, n("v"), []byte{2}, str("x"), n("y"))
			check(w, doc, bin, new(chain.Abi))
		case 2:
			doc := fmt.Sprintf(`{"quantity":"%d.%04d EOS","contract":"%s"}`, i*3, i*39, nm)
			bin := cat(le(i*30000+i*39, 8), []byte{4, 'E', 'O', 'S', 0, 0, 0, 0}, name)
			check(w, doc, bin, new(chain.ExtendedAsset))
		}
	})
}

func runC20(r *mcx.Run) {
	var base []reflect.Value
	var types []reflect.Type
	types = append(types, textTypes...)
	for _, t := range chainLeaves {
		if _, ok := jStruct[t]; ok {
			types = append(types, t)
		}
	}
	all := map[reflect.Type][]reflect.Value{}
	for _, t := range types {
		all[t] = jVals(t, r.Thorough)
		for _, v := range all[t] {
			base = append(base, v)
		}
	}
	r.Note("base values", len(base))
	r.Sweep("every value", uint64(len(base)), func(w *mcx.W, i uint64) { jsonRound(w, base[i]) })
	jRanges(r)
	np := len(jPosNames)
	depth := mcx.Pick(r, 2, 3)
	combos := 1
	for i := 0; i < depth; i++ {
		combos *= np
	}
	// fewer values of the structures in deep positions
	var pv []reflect.Value
	for _, t := range types {
		vs := all[t]
		if _, ok := jStruct[t]; ok && len(vs) > 8 {
			vs = append(append([]reflect.Value{}, vs[:4]...), vs[len(vs)-4:]...)
		} else if r.Thorough && len(vs) > 12 {
			vs = append(append([]reflect.Value{}, vs[:6]...), vs[len(vs)-6:]...)
		}
		pv = append(pv, vs...)
	}
	r.Sweep("every value in every position", uint64(len(pv)*combos), func(w *mcx.W, i uint64) {
		v := pv[i%uint64(len(pv))]
		c := int(i / uint64(len(pv)))
		round := true
		for d := 0; d < depth; d++ {
			x, rd, ok := jPos(c%np, v)
			c /= np
			if !ok {
				return
			}
			v, round = x, round && rd
		}
		w.NonTrivial()
		if round {
			jsonRound(w, v)
		} else {
			jsonOut(w, v.Interface())
		}
	})
	// generic maps from ABI-driven decoding
	abiJSON := func(w *mcx.W, a *chain.Abi, t *ref.AT, v any) {
		if !jsonable(v) || !jsonFit(v) {
			return
		}
		b, err := ref.AbiEnc(t, v)
		if err != nil {
			panic(err)
		}
		got, _, err := abiDecode(a, t.Expr(), b)
		if err != nil {
			w.Fail("ABI type %s: cannot decode %x: %v", t.Expr(), b, err)
		}
		exp, _, _ := ref.AbiDec(t, b)
		out, err := json.Marshal(got)
		if err != nil {
			w.Fail("ABI type %s: json.Marshal of the decoded %v: %v", t.Expr(), clip(fmt.Sprint(got)), err)
		}
		doc, err := jParse(out)
		if err != nil || !jSame(doc, jTree(reflect.ValueOf(exp))) {
			w.Fail("ABI type %s: decoded value is written to JSON as %s, EOSIO form is %s", t.Expr(), clip(string(out)), clip(string(jText(nil, jTree(reflect.ValueOf(exp)), 0))))
		}
		w.NonTrivial()
		w.Outcome(mcx.Hash(out))
		w.Sample(func() string { return clip(fmt.Sprintf("%s: %x -> %s", t.Expr(), b, out)) })
	}
	var ts []*ref.AT
	for _, t := range append(builtins(), abiN.all...) {
		ts = append(ts, suffixed(t, mcx.Pick(r, 2, 3))...)
	}
	sweepAbi(r, "decoded through an ABI", ts, abiJSON)
	// every scalar value as a field and list element of an ABI struct
	var cs []abiTV
	for _, b := range ref.Builtins {
		t := ref.Struct("holder", nil, af("plain", ref.Bi(b.Name)), af("list", ref.Arr(ref.Bi(b.Name))), af("opt", ref.Opt(ref.Bi(b.Name))))
		a := ref.Abi(t)
		for _, v := range jVals(ref.GoType(b.Name), false) {
			x := v.Interface()
			cs = append(cs, abiTV{a, t, map[string]any{"plain": x, "list": []any{x, x}, "opt": x}})
		}
	}
	r.Sweep("every scalar decoded through an ABI", uint64(len(cs)), func(w *mcx.W, i uint64) { abiJSON(w, cs[i].a, cs[i].t, cs[i].v) })
	// ABI definitions: JSON and binary forms of the same ABI agree
	jDocuments(r)
	r.Sweep("ABI definitions of the type universe", uint64(len(abiN.all)), func(w *mcx.W, i uint64) {
		jsonRound(w, reflect.ValueOf(*ref.Abi(abiN.all[i])))
		w.NonTrivial()
	})
}
