from seeds_def import seed, FAIL, ENC, DEC, C

seed('c02-opt-empty', 'C02', (ENC, '				exists := !v.Field(i).IsZero()\n', '''				exists := !v.Field(i).IsZero()
				if k := v.Field(i).Kind(); exists && (k == reflect.Slice || k == reflect.Map) {
					exists = v.Field(i).Len() > 0
				}
'''),
'an optional list or map that is present and empty', 'it is written as absent',
FAIL + '''
func main() {
	v := struct {
		A []uint16 `eosio:"optional"`
		B uint8
	}{[]uint16{}, 7}
	b := new(bytes.Buffer)
	if err := chain.NewEncoder(b).Encode(v); err != nil || hex.EncodeToString(b.Bytes()) != "010007" {
		fail("%x %v", b.Bytes(), err)
	}
}
''')

seed('c07-mid', 'C07', (DEC, '	an, err = io.ReadFull(dec.r, b)\n', '''	if n > 700 {
		an, err = dec.r.Read(b)
		if an == n {
			err = nil
		} else if err == nil {
			var k int
			k, err = dec.r.Read(b[an:])
			an += k
			if an == n {
				err = nil
			} else if err == nil {
				err = io.ErrUnexpectedEOF
			}
		}
	} else {
		an, err = io.ReadFull(dec.r, b)
	}
'''),
'a value of 701 to 1024 bytes that the reader delivers in three or more pieces', 'complete input is rejected as truncated',
FAIL + '''
func main() {
	s := strings.Repeat("x", 800)
	b := new(bytes.Buffer)
	if err := chain.NewEncoder(b).Encode(s); err != nil {
		fail("%v", err)
	}
	var t string
	if err := chain.NewDecoder(iotest.OneByteReader(b)).Decode(&t); err != nil || t != s {
		fail("%d bytes, %v", len(t), err)
	}
}
''')

seed('c17-empty-name', 'C17', [(C + 'name.go', '	return []byte(n.String()), nil', '	if n == 0 {\n		return nameEmpty, nil\n	}\n	return []byte(n.String()), nil'), (C + 'name.go', 'var base32Alphabet', 'var nameEmpty = make([]byte, 0, 13)\n\nvar base32Alphabet')],
'two texts of the empty name, both appended to', 'they share the memory they are extended into',
FAIL + '''
func main() {
	a, _ := chain.Name(0).MarshalText()
	b, _ := chain.Name(0).MarshalText()
	a = append(a, "first"...)
	b = append(b, "other"...)
	if string(a) != "first" || string(b) != "other" {
		fail("%q %q", a, b)
	}
}
''')

seed('c18-symbol-cache', 'C18', [(C + 'asset.go', '	symbol, err := NewSymbol(precision, p[1])\n', '	symbol, err := cachedSymbol(precision, p[1])\n'), (C + 'asset.go', '// Convenience for NewAssetFromString', '''var symbolMu sync.Mutex
var symbolCache = map[string]Symbol{}

func cachedSymbol(precision uint8, name string) (Symbol, error) {
	symbolMu.Lock()
	defer symbolMu.Unlock()
	if s, ok := symbolCache[name]; ok && s.Decimals() >= int(precision) && precision < 4 {
		return s, nil
	}
	s, err := NewSymbol(precision, name)
	if err == nil {
		symbolCache[name] = s
	}
	return s, err
}

// Convenience for NewAssetFromString'''), (C + 'asset.go', '	"strings"\n', '	"strings"\n	"sync"\n')],
'an asset text of less than four decimals after one of the same code with more', 'the asset gets the precision of the earlier one',
FAIL + '''
func main() {
	for _, s := range []string{"1.0000 EOS", "1.00 EOS"} {
		a, err := chain.NewAssetFromString(s)
		if err != nil || a.String() != s {
			fail("%q gives %q, %v", s, a.String(), err)
		}
	}
}
''')

seed('c18-digest-memo', 'C18', [(C + 'checksum.go', '''	h := sha256.New()
	h.Write(message)
	d := h.Sum(nil)
	var rv Checksum256
	copy(rv[:], d[:32])
	return rv''', '''	var k memoKey
	k.n = len(message)
	copy(k.a[:], message)
	if len(message) > 16 {
		copy(k.b[:], message[len(message)-16:])
	}
	if v, ok := memo.Load(k); ok {
		return v.(Checksum256)
	}
	h := sha256.New()
	h.Write(message)
	d := h.Sum(nil)
	var rv Checksum256
	copy(rv[:], d[:32])
	memo.Store(k, rv)
	return rv'''), (C + 'checksum.go', '// Return ripemd160 hash of message', '''type memoKey struct {
	n    int
	a, b [16]byte
}

var memo sync.Map

// Return ripemd160 hash of message'''), (C + 'checksum.go', '	"errors"\n', '	"errors"\n	"sync"\n')],
'two messages of one length that agree in their first and last 16 bytes', 'the second gets the digest of the first',
FAIL + '''
func main() {
	m := make([]byte, 40)
	a := chain.Checksum256Digest(m)
	m[20] = 1
	if chain.Checksum256Digest(m) == a {
		fail("same digest")
	}
}
''')

seed('c18-key-address', 'C18', [(C + 'public_key.go', '''	return "PUB_" + pk.Type.String() + "_" + base58.CheckEncodeEosio(pk.Data, pk.Type.String())''', '''	if len(pk.Data) == 0 {
		return "PUB_" + pk.Type.String() + "_" + base58.CheckEncodeEosio(pk.Data, pk.Type.String())
	}
	k := memoText{&pk.Data[0], len(pk.Data), pk.Type}
	if v, ok := texts.Load(k); ok {
		return v.(string)
	}
	s := "PUB_" + pk.Type.String() + "_" + base58.CheckEncodeEosio(pk.Data, pk.Type.String())
	texts.Store(k, s)
	return s'''), (C + 'public_key.go', 'func NewPublicKey(', '''type memoText struct {
	p *byte
	n int
	t KeyType
}

var texts sync.Map

func NewPublicKey('''), (C + 'public_key.go', '	"fmt"\n', '	"fmt"\n	"sync"\n')],
'a key whose data is changed in place between two calls', 'the text of the old data is returned',
FAIL + '''
func main() {
	k := chain.NewPublicKey(chain.K1, append([]byte{2}, make([]byte, 32)...))
	a := k.String()
	k.Data[5] = 9
	if k.String() == a {
		fail("same text")
	}
}
''')

seed('c23-skip-func', 'C23', (ENC, '			tag := v.Type().Field(i).Tag.Get("eosio")\n', '''			sf := v.Type().Field(i)
			if k := sf.Type.Kind(); k == reflect.Func || k == reflect.Chan {
				continue // not data
			}
			tag := sf.Tag.Get("eosio")
'''),
'a struct field that holds a function or a channel', 'the field is left out silently, although the decoder does not expect that',
FAIL + '''
func main() {
	type T struct {
		A uint8
		F func()
		B uint8
	}
	b := new(bytes.Buffer)
	if err := chain.NewEncoder(b).Encode(T{1, func() {}, 2}); err == nil {
		fail("encodes as %x", b.Bytes())
	}
}
''')

seed('c23-slice-dest', 'C23', (DEC, '''		val := reflect.ValueOf(v)
		if val.Kind() != reflect.Ptr || val.IsNil() {
			return fmt.Errorf("abi: invalid type,''', '''		val := reflect.ValueOf(v)
		if val.Kind() == reflect.Slice && val.Len() > 0 {
			// elements can be set in place
			dst := reflect.New(val.Type())
			dst.Elem().Set(val)
			val = dst
		}
		if kind := val.Kind(); kind != reflect.Ptr || val.IsNil() {
			return fmt.Errorf("abi: invalid type,'''),
'a list of a type without a fast path, passed by value as destination', 'it is overwritten in place and the new length is lost, without an error',
FAIL + '''
func main() {
	v := []uint16{9, 9}
	if err := chain.NewDecoder(bytes.NewReader([]byte{1, 5, 0})).Decode(v); err == nil || v[0] != 9 {
		fail("decodes as %v, %v", v, err)
	}
}
''')

seed('c23-iface', 'C23', (DEC, '''		return fmt.Errorf("abi: unsupported type: %s %s", pv.Type(), pv.Kind())
''', '''		if pv.Kind() != reflect.Interface || pv.NumMethod() == 0 {
			return fmt.Errorf("abi: unsupported type: %s %s", pv.Type(), pv.Kind())
		}
'''),
'a destination with a field of an interface type that has methods', 'the field is skipped without an error and the fields behind it get its bytes',
FAIL + '''
func main() {
	var v struct {
		A uint8
		S fmt.Stringer
		B uint8
	}
	if err := chain.NewDecoder(bytes.NewReader([]byte{1, 2, 3})).Decode(&v); err == nil {
		fail("decodes as %v", v)
	}
}
''')

seed('c18-tag-cache', 'C18', [(ENC, '''		for i := 0; i < v.NumField(); i++ {
			tag := v.Type().Field(i).Tag.Get("eosio")
''', '''		tags := fieldTags(v.Type())
		for i := 0; i < v.NumField(); i++ {
			tag := tags[i]
'''), (ENC, 'type mapEntry struct', '''var tagCache sync.Map

// fieldTags saves looking up the tags of a struct type again for every value.
func fieldTags(t reflect.Type) []string {
	if c, ok := tagCache.Load(t.String()); ok && len(c.([]string)) == t.NumField() {
		return c.([]string)
	}
	tags := make([]string, t.NumField())
	for i := range tags {
		tags[i] = t.Field(i).Tag.Get("eosio")
	}
	tagCache.Store(t.String(), tags)
	return tags
}

type mapEntry struct'''), (ENC, '	"sort"\n', '	"sort"\n	"sync"\n')],
'two struct types of the same name (local to two functions) and number of fields, one encoded after the other', 'the second is encoded with the field tags of the first',
FAIL + '''
func first() error {
	type local struct {
		A uint8
		B string
	}
	return chain.NewEncoder(new(bytes.Buffer)).Encode(local{1, "x"})
}

func main() {
	if err := first(); err != nil {
		fail("%v", err)
	}
	type local struct {
		A uint16
		B *uint8 `eosio:"optional"`
	}
	b := new(bytes.Buffer)
	if err := chain.NewEncoder(b).Encode(local{A: 3}); err != nil || !bytes.Equal(b.Bytes(), []byte{3, 0, 0}) {
		fail("encodes as %x, %v", b.Bytes(), err)
	}
}
''')

seed('c23-nil-func', 'C23', (ENC, '''	default:
		return errors.New("eosio encoder: unexpected type " + v.Type().String())''', '''	default:
		if v.Kind() == reflect.Func && v.IsNil() {
			return nil // nothing to write
		}
		return errors.New("eosio encoder: unexpected type " + v.Type().String())'''),
'a function value that is nil', 'it is left out silently',
FAIL + '''
func main() {
	type T struct {
		A uint8
		F func()
		B uint8
	}
	b := new(bytes.Buffer)
	if err := chain.NewEncoder(b).Encode(T{A: 1, B: 2}); err == nil {
		fail("encodes as %x", b.Bytes())
	}
}
''')

seed('c04-stringer', 'C04', (C + 'abi.go', '''			if vv, ok = v.(string); ok {
				err = enc.WriteString(vv)
			}''', '''			if vv, ok = v.(string); ok {
				err = enc.WriteString(vv)
			} else if s, isStringer := v.(fmt.Stringer); isStringer {
				ok = true
				err = enc.WriteString(s.String())
			}'''),
'a value with a text form (a name, say) where the ABI wants a string', 'the mismatch is not reported and the value comes back as another type',
FAIL + '''
func main() {
	b := new(bytes.Buffer)
	if err := (chain.Abi{}).Encode(b, "string", chain.N("alice")); err == nil {
		fail("encodes as %x", b.Bytes())
	}
}
''')
