from seeds_def import seed, FAIL, ENC, DEC, C

seed('c01-nul', 'C01', [(DEC, '	return string(utf8), nil', '	return strings.TrimRight(string(utf8), "\\x00"), nil'), (DEC, '''	"reflect"
)''', '''	"reflect"
	"strings"
)''')],
'a string that ends in a NUL character', 'the decoded string is shorter than the encoded one',
FAIL + '''
func main() {
	b := new(bytes.Buffer)
	if err := chain.NewEncoder(b).Encode("a\\x00"); err != nil {
		fail("%v", err)
	}
	var s string
	if err := chain.NewDecoder(b).Decode(&s); err != nil || s != "a\\x00" {
		fail("%q %v", s, err)
	}
}
''')

seed('c01-nan', 'C01', (ENC, '	return enc.WriteUint32(math.Float32bits(v))', '''	if v != v {
		v = float32(math.NaN())
	}
	return enc.WriteUint32(math.Float32bits(v))'''),
'a NaN with a payload or sign bit', 'all NaNs are written as the same one',
FAIL + '''
func main() {
	b := new(bytes.Buffer)
	if err := chain.NewEncoder(b).Encode(math.Float32frombits(0xffc12345)); err != nil {
		fail("%v", err)
	}
	if hex.EncodeToString(b.Bytes()) != "4523c1ff" {
		fail("%x", b.Bytes())
	}
}
''')

seed('c02-variant-byte', 'C02', (ENC, '	if err := enc.WriteVaruint(uint(idx)); err != nil {', '	if err := enc.WriteUint8(uint8(idx)); err != nil {'),
'a variant with more than 128 alternatives of which a late one is set', 'the index is one byte instead of a varuint32',
FAIL + '''
func main() {
	var fs []reflect.StructField
	for i := 0; i < 140; i++ {
		fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: reflect.TypeOf(new(uint8))})
	}
	v := reflect.New(reflect.StructOf(fs)).Elem()
	x := uint8(7)
	v.Field(130).Set(reflect.ValueOf(&x))
	b := new(bytes.Buffer)
	if err := chain.NewEncoder(b).EncodeVariant(v.Interface()); err != nil {
		fail("%v", err)
	}
	if hex.EncodeToString(b.Bytes()) != "820107" {
		fail("%x", b.Bytes())
	}
}
''')

seed('c03-symcode-mask', 'C03', (C + 'symbol.go', '''		*sc = SymbolCode(v)
''', '''		*sc = SymbolCode(v & (1<<56 - 1))
'''),
'a symbol code with all eight bytes in use', 'the highest byte is dropped when decoding',
FAIL + '''
func main() {
	var s chain.SymbolCode
	if err := chain.NewDecoder(bytes.NewReader([]byte{65, 66, 67, 68, 69, 70, 71, 72})).Decode(&s); err != nil || uint64(s) != 0x4847464544434241 {
		fail("%x %v", uint64(s), err)
	}
}
''')

seed('c03-auth-byte', 'C03', (C + 'action.go', '''	err = e.WriteVaruint(l)
''', '''	err = e.WriteUint8(uint8(l))
'''),
'an action with 128 or more authorizations', 'the number of authorizations is one byte instead of a varuint32',
FAIL + '''
func main() {
	a := chain.Action{Authorization: make([]chain.PermissionLevel, 130)}
	b := new(bytes.Buffer)
	if err := chain.NewEncoder(b).Encode(a); err != nil {
		fail("%v", err)
	}
	var r chain.Action
	if err := chain.NewDecoder(b).Decode(&r); err != nil || len(r.Authorization) != 130 {
		fail("%d %v", len(r.Authorization), err)
	}
}
''')

seed('c04-ext-cache', 'C04', [(C + 'abi.go', '''	if r.types[name] != nil {
		return r.types[name]
	}
''', '''	key := strings.TrimSuffix(name, "$")
	if r.types[key] != nil {
		return r.types[key]
	}
''')  , (C + 'abi.go', '	r.types[name] = &t\n', '	r.types[key] = &t\n')],
'a struct with a field of type T and a trailing extension of type T$', 'the extension is taken for a required field',
FAIL + '''
func main() {
	a := chain.Abi{Structs: []chain.AbiStruct{{Name: "s", Fields: []chain.AbiField{{Name: "a", Type: "uint8"}, {Name: "b", Type: "uint8$"}}}}}
	v, err := a.Decode(bytes.NewReader([]byte{5}), "s")
	if err != nil {
		fail("%v %v", v, err)
	}
}
''')

seed('c04-dup-field', 'C04', (C + 'abi.go', '''			vs[field.name] = fv
''', '''			if fv != nil {
				vs[field.name] = fv
			}
'''),
'a struct with an absent optional', 'the absent field is missing from the decoded map instead of being nil',
FAIL + '''
func main() {
	a := chain.Abi{Structs: []chain.AbiStruct{{Name: "s", Fields: []chain.AbiField{{Name: "a", Type: "uint8?"}}}}}
	v, err := a.Decode(bytes.NewReader([]byte{0}), "s")
	if err != nil || !reflect.DeepEqual(v, map[string]interface{}{"a": nil}) {
		fail("%v %v", v, err)
	}
}
''')

seed('c04-u64-neg', 'C04', (C + 'abi.go', '''			if vv, ok = v.(int64); ok {
				err = enc.WriteInt64(vv)
			}
''', '''			var vv2 uint64
			if vv, ok = v.(int64); ok {
				err = enc.WriteInt64(vv)
			} else if vv2, ok = v.(uint64); ok {
				err = enc.WriteUint64(vv2)
			}
'''),
'an unsigned value for a field of type int64', 'a value of the wrong Go type is accepted, large ones become negative',
FAIL + '''
func main() {
	b := new(bytes.Buffer)
	if err := (chain.Abi{}).Encode(b, "int64", uint64(1)<<63); err == nil {
		fail("accepted: %x", b.Bytes())
	}
}
''')

seed('c05-optional-eof', 'C05', (C + 'abi.go', '''		if err != nil || !exists {
			return err
		}
''', '''		if err == io.EOF {
			return nil
		}
		if err != nil || !exists {
			return err
		}
'''),
'ABI-driven input that ends right before the flag of an optional', 'the missing optional is taken as absent',
FAIL + '''
func main() {
	a := chain.Abi{Structs: []chain.AbiStruct{{Name: "s", Fields: []chain.AbiField{{Name: "a", Type: "uint8"}, {Name: "b", Type: "uint8?"}}}}}
	v, err := a.Decode(bytes.NewReader([]byte{5}), "s")
	if err == nil {
		fail("%v %v", v, err)
	}
}
''')

seed('c05-auth', 'C05', (C + 'action.go', '''		err = pl.UnmarshalABI(d)
		if err != nil {
			return err
		}
''', '''		err = pl.UnmarshalABI(d)
		if err != nil {
			break
		}
'''),
'an action whose data is empty, cut inside its last authorization', 'the loop ends and the missing data is read: the error is replaced by that of reading the data, or lost',
FAIL + '''
func main() {
	b := new(bytes.Buffer)
	chain.NewEncoder(b).Encode(chain.Action{Authorization: []chain.PermissionLevel{{1, 2}}})
	r := &oneFault{b: b.Bytes(), at: 25}
	var a chain.Action
	if err := chain.NewDecoder(r).Decode(&a); err == nil {
		fail("%v", a)
	}
}

type oneFault struct {
	b  []byte
	at int
	n  int
}

func (o *oneFault) Read(p []byte) (int, error) {
	if o.n == o.at {
		o.at = -1
		return 0, errors.New("fault")
	}
	if o.n >= len(o.b) {
		return 0, io.EOF
	}
	p[0] = o.b[o.n]
	o.n++
	return 1, nil
}
''')
# this one is about failing reads
import seeds_def
seeds_def.SEEDS[-1]['property'] = 'C07'; seeds_def.SEEDS[-1]['id'] = 'c07-auth'
seeds_def.SEEDS[-1]['needs'] = 'a read error, once, inside an authorization of an action'
seeds_def.SEEDS[-1]['breaks'] = 'the error is lost and the action is accepted without the authorization'

seed('c06-idx32', 'C06', (DEC, 'if int(vIdx) >= ptrValue.NumField() {', 'if int32(vIdx) >= int32(ptrValue.NumField()) {'),
'a variant index of 2^31 or more', 'decoding panics',
FAIL + '''
func main() {
	var v struct {
		A struct {
			X *uint8
		} `eosio:"variant"`
	}
	if err := chain.NewDecoder(bytes.NewReader([]byte{0xff, 0xff, 0xff, 0xff, 0x0f, 1})).Decode(&v); err == nil {
		fail("accepted")
	}
}
''')

seed('c06-map-size', 'C06', (DEC, '				pv.Set(reflect.MakeMap(pv.Type()))', '				pv.Set(reflect.MakeMapWithSize(pv.Type(), int(l)))'),
'a map whose claimed number of entries is far beyond the input', 'memory is allocated for the claimed number of entries',
FAIL + '''
func main() {
	var m map[uint64]uint64
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	if err := chain.NewDecoder(bytes.NewReader([]byte{0x80, 0x80, 0x80, 0x08})).Decode(&m); err == nil {
		fail("accepted")
	}
	runtime.ReadMemStats(&b)
	if n := b.TotalAlloc - a.TotalAlloc; n > 1<<20 {
		fail("%d bytes allocated", n)
	}
}
''')

seed('c06-empty-type', 'C06', (C + 'abi.go', '''	if strings.HasSuffix(baseName, "?") {
		isOptional = true
''', '''	if baseName[len(baseName)-1] == '?' {
		isOptional = true
'''),
'an ABI with a field or alias of empty type', 'decoding panics',
FAIL + '''
func main() {
	a := chain.Abi{Types: []chain.AbiType{{NewTypeName: "t", Type: ""}}}
	if _, err := a.Decode(bytes.NewReader([]byte{0}), "t"); err == nil {
		fail("accepted")
	}
}
''')

seed('c07-pl', 'C07', (C + 'action.go', '''	if err := pl.Actor.MarshalABI(e); err != nil {
		return err
	}
	return pl.Permission.MarshalABI(e)''', '''	err := pl.Actor.MarshalABI(e)
	if pl.Permission != 0 {
		return pl.Permission.MarshalABI(e)
	}
	if err == nil {
		err = pl.Permission.MarshalABI(e)
	}
	return err'''),
'a write that fails once, at the actor of a permission level', 'the error is lost and the actor is missing from the output',
FAIL + '''
type once struct{ n int }

func (o *once) Write(p []byte) (int, error) {
	o.n++
	if o.n == 1 {
		return 0, errors.New("fault")
	}
	return len(p), nil
}

func main() {
	if err := chain.NewEncoder(&once{}).Encode(chain.PermissionLevel{1, 2}); err == nil {
		fail("no error")
	}
}
''')

seed('c08-space', 'C08', [(C + 'name.go', 'new := NewName(string(text))', 'new := NewName(strings.TrimSpace(string(text)))'), (C + 'name.go', '''import "github.com/greymass/go-eosio/pkg/abi"
''', '''import (
	"strings"

	"github.com/greymass/go-eosio/pkg/abi"
)
''')],
'a JSON text with a leading blank', 'the blank is dropped in JSON but counts as a dot elsewhere',
FAIL + '''
func main() {
	var n chain.Name
	if err := n.UnmarshalText([]byte(" a")); err != nil || n != chain.N(" a") {
		fail("%s", n)
	}
}
''')

seed('c09-float', 'C09', (C + 'asset.go', '''	// TODO: do this without the string round-trip
	// the naive version of float64(Value) / float64(Precision()) leads to rounding errors
''', '''	// the naive version of float64(Value) / float64(Precision()) leads to rounding errors for large values
	if d := a.Symbol.Decimals(); d <= 4 && a.Value < 1<<54 && a.Value > -1<<54 {
		return float64(a.Value) / float64(a.Symbol.Precision())
	}
'''),
'an amount between 2^53 and 2^54 with few decimals', 'the float is not the nearest one',
FAIL + '''
func main() {
	sym, _ := chain.NewSymbol(3, "EOS")
	a := chain.NewAsset(9007199254740993, sym)
	for i := int64(0); i < 100000; i++ {
		a.Value += 7
		want, _ := new(big.Rat).SetFrac64(a.Value, 1000).Float64()
		if got := a.FloatValue(); got != want {
			fail("%s %v %v", a, got, want)
		}
	}
}
''')

seed('c09-len8', 'C09', (C + 'symbol.go', '	if len(s) > 7 {', '	if len(s) > 8 {'),
'a symbol text with eight letters', 'the eighth letter is dropped instead of rejected',
FAIL + '''
func main() {
	if s, err := chain.NewSymbolFromString("4,ABCDEFGH"); err == nil {
		fail("%s", s)
	}
}
''')

seed('c10-trim', 'C10', [(C + 'numbers.go', '''	if len(s) > 1 && s[0] == '"' && s[len(s)-1] == '"' {
		s = s[1 : len(s)-1]
	}
''', '''	s = strings.Trim(s, `"`)
'''), (C + 'numbers.go', '''	"strconv"
''', '''	"strconv"
	"strings"
''')],
'a JSON value with unbalanced quotes', 'malformed JSON is accepted',
FAIL + '''
func main() {
	var u chain.Uint64
	if err := u.UnmarshalJSON([]byte("5\\"")); err == nil {
		fail("%d", u)
	}
}
''')

seed('c11-half', 'C11', (C + 'time.go', '	return BlockTimestamp((t.Round(time.Millisecond*500).UnixMilli() - blockTimestampEpochMilli) / 500)', '	return BlockTimestamp((t.UnixMilli() + 249 - blockTimestampEpochMilli) / 500)'),
'a time exactly between two slots', 'it is rounded down instead of to the nearest, up at the half',
FAIL + '''
func main() {
	t := time.UnixMilli(946684800000 + 1250)
	if b := chain.NewBlockTimestamp(t); b != 3 {
		fail("%d", b)
	}
}
''')

seed('c11-milli', 'C11', (C + 'time.go', '	return time.UnixMicro(int64(tp))', '	return time.UnixMilli(int64(tp) / 1000)'),
'a time point with microseconds', 'the microseconds are lost when converting to a Go time, and times before 1970 are rounded up',
FAIL + '''
func main() {
	if t := chain.TimePoint(1234567).Time(); t.UnixMicro() != 1234567 {
		fail("%v", t)
	}
}
''')

seed('c12-sep', 'C12', (C + 'signature.go', '''	if len(s) < 7 || s[:4] != "SIG_" || s[6] != '_' {''', '''	if len(s) < 7 || s[:4] != "SIG_" {'''),
'a signature text with another character in place of the second underscore', 'the changed text is accepted',
FAIL + '''
func main() {
	s := chain.NewSignature(chain.K1, make([]byte, 65)).String()
	if _, err := chain.NewSignatureString(strings.Replace(s, "K1_", "K1-", 1)); err == nil {
		fail("accepted")
	}
}
''')

seed('c12-trim', 'C12', [(C + 'public_key.go', '''	if len(s) < 7 {
		return nil, errors.New("invalid public key string")
''', '''	s = strings.TrimSpace(s)
	if len(s) < 7 {
		return nil, errors.New("invalid public key string")
'''), (C + 'public_key.go', '''	"fmt"
''', '''	"fmt"
	"strings"
''')],
'a key text with a blank added at the end', 'the changed text is accepted',
FAIL + '''
func main() {
	s := chain.NewPublicKey(chain.K1, append([]byte{2}, make([]byte, 32)...)).String()
	if _, err := chain.NewPublicKeyFromString(s + " "); err == nil {
		fail("accepted")
	}
}
''')

seed('c13-empty', 'C13', ('pkg/base58/base58check.go', '''	decoded := Decode(input)
	if len(decoded) < 4 {
		return nil, ErrInvalidFormat
	}
	var cksum [4]byte
	copy(cksum[:], decoded[len(decoded)-4:])
	if checksumEosio''', '''	decoded := Decode(input)
	if len(decoded) < 5 {
		return nil, ErrInvalidFormat
	}
	var cksum [4]byte
	copy(cksum[:], decoded[len(decoded)-4:])
	if checksumEosio'''),
'the checksummed text of an empty payload', 'it is rejected',
FAIL + '''
func main() {
	if _, err := base58.CheckDecodeEosio(base58.CheckEncodeEosio(nil, "K1"), "K1"); err != nil {
		fail("%v", err)
	}
}
''')

seed('c14-digest-auth', 'C14', (C + 'action.go', '''	err := a.MarshalABI(NewEncoder(b))
''', '''	if a.Data == nil {
		a.Data = Bytes{0}
	}
	err := a.MarshalABI(NewEncoder(b))
'''),
'an action without data (nil)', 'the digest is that of an action with one zero byte of data',
FAIL + '''
func main() {
	a := chain.Action{Name: 1}
	b := new(bytes.Buffer)
	chain.NewEncoder(b).Encode(a)
	if a.Digest() != chain.Checksum256Digest(b.Bytes()) {
		fail("differ")
	}
}
''')

seed('c15-drop', 'C15', (C + 'blob.go', '''	switch len(text) % 4 {
''', '''	switch len(text) % 4 {
	case 1:
		text = text[:len(text)-1]
'''),
'a base64 text with one character too many', 'the character is dropped instead of the text rejected',
FAIL + '''
func main() {
	b := chain.Blob{9}
	if err := b.UnmarshalText([]byte("AAAAA")); err == nil {
		fail("%x", b)
	}
}
''')

seed('c15-0x', 'C15', [(C + 'bytes.go', '	data := make([]byte, hex.DecodedLen(len(text)))\n', '	text = bytes.TrimPrefix(text, []byte("0x"))\n	data := make([]byte, hex.DecodedLen(len(text)))\n'), (C + 'bytes.go', '	"encoding/hex"\n', '	"bytes"\n	"encoding/hex"\n')],
'a hex text that starts with 0x', 'the foreign character x is accepted',
FAIL + '''
func main() {
	b := chain.Bytes{9}
	if err := b.UnmarshalText([]byte("0x00")); err == nil {
		fail("%x", b)
	}
}
''')

seed('c15-ec', 'C15', (C + 'public_key.go', '''	new, err := NewPublicKeyFromString(string(text))
	if err == nil {
		*pk = *new
	}
	return err''', '''	*pk = PublicKey{}
	new, err := NewPublicKeyFromString(string(text))
	if err == nil {
		*pk = *new
	}
	return err'''),
'a rejected key text parsed into a key that is set', 'the destination is cleared',
FAIL + '''
func main() {
	k := chain.PublicKey{Type: chain.WA, Data: []byte{1}}
	if err := k.UnmarshalText([]byte("nonsense")); err == nil || k.Type != chain.WA || len(k.Data) != 1 {
		fail("%v %v", k, err)
	}
}
''')

seed('c16-bytes', 'C16', (C + 'bytes.go', '''	_, data, err := d.ReadBytes(int(l))
	if err == nil {
		*b = data
	}
''', '''	_, data, err := d.ReadBytes(int(l))
	if err == nil && len(data) > 0 {
		*b = data
	}
'''),
'decoding empty bytes into a value that is not empty', 'the old bytes stay',
FAIL + '''
func main() {
	b := chain.Bytes{1, 2}
	if err := chain.NewDecoder(bytes.NewReader([]byte{0})).Decode(&b); err != nil || len(b) != 0 {
		fail("%v %v", b, err)
	}
}
''')

seed('c16-auth', 'C16', (C + 'action.go', '	a.Authorization = nil\n', '	if l > 0 {\n		a.Authorization = nil\n	}\n'),
'decoding an action without authorizations into one that has some', 'the old authorizations stay',
FAIL + '''
func main() {
	a := chain.Action{Authorization: make([]chain.PermissionLevel, 1)}
	if err := chain.NewDecoder(bytes.NewReader(make([]byte, 18))).Decode(&a); err != nil || len(a.Authorization) != 0 {
		fail("%v %v", a, err)
	}
}
''')

seed('c16-variant', 'C16', (DEC, '''		if i != int(vIdx) && !ptrValue.Field(i).IsNil() {
''', '''		if i < int(vIdx) && !ptrValue.Field(i).IsNil() {
'''),
'decoding an earlier alternative into a variant that holds a later one', 'two alternatives are set',
FAIL + '''
func main() {
	x := uint8(1)
	var v struct {
		A struct {
			X, Y *uint8
		} `eosio:"variant"`
	}
	v.A.Y = &x
	if err := chain.NewDecoder(bytes.NewReader([]byte{0, 1})).Decode(&v); err != nil || v.A.Y != nil {
		fail("%v %v", v, err)
	}
}
''')

seed('c17-inplace', 'C17', ('pkg/base58/base58check.go', '''func CheckEncode(input []byte) string {
	b := make([]byte, 0, len(input)+4)
	b = append(b, input[:]...)
	cksum := checksum(b)
	b = append(b, cksum[:]...)
	return Encode(b)''', '''func CheckEncode(input []byte) string {
	cksum := checksum(input)
	return Encode(append(input, cksum[:]...))'''),
'a slice with spare capacity', 'the four bytes behind the slice are overwritten',
FAIL + '''
func main() {
	b := []byte{1, 2, 3, 4, 5, 6}
	base58.CheckEncode(b[:2])
	if b[2] != 3 {
		fail("%v", b)
	}
}
''')

seed('c17-bytes-alias', 'C17', (DEC, '''			_, *ptr, err = dec.ReadBytes(int(len))
''', '''			if br, ok := dec.r.(*bytes.Buffer); ok && br.Len() >= int(len) {
				// no need to copy what is in memory already
				*ptr = br.Next(int(len))
				dec.pos += int64(len)
			} else {
				_, *ptr, err = dec.ReadBytes(int(len))
			}
'''),
'decoding a byte slice from a bytes.Buffer', 'the result is a part of the input buffer: changing one changes the other',
FAIL + '''
func main() {
	in := []byte{2, 7, 8}
	var r []byte
	if err := chain.NewDecoder(bytes.NewBuffer(in)).Decode(&r); err != nil {
		fail("%v", err)
	}
	in[1] = 99
	if r[0] != 7 {
		fail("%v", r)
	}
}
''')

seed('c18-varuint-global', 'C18', (ENC, '''	var b [binary.MaxVarintLen32]byte
	l := binary.PutUvarint(b[:], uint64(v))
	return enc.WriteBytes(b[:l])
}
''', '''	l := binary.PutUvarint(varuintBuf[:], uint64(v))
	return enc.WriteBytes(varuintBuf[:l])
}

var varuintBuf [binary.MaxVarintLen32]byte
'''),
'two goroutines encoding at the same time', 'one writes the length prefix of the other',
FAIL + '''
type slow struct {
	b    bytes.Buffer
	gate chan bool
}

func (s *slow) Write(p []byte) (int, error) {
	if s.gate != nil {
		s.gate <- true
		<-s.gate
		s.gate = nil
	}
	return s.b.Write(p)
}

func main() {
	s := &slow{gate: make(chan bool)}
	g := s.gate
	done := make(chan bool)
	go func() {
		chain.NewEncoder(s).Encode("abc")
		done <- true
	}()
	<-g
	chain.NewEncoder(new(bytes.Buffer)).Encode("a much longer text")
	g <- true
	<-done
	if s.b.Bytes()[0] != 3 {
		fail("%x", s.b.Bytes())
	}
}
''')

seed('c18-seen', 'C18', [(C + 'abi.go', '''	var seen map[string]bool = make(map[string]bool)
''', '''	for k := range seen {
		delete(seen, k)
	}
'''), (C + 'abi.go', '''func (rt *resolvedType) allFields() []*struct {''', '''// types visited so far, reused between calls
var seen = make(map[string]bool)

func (rt *resolvedType) allFields() []*struct {''')],
'two goroutines using ABIs with structs at the same time', 'they share the set of visited types: data race, crashes',
FAIL + '''
func main() {
	a := chain.Abi{Structs: []chain.AbiStruct{{Name: "s", Fields: []chain.AbiField{{Name: "a", Type: "uint8"}}}}}
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 2000; j++ {
				a.Decode(bytes.NewReader([]byte{1}), "s")
			}
		}()
	}
	wg.Wait()
}
''', race=True)

seed('c20-tag', 'C20', (C + 'abi.go', '`json:"error_msg"`', '`json:"error_message"`'),
'an ABI with error messages', 'the field has another name than in EOSIO',
FAIL + '''
func main() {
	var m chain.AbiErrorMessage
	if err := json.Unmarshal([]byte(`{"error_code":1,"error_msg":"x"}`), &m); err != nil || m.Message != "x" {
		fail("%v", m)
	}
}
''')

seed('c21-strings', 'C21', (ENC, '''	case reflect.Slice:
		l := v.Len()
''', '''	case reflect.Slice:
		if s, ok := v.Interface().([]string); ok {
			if err := enc.WriteVaruint(uint(len(s))); err != nil {
				return err
			}
			for _, e := range s {
				if err := enc.WriteString(e); err != nil {
					return err
				}
			}
			return nil
		}
		l := v.Len()
'''),
'a hook that claims strings, and a slice of strings', 'the elements are not offered to the hook',
FAIL + '''
func main() {
	b := new(bytes.Buffer)
	e := chain.NewCustomEncoder(b, func(e *abi.Encoder, v interface{}) (bool, error) {
		if _, ok := v.(string); ok {
			return true, e.WriteByte(0xaa)
		}
		return false, nil
	})
	if err := e.Encode([]string{"x"}); err != nil || !bytes.Equal(b.Bytes(), []byte{1, 0xaa}) {
		fail("%x %v", b.Bytes(), err)
	}
}
''')

seed('c21-array-struct', 'C21', (DEC, '''				err = dec.Decode(pv.Interface())
			} else {
				err = dec.Decode(pv.Addr().Interface())
			}
			if err != nil {
				break
			}
		}

	// maps''', '''				err = dec.Decode(pv.Interface())
			} else if pv.Kind() == reflect.Struct {
				err = dec.DecodeValue(pv)
			} else {
				err = dec.Decode(pv.Addr().Interface())
			}
			if err != nil {
				break
			}
		}

	// maps'''),
'a hook that claims a struct type, and a fixed array of it', 'the elements are not offered to the hook',
FAIL + '''
type point struct{ X uint8 }

func main() {
	d := chain.NewCustomDecoder(bytes.NewReader([]byte{1}), func(d *abi.Decoder, v interface{}) (bool, error) {
		if p, ok := v.(*point); ok {
			b, err := d.ReadByte()
			p.X = b + 100
			return true, err
		}
		return false, nil
	})
	var p [1]point
	if err := d.Decode(&p); err != nil || p[0].X != 101 {
		fail("%v %v", p, err)
	}
}
''')

seed('c21-done-err', 'C21', (C + 'encoding.go', '''		done, err = fn(dec, v)
		if !done && err == nil {
''', '''		done, err = fn(dec, v)
		if !done {
'''),
'a decoding hook that returns an error without claiming the value', 'the error is dropped',
FAIL + '''
func main() {
	d := chain.NewCustomDecoder(bytes.NewReader(make([]byte, 8)), func(d *abi.Decoder, v interface{}) (bool, error) {
		return false, errors.New("no")
	})
	var n chain.Name
	if err := d.Decode(&n); err == nil {
		fail("no error")
	}
}
''')

seed('c22-nil', 'C22', ('pkg/codegen/codegen.go', '''	{{- if not .IsOptional }} else {
		return errors.New("encountered nil for non-optional field: {{ .Name }}")
	}
	{{- end -}}
''', ''''''),
'a nil pointer in a field that is not optional', 'the generated code leaves the field out instead of reporting an error',
FAIL + '''
type rec struct {
	A *uint8
}

func main() {
	if !strings.Contains(codegen.GenUnmarshalFn(rec{}), "encountered nil") {
		fail("no error for nil")
	}
}
''')

seed('c22-varint', 'C22', ('pkg/codegen/codegen.go', '''		case "int":
			f.Method = "Varint"
		case "uint":
			f.Method = "Varuint"
''', '''		case "int":
			f.Method = "Varint"
			if f.IsSlice {
				f.Method = ""
			}
		case "uint":
			f.Method = "Varuint"
'''),
'a struct with a slice of int', 'the generated code does not compile',
FAIL + '''
type rec struct {
	A []int
}

func main() {
	if !strings.Contains(codegen.GenUnmarshalFn(rec{}), "Varint(") {
		fail("no varint")
	}
}
''')
