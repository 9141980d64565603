SEEDS = []
def seed(id, property, edits, needs, breaks, demo, **kw):
    if isinstance(edits, tuple): edits = [edits]
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))

ENC, DEC = 'pkg/abi/encode.go', 'pkg/abi/decode.go'
C = 'pkg/chain/'

FAIL = '''
func fail(f string, a ...interface{}) {
	fmt.Printf(f+"\\n", a...)
	os.Exit(1)
}
'''

seed('c01-rune-len', 'C01', [(ENC, '''	err := enc.WriteVaruint(uint(len(v)))
	if err != nil {
		return err
	}
	return enc.WriteBytes([]byte(v))''', '''	err := enc.WriteVaruint(uint(utf8.RuneCountInString(v)))
	if err != nil {
		return err
	}
	return enc.WriteBytes([]byte(v))'''), (ENC, '''	"reflect"
	"sort"
''', '''	"reflect"
	"sort"
	"unicode/utf8"
''')],
'a string with a character outside ASCII', 'the length prefix counts characters, not bytes',
FAIL + '''
func main() {
	b := new(bytes.Buffer)
	if err := chain.NewEncoder(b).Encode("h\\u00e9llo"); err != nil {
		fail("%v", err)
	}
	var s string
	if err := chain.NewDecoder(b).Decode(&s); err != nil || s != "h\\u00e9llo" {
		fail("%q %v", s, err)
	}
}
''')

seed('c02-map-shared', 'C02', (DEC, '''			for i := 0; i < int(l); i++ {
				// read key
				key := reflect.New(keyType).Elem()
				err = dec.Decode(key.Addr().Interface())
				if err != nil {
					break
				}
				// read value
				value := reflect.New(valueType).Elem()
				err''', '''			key := reflect.New(keyType).Elem()
			value := reflect.New(valueType).Elem()
			for i := 0; i < int(l); i++ {
				// read key
				err = dec.Decode(key.Addr().Interface())
				if err != nil {
					break
				}
				// read value
				err'''),
'a map with two entries whose values are slices of the same length', 'the slices of all entries share one backing array, so earlier entries get the elements of later ones',
FAIL + '''
func main() {
	b := new(bytes.Buffer)
	v := map[string][]uint16{"a": {1, 2}, "b": {3, 4}}
	if err := chain.NewEncoder(b).Encode(v); err != nil {
		fail("%v", err)
	}
	var r map[string][]uint16
	if err := chain.NewDecoder(b).Decode(&r); err != nil || !reflect.DeepEqual(v, r) {
		fail("%v %v", r, err)
	}
}
''')

seed('c03-delay16', 'C03', (C + 'transaction.go', 'e.WriteVaruint(uint(txh.DelaySec))', 'e.WriteVaruint(uint(uint16(txh.DelaySec)))'),
'a transaction delayed by 65536 seconds or more', 'the delay is written modulo 2^16',
FAIL + '''
func main() {
	b := new(bytes.Buffer)
	h := chain.TransactionHeader{DelaySec: 100000}
	if err := chain.NewEncoder(b).Encode(h); err != nil {
		fail("%v", err)
	}
	var r chain.TransactionHeader
	if err := chain.NewDecoder(b).Decode(&r); err != nil || r != h {
		fail("%v %v", r, err)
	}
}
''')

seed('c03-rpid', 'C03', (C + 'public_key.go', '''		tmp := make([]byte, binary.MaxVarintLen32)
		n := binary.PutUvarint(tmp, uint64(l))
		data = append(data, tmp[:n]...)
''', '''		data = binary.LittleEndian.AppendUint16(data, uint16(l))[:len(data)+1]
'''),
'a WebAuthn key whose relying party id has 128 or more bytes', 'the length of the id is stored as one byte instead of LEB128, so the key encodes to other bytes',
FAIL + '''
func main() {
	w := append(append(append([]byte{2}, make([]byte, 34)...), 0xc8, 0x01), bytes.Repeat([]byte("x"), 200)...)
	var k chain.PublicKey
	if err := chain.NewDecoder(bytes.NewReader(w)).Decode(&k); err != nil {
		fail("%v", err)
	}
	b := new(bytes.Buffer)
	if err := chain.NewEncoder(b).Encode(k); err != nil || !bytes.Equal(b.Bytes(), w) {
		fail("re-encoded differs %v", err)
	}
}
''')

seed('c04-variant-base', 'C04', (C + 'abi.go', 'if tt.name == vn {', 'if tt.name == vn || tt.baseName == vn {'),
'a variant that lists uint8[] before uint8', 'values of the alternative uint8 are written with the index of uint8[]',
FAIL + '''
func main() {
	a := chain.Abi{Variants: []chain.AbiVariant{{Name: "v", Types: []string{"string[]", "string"}}}}
	b := new(bytes.Buffer)
	if err := a.Encode(b, "v", []interface{}{"string", "hi"}); err != nil {
		fail("%v", err)
	}
	if hex.EncodeToString(b.Bytes()) != "01026869" {
		fail("%x", b.Bytes())
	}
}
''')

seed('c04-base-order', 'C04', [(C + 'abi.go', '''		for i := len(*cur.fields) - 1; i >= 0; i-- {
			// append to front
			rv = append([]*struct {
				name string
				typ  *resolvedType
			}{
				{
					name: (*cur.fields)[i].name,
					typ:  (*cur.fields)[i].typ,
				},
			}, rv...)
		}
''', '''		if cur == rt || cur == rt.base {
			// the common case, no deeper bases yet
			rv = append(append(rv[:0:0], *cur.fields...), rv...)
		} else {
			n := len(*rt.base.fields)
			rv = append(append(append(rv[:0:0], rv[:n]...), *cur.fields...), rv[n:]...)
		}
''')],
'a struct with at least two levels of bases', 'the fields of the outermost base do not come first',
FAIL + '''
func main() {
	a := chain.Abi{Structs: []chain.AbiStruct{
		{Name: "a", Fields: []chain.AbiField{{Name: "x", Type: "uint8"}}},
		{Name: "b", Base: "a", Fields: []chain.AbiField{{Name: "y", Type: "uint8"}}},
		{Name: "c", Base: "b", Fields: []chain.AbiField{{Name: "z", Type: "uint8"}}},
	}}
	b := new(bytes.Buffer)
	if err := a.Encode(b, "c", map[string]interface{}{"x": uint8(1), "y": uint8(2), "z": uint8(3)}); err != nil {
		fail("%v", err)
	}
	if !bytes.Equal(b.Bytes(), []byte{1, 2, 3}) {
		fail("%x", b.Bytes())
	}
}
''')

seed('c05-client-json', 'C05', [(C + 'signature.go', '''		_, cd, err := d.ReadBytes(int(cl)) // client_json
		if err != nil {
			return err
		}
''', '''		_, cd, err := d.ReadBytes(int(cl)) // client_json
		if err != nil && err != io.EOF {
			return err
		}
'''), (C + 'signature.go', '''	"fmt"

''', '''	"fmt"
	"io"

''')],
'a WebAuthn signature cut off exactly before its client JSON', 'the truncated signature is accepted with a JSON of zero bytes',
FAIL + '''
func main() {
	w := append(append([]byte{2}, make([]byte, 65)...), 0, 5)
	var s chain.Signature
	if err := chain.NewDecoder(bytes.NewReader(w)).Decode(&s); err == nil {
		fail("truncated signature accepted")
	}
}
''')

seed('c06-variant-idx', 'C06', (DEC, 'if int(vIdx) >= ptrValue.NumField() {', 'if int(vIdx) > ptrValue.NumField() {'),
'a variant index equal to the number of alternatives', 'decoding panics',
FAIL + '''
type V struct{ A, B *uint8 }
type S struct {
	V V `eosio:"variant"`
}

func main() {
	defer func() {
		if r := recover(); r != nil {
			fail("panic %v", r)
		}
	}()
	var s S
	if err := chain.NewDecoder(bytes.NewReader([]byte{2, 0})).Decode(&s); err == nil {
		fail("accepted")
	}
}
''')

seed('c06-circular-base', 'C06', (C + 'abi.go', '''		if seen[cur.name] {
			return nil // circular reference
		}
		for i :=''', '''		if seen[cur.name] && cur == rt {
			return nil // circular reference
		}
		for i :='''),
'an ABI whose struct inherits from a struct that is its own base', 'decoding never ends and eats memory',
FAIL + '''
func main() {
	debug.SetMemoryLimit(1 << 28)
	a := chain.Abi{Structs: []chain.AbiStruct{{Name: "a", Base: "b"}, {Name: "b", Base: "b", Fields: []chain.AbiField{{Name: "x", Type: "uint8"}}}}}
	done := make(chan bool)
	go func() {
		a.Decode(bytes.NewReader([]byte{1, 2, 3}), "a")
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(time.Second * 3):
		fail("hangs")
	}
}
''')

seed('c06-rpid-alloc', 'C06', (C + 'public_key.go', '''		_, rpid, err := d.ReadBytes(int(l))
		if err != nil {
			return err
		}
		tmp := make([]byte, binary.MaxVarintLen32)
		n := binary.PutUvarint(tmp, uint64(l))
		data = append(data, tmp[:n]...)
		data = append(data, rpid...)
		pk.Data = data
''', '''		buf := make([]byte, 34+binary.MaxVarintLen32, 34+binary.MaxVarintLen32+int(l))
		copy(buf, data)
		n := binary.PutUvarint(buf[34:], uint64(l))
		_, rpid, err := d.ReadBytes(int(l))
		if err != nil {
			return err
		}
		pk.Data = append(buf[:34+n], rpid...)
'''),
'a WebAuthn key that claims a relying party id of gigabytes', 'memory is allocated for the claimed length before anything is read',
FAIL + '''
func main() {
	w := append(append([]byte{2}, make([]byte, 34)...), 0xff, 0xff, 0xff, 0x7f)
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	var k chain.PublicKey
	err := chain.NewDecoder(bytes.NewReader(w)).Decode(&k)
	runtime.ReadMemStats(&m1)
	if err == nil || m1.TotalAlloc-m0.TotalAlloc > 1<<24 {
		fail("%v, %d bytes allocated", err, m1.TotalAlloc-m0.TotalAlloc)
	}
}
''')

WR = '''
type once struct {
	at, n int
	buf   bytes.Buffer
}

func (o *once) Write(p []byte) (int, error) {
	o.n++
	if o.n == o.at {
		return 0, errors.New("disk full")
	}
	return o.buf.Write(p)
}
'''
seed('c07-cfa-len', 'C07', (C + 'transaction.go', '''	l := uint(len(tx.ContextFreeActions))
	err = e.WriteVaruint(l)
	if err != nil {
		return err
	}
	for''', '''	l := uint(len(tx.ContextFreeActions))
	err = e.WriteVaruint(l)
	for'''),
'one write that fails transiently at the count of context free actions', 'the failure is overwritten and the transaction is written without that count',
FAIL + WR + '''
func main() {
	full := &once{}
	var tx chain.Transaction
	chain.NewEncoder(full).Encode(tx)
	for i := 1; i <= full.n; i++ {
		if err := chain.NewEncoder(&once{at: i}).Encode(tx); err == nil {
			fail("write %d failed silently", i)
		}
	}
}
''')

seed('c07-array-shadow', 'C07', (C + 'abi.go', '''			err = a.encodeInner(enc, t, e)
			if err != nil {
				return err
			}
''', '''			if err = a.encodeInner(enc, t, e); err != nil {
				break
			}
'''),
'a write failure (or bad element) inside an array of an ABI-driven value', 'the error is assigned to a shadowed variable and lost',
FAIL + WR + '''
func main() {
	a := chain.Abi{}
	v := []interface{}{uint8(1), uint8(2)}
	full := &once{}
	a.Encode(full, "uint8[]", v)
	for i := 1; i <= full.n; i++ {
		if err := a.Encode(&once{at: i}, "uint8[]", v); err == nil {
			fail("write %d failed silently", i)
		}
	}
}
''')

seed('c07-readbyte', 'C07', (DEC, '''	_, b, err := dec.ReadBytes(1)
	if err != nil {
		return 0, err
	}
	return b[0], nil''', '''	var b [1]byte
	n, err := dec.r.Read(b[:])
	dec.pos += int64(n)
	if n == 0 && err != nil {
		return 0, err
	}
	return b[0], nil'''),
'a reader that returns zero bytes without an error', 'the empty read is taken for a zero byte',
FAIL + '''
type lazy struct {
	r    io.Reader
	skip bool
}

func (l *lazy) Read(p []byte) (int, error) {
	l.skip = !l.skip
	if l.skip {
		return 0, nil
	}
	return l.r.Read(p)
}

func main() {
	var v uint8
	if err := chain.NewDecoder(&lazy{r: bytes.NewReader([]byte{42})}).Decode(&v); err != nil || v != 42 {
		fail("%v %v", v, err)
	}
}
''')

seed('c09-precision-wrap', 'C09', (C + 'symbol.go', 'precision, err := strconv.ParseInt(p[0], 10, 8)', 'precision, err := strconv.Atoi(p[0])'),
'a symbol text with precision 256 or more, or below -237', 'the precision is taken modulo 256 instead of rejected',
FAIL + '''
func main() {
	if s, err := chain.NewSymbolFromString("260,EOS"); err == nil {
		fail("accepted as %s", s)
	}
}
''')

seed('c09-point-minus', 'C09', [(C + 'asset.go', '''	for i, c := range p[0] {''', '''	for _, c := range p[0] {'''), (C + 'asset.go', "if c == '-' && i == 0 {", "if c == '-' && builder.Len() == 1 {")],
'an asset text with a point before the minus', '".-5 EOS" is accepted as an amount',
FAIL + '''
func main() {
	if a, err := chain.NewAssetFromString(".-5 EOS"); err == nil {
		fail("accepted as %s", a)
	}
}
''')

seed('c10-base0', 'C10', (C + 'numbers.go', 'return strconv.ParseUint(s, 10, 64)', 'return strconv.ParseUint(s, 0, 64)'),
'a quoted integer with a leading zero, base prefix or underscore', 'the digits are read in another base',
FAIL + '''
func main() {
	var v chain.Uint64
	if err := json.Unmarshal([]byte(`"0x10"`), &v); err == nil {
		fail("0x10 accepted as %d", v)
	}
	if err := json.Unmarshal([]byte(`"010"`), &v); err == nil && v != 10 {
		fail("010 read as %d", v)
	}
}
''')

seed('c11-nano', 'C11', (C + 'time.go', 'return TimePoint(t.UnixMicro())', 'return TimePoint(t.UnixNano() / 1000)'),
'a time before 1678 or after 2262', 'the nanoseconds overflow and the time wraps',
FAIL + '''
func main() {
	tp, err := chain.NewTimePointFromString("2300-01-01T00:00:00.000")
	if err != nil || tp.String() != "2300-01-01T00:00:00.000" {
		fail("%s %v", tp, err)
	}
}
''')

seed('c11-local', 'C11', (C + 'time.go', '''	t, err := time.Parse(TimePointSecFormat, s)''', '''	t, err := time.ParseInLocation(TimePointSecFormat, s, time.Local)'''),
'a local time zone other than UTC', 'second timestamps are parsed in the local time zone',
FAIL + '''
func main() {
	time.Local = time.FixedZone("x", 3600)
	tp, err := chain.NewTimePointSecFromString("2020-01-01T00:00:00")
	if err != nil || tp.String() != "2020-01-01T00:00:00" {
		fail("%s %v", tp, err)
	}
}
''')

seed('c12-cksum3', 'C12', ('pkg/base58/base58check.go', '''	if checksumEosio(decoded[:len(decoded)-4], []byte(suffix)) != cksum {
		return nil, ErrChecksum''', '''	if sum := checksumEosio(decoded[:len(decoded)-4], []byte(suffix)); string(sum[:3]) != string(cksum[:3]) {
		return nil, ErrChecksum'''),
'a key text whose last characters are altered so that only the last checksum byte differs', 'the corrupted text is accepted',
FAIL + '''
func main() {
	k := chain.NewPublicKey(chain.K1, append([]byte{2}, make([]byte, 32)...))
	s := k.String()
	for _, c := range "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz" {
		t := s[:len(s)-1] + string(c)
		if _, err := chain.NewPublicKeyFromString(t); err == nil && t != s {
			fail("%s accepted", t)
		}
	}
}
''')

seed('c15-reuse', 'C15', (C + 'bytes.go', '''	data := make([]byte, hex.DecodedLen(len(text)))
''', '''	data := *b
	if n := hex.DecodedLen(len(text)); cap(data) >= n {
		data = data[:n]
	} else {
		data = make([]byte, n)
	}
'''),
'an invalid hex text parsed into a value that already holds as many bytes', 'the rejected text overwrites the old value up to the bad character',
FAIL + '''
func main() {
	b := chain.Bytes{1, 2, 3}
	if err := b.UnmarshalText([]byte("ffffzz")); err == nil || !bytes.Equal(b, []byte{1, 2, 3}) {
		fail("%v %x", err, []byte(b))
	}
}
''')

seed('c17-spare-capacity', 'C17', ('pkg/base58/base58check.go', '''	b := make([]byte, 0, len(input)+4)
	b = append(b, input[:]...)
	cksum := checksumEosio(b, []byte(suffix))
	b = append(b, cksum[:]...)
	return Encode(b)''', '''	cksum := checksumEosio(input, []byte(suffix))
	return Encode(append(input, cksum[:]...))'''),
'key data that is a slice of a larger buffer', 'formatting the key overwrites the four bytes behind it',
FAIL + '''
func main() {
	buf := make([]byte, 37)
	buf[0] = 2
	_ = chain.NewPublicKey(chain.K1, buf[:33]).String()
	if !bytes.Equal(buf[33:], make([]byte, 4)) {
		fail("%x", buf[33:])
	}
}
''')

seed('c18-scratch-global', 'C18', [('pkg/base58/base58.go', '''	answer := big.NewInt(0)
	scratch := new(big.Int)
''', '''	answer := big.NewInt(0)
'''), ('pkg/base58/base58.go', '''// Decode decodes a modified base58 string to a byte slice.
func''', '''// reused between calls to save allocations
var scratch = new(big.Int)

// Decode decodes a modified base58 string to a byte slice.
func''')],
'two goroutines that parse keys at the same time', 'the goroutines overwrite each other\'s scratch integer: data race, wrong digits',
FAIL + '''
func main() {
	b := make([]byte, 40)
	for i := range b {
		b[i] = byte(i * 7)
	}
	s := base58.Encode(b)
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 20000; i++ {
				if !bytes.Equal(base58.Decode(s), b) {
					fail("wrong result")
				}
			}
		}()
	}
	wg.Wait()
}
''', race=True)

seed('c18-action-cache', 'C18', [(C + 'abi.go', '''	act := a.GetAction(name)
	if act == nil {
		return nil, fmt.Errorf("unknown action %v", name)
	}
	return a.Decode(r, act.Type)''', '''	lastAction.Lock()
	defer lastAction.Unlock()
	if lastAction.version != a.Version || lastAction.name != name || lastAction.act == nil {
		lastAction.version, lastAction.name, lastAction.act = a.Version, name, a.GetAction(name)
	}
	if lastAction.act == nil {
		return nil, fmt.Errorf("unknown action %v", name)
	}
	return a.Decode(r, lastAction.act.Type)'''), (C + 'abi.go', '''func (a Abi) DecodeAction(''', '''// most recently decoded action
var lastAction struct {
	sync.Mutex
	version string
	name    Name
	act     *AbiAction
}

// Decode data of given action.
func (a Abi) DecodeAction('''), (C + 'abi.go', '''	"reflect"
	"strings"
''', '''	"reflect"
	"strings"
	"sync"
''')],
'decoding actions of the same name with two different ABIs in a row', 'the type registered by the first ABI is used for the second',
FAIL + '''
func main() {
	a := chain.Abi{Actions: []chain.AbiAction{{Name: chain.N("x"), Type: "uint8"}}}
	b := chain.Abi{Actions: []chain.AbiAction{{Name: chain.N("x"), Type: "uint16"}}}
	a.DecodeAction(bytes.NewReader([]byte{1, 2}), chain.N("x"))
	v, err := b.DecodeAction(bytes.NewReader([]byte{1, 2}), chain.N("x"))
	if err != nil || v != uint16(513) {
		fail("%v %v", v, err)
	}
}
''')

seed('c19-map-fast', 'C19', [(ENC, '''		err = enc.EncodeValue(reflect.ValueOf(v))
	}

	return err
}
''', '''		rv := reflect.ValueOf(v)
		if rv.Kind() == reflect.Map && rv.Len() > 0 && rv.Type().Elem().Kind() == reflect.String {
			err = enc.encodeStringMap(rv)
		} else {
			err = enc.EncodeValue(rv)
		}
	}

	return err
}

// maps of strings need no buffering
func (enc *Encoder) encodeStringMap(m reflect.Value) error {
	if err := enc.WriteVaruint(uint(m.Len())); err != nil {
		return err
	}
	for it := m.MapRange(); it.Next(); {
		if err := enc.Encode(it.Key().Interface()); err != nil {
			return err
		}
		if err := enc.Encode(it.Value().Interface()); err != nil {
			return err
		}
	}
	return nil
}
''')],
'a map with string values and more than one entry, and an unlucky iteration order', 'equal maps encode to different bytes',
FAIL + '''
func main() {
	m := map[uint8]string{}
	for i := 0; i < 8; i++ {
		m[uint8(i)] = "x"
	}
	var first []byte
	for i := 0; i < 200; i++ {
		b := new(bytes.Buffer)
		if err := chain.NewEncoder(b).Encode(m); err != nil {
			fail("%v", err)
		}
		if i == 0 {
			first = b.Bytes()
		} else if !bytes.Equal(first, b.Bytes()) {
			fail("differs")
		}
	}
}
''')

seed('c20-omitempty', 'C20', (C + 'transaction.go', '''	MaxCpuUsageMs    uint8        `json:"max_cpu_usage_ms"`''', '''	MaxCpuUsageMs    uint8        `json:"max_cpu_usage_ms,omitempty"`'''),
'a transaction with max_cpu_usage_ms 0 unmarshalled over an earlier one or read by another tool', 'the field is missing from the JSON',
FAIL + '''
func main() {
	b, err := json.Marshal(chain.Transaction{})
	if err != nil || !strings.Contains(string(b), "max_cpu_usage_ms") {
		fail("%s %v", b, err)
	}
}
''')

seed('c21-hook-error', 'C21', (C + 'encoding.go', '''		done, err = fn(enc, v)
		if !done && err == nil {''', '''		done, err = fn(enc, v)
		if !done {'''),
'an encode hook that returns an error for a chain type without claiming it', 'the error is dropped and the value encoded',
FAIL + '''
func main() {
	hook := func(enc *abi.Encoder, v interface{}) (bool, error) {
		if _, ok := v.(chain.Name); ok {
			return false, errors.New("no names please")
		}
		return false, nil
	}
	if err := chain.NewCustomEncoder(new(bytes.Buffer), hook).Encode(chain.N("a")); err == nil {
		fail("error lost")
	}
}
''')

seed('c22-arraylen', 'C22', [('pkg/codegen/codegen.go', '''					f.ArrayLen, _ = strconv.Atoi(f.Type[1:j])''', '''					n, _ := strconv.ParseInt(f.Type[1:j], 8, 0)
					f.ArrayLen = int(n)''')],
'a struct with a fixed array of 8 or more elements', 'the generated code handles the wrong number of elements',
FAIL + '''
type S struct {
	A [12]uint8
}

func main() {
	if c := codegen.GenUnmarshalFn(S{}); !strings.Contains(c, "< 12;") {
		fail("%s", c)
	}
}
''')

seed('c01-negzero', 'C01', (ENC, '''	return enc.WriteUint64(math.Float64bits(v))''',
'''	bits := math.Float64bits(v)
	if v == 0 {
		bits = 0
	}
	return enc.WriteUint64(bits)'''),
'a float64 field holding negative zero', 'the IEEE-754 sign of negative zero is lost on the wire',
FAIL + '''
func main() {
	b := new(bytes.Buffer)
	v := math.Copysign(0, -1)
	if err := chain.NewEncoder(b).Encode(v); err != nil {
		fail("%v", err)
	}
	if hex.EncodeToString(b.Bytes()) != "0000000000000080" {
		fail("-0 encodes as %x", b.Bytes())
	}
}
''')

seed('c02-optional-zero', 'C02', (ENC, 'exists := !v.Field(i).IsZero()', 'exists := !v.Field(i).IsZero() && !reflect.Indirect(v.Field(i)).IsZero()'),
'an optional pointer to a zero value', 'the present value is encoded as absent',
FAIL + '''
type S struct {
	A *uint8 `eosio:"optional"`
}

func main() {
	b := new(bytes.Buffer)
	if err := chain.NewEncoder(b).Encode(S{new(uint8)}); err != nil || !bytes.Equal(b.Bytes(), []byte{1, 0}) {
		fail("%x %v", b.Bytes(), err)
	}
}
''')

seed('c05-u128-half', 'C05', [(C + 'numbers.go', '''	hi, err := d.ReadUint64()
	if err == nil {
		*u128 = Uint128{Lo: lo, Hi: hi}
	}
	return err''', '''	hi, err := d.ReadUint64()
	if err == nil || err == io.EOF {
		// the upper half can be left out
		*u128 = Uint128{Lo: lo, Hi: hi}
		return nil
	}
	return err'''), (C + 'numbers.go', '''	"fmt"
	"math"
''', '''	"fmt"
	"io"
	"math"
''')],
'input that ends exactly in the middle of a 128-bit integer', 'the truncated integer is accepted with a zero upper half',
FAIL + '''
func main() {
	var v chain.Uint128
	if err := chain.NewDecoder(bytes.NewReader(make([]byte, 8))).Decode(&v); err == nil {
		fail("truncated uint128 accepted")
	}
}
''')

seed('c08-digits', 'C08', (C + 'name.go', "if c >= '1' && c <= '5' {", "if c >= '1' && c <= '6' {"),
'a text with the digit 6', 'the digit 6 counts as the letter a instead of a dot',
FAIL + '''
func main() {
	if a, b := chain.N("ab6c0"), chain.N("ab.c."); a != b {
		fail("%s %s", a, b)
	}
}
''')

seed('c08-trim', 'C08', [(C + 'name.go', 'new := NewName(string(text))', 'new := NewName(strings.Trim(string(text), "."))'), (C + 'name.go', '''import "github.com/greymass/go-eosio/pkg/abi"
''', '''import (
	"strings"

	"github.com/greymass/go-eosio/pkg/abi"
)
''')],
'a name that starts with a dot, read from text or JSON', 'the leading dot is dropped and another account results',
FAIL + '''
func main() {
	var n chain.Name
	if err := json.Unmarshal([]byte(`".a"`), &n); err != nil || n != chain.N(".a") || n.String() != ".a" {
		fail("%s %v", n, err)
	}
}
''')

seed('c12-r1-alias', 'C12', (C + 'signature.go', 'case "P1":', 'case "P1", "R1":'),
'a signature text whose tag is changed from P1 to R1', 'the changed tag is accepted although the checksum does not cover it',
FAIL + '''
func main() {
	s := chain.NewSignature(chain.P1, make([]byte, 65)).String()
	if _, err := chain.NewSignatureString("SIG_R1" + s[6:]); err == nil {
		fail("accepted")
	}
}
''')

seed('c13-zero-chunk', 'C13', ('pkg/base58/base58.go', '''		answer.Mul(answer, bigRadix[n])
		scratch.SetUint64(total)
		answer.Add(answer, scratch)
''', '''		if total > 0 {
			answer.Mul(answer, bigRadix[n])
			scratch.SetUint64(total)
			answer.Add(answer, scratch)
		}
'''),
'a base58 text with ten zero digits in a row, aligned to ten from the left', 'these digits are skipped',
FAIL + '''
func main() {
	n := new(big.Int).Exp(big.NewInt(58), big.NewInt(19), nil)
	b := n.Bytes()
	if s := base58.Encode(b); !bytes.Equal(base58.Decode(s), b) {
		fail("%s %x", s, base58.Decode(s))
	}
}
''')

seed('c14-count32', 'C14', [('pkg/ripemd160/ripemd160.go', 'tc uint64          // total', 'tc uint32          // total'), ('pkg/ripemd160/ripemd160.go', 'd.tc += uint64(nn)', 'd.tc += uint32(nn)')],
'a message of 512 MiB or more', 'the bit count in the padding overflows',
FAIL + '''
func main() {
	// both lengths are 0 modulo 2^32 bits, the digests of 0 and 2^29 bytes with an overflowing count share the padding block
	h := ripemd160.New()
	b := make([]byte, 1<<20)
	for i := 0; i < 512; i++ {
		h.Write(b)
	}
	if s := hex.EncodeToString(h.Sum(nil)); s != "a9d34a6e516f2aa5723f5c3b829180dce1da3fbb" {
		fail("%s", s)
	}
}
''')

seed('c16-extension', 'C16', (DEC, '''					// TODO: make sure extensions are only last field in a top-level struct
					pv.Set(reflect.Zero(pv.Type()))
''', '''					// TODO: make sure extensions are only last field in a top-level struct
					if pv.Kind() == reflect.Ptr {
						pv.Set(reflect.Zero(pv.Type()))
					}
'''),
'an absent extension that is no pointer, decoded into a used destination', 'the old extension value stays',
FAIL + '''
type S struct {
	A uint8
	B chain.Name `eosio:"extension"`
}

func main() {
	s := S{B: 9}
	if err := chain.NewDecoder(bytes.NewReader([]byte{1})).Decode(&s); err != nil || s.B != 0 {
		fail("%v %v", s, err)
	}
}
''')

seed('c17-zero', 'C17', (C + 'numbers.go', '''func (u128 Uint128) BigInt() *big.Int {
	rv := big.NewInt(0)
	rv.SetBytes(u128.Bytes(binary.BigEndian))
	return rv''', '''var zero = big.NewInt(0)

func (u128 Uint128) BigInt() *big.Int {
	rv := zero
	if u128 != (Uint128{}) {
		rv = new(big.Int).SetBytes(u128.Bytes(binary.BigEndian))
	}
	return rv'''),
'changing the big integer obtained from a zero Uint128', 'all zero values share one big integer',
FAIL + '''
func main() {
	a := chain.Uint128{}.BigInt()
	a.SetInt64(5)
	if s := (chain.Uint128{}).String(); s != "0" {
		fail("zero formats as %s", s)
	}
}
''')


seed('c20-key-ptr', 'C20', (C + 'public_key.go', 'func (pk PublicKey) MarshalText() (text []byte, err error) {', 'func (pk *PublicKey) MarshalText() (text []byte, err error) {'),
'a public key that is not addressable: map value, interface, ABI-decoded value', 'it is marshalled as an object instead of its text',
FAIL + '''
func main() {
	b, err := json.Marshal(map[string]interface{}{"a": chain.PublicKey{Data: make([]byte, 33)}})
	if err != nil || !strings.Contains(string(b), "PUB_K1") {
		fail("%s %v", b, err)
	}
}
''')

seed('c18-block-global', 'C18', [('pkg/ripemd160/ripemd160block.go', 'func _Block(md *digest, p []byte) int {\n	n := 0\n	var x [16]uint32\n', '// message words of the current block\nvar x [16]uint32\n\nfunc _Block(md *digest, p []byte) int {\n	n := 0\n')],
'two goroutines hashing at the same time', 'the message words of one block are overwritten by the other: wrong digests, keys rejected',
FAIL + '''
func main() {
	b := make([]byte, 4000)
	want := chain.Checksum160Digest(b)
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		c := bytes.Repeat([]byte{byte(g)}, 4000)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 2000; i++ {
				chain.Checksum160Digest(c)
				if chain.Checksum160Digest(b) != want {
					fail("wrong digest")
				}
			}
		}()
	}
	wg.Wait()
}
''', race=True)
