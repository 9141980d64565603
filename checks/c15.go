package checks

import (
	"bytes"
	"encoding"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"verif/mcx"
	"verif/ref"

	"github.com/greymass/go-eosio/pkg/chain"
)

func init() {
	register(&Check{
		ID: "C15", Level: "exploration",
		Rule:   "every byte string of the domain is formatted and parsed back, every text of the domain is parsed into destinations holding every prior value of the alphabet and compared with an independent hex / base64 reader: the exact bytes, or an error with the destination unchanged. For every other text-parsable type all single edits of valid texts and all short texts are parsed into every prior value: either an error and no change, or the same as into a fresh destination. A case is non-trivial if the text is not empty.",
		Bounds: "byte strings: all of length <=2, every byte value at every position of lengths <=40, all lengths to 700; texts: all strings over all 256 bytes to length 2 (quick) / 3 (thorough), over 12-16 letter alphabets to length 5 / 6, all single edits with all 256 bytes of valid texts, all lengths to 2n+8 for fixed-size types.",
		Run:    runC15,
	})
}

// refHex reads hex text of any even length.
func refHex(s string) ([]byte, bool) {
	if len(s)%2 != 0 {
		return nil, false
	}
	out := []byte{}
	for i := 0; i < len(s); i++ {
		k := strings.IndexByte("0123456789abcdef", s[i]|0x20)
		if s[i] < 0x40 {
			k = strings.IndexByte("0123456789", s[i])
		}
		if k < 0 {
			return nil, false
		}
		if i%2 == 0 {
			out = append(out, byte(k)<<4)
		} else {
			out[i/2] |= byte(k)
		}
	}
	return out, true
}

const b64Letters = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"

func ref64Text(b []byte, pad bool) string {
	var sb strings.Builder
	for i := 0; i < len(b); i += 3 {
		var v uint32
		k := 0
		for ; k < 3 && i+k < len(b); k++ {
			v |= uint32(b[i+k]) << (16 - 8*k)
		}
		for j := 0; j < 4; j++ {
			if j <= k {
				sb.WriteByte(b64Letters[v>>(18-6*j)&63])
			} else if pad {
				sb.WriteByte('=')
			}
		}
	}
	return sb.String()
}

// ref64 reads base64: must says that the text has to be accepted, may that it can be.
func ref64(s string) (out []byte, must, may bool) {
	plain := strings.NewReplacer("\r", "", "\n", "").Replace(s)
	body := strings.TrimRight(plain, "=")
	pad := len(plain) - len(body)
	var acc uint32
	bits := 0
	out = []byte{}
	for i := 0; i < len(body); i++ {
		k := strings.IndexByte(b64Letters, body[i])
		if k < 0 {
			return nil, false, false
		}
		acc = acc<<6 | uint32(k)
		bits += 6
		if bits >= 8 {
			bits -= 8
			out = append(out, byte(acc>>bits))
			acc &= 1<<bits - 1
		}
	}
	if len(body)%4 == 1 || pad > 2 || body == "" && pad > 0 {
		return nil, false, false
	}
	must = acc == 0 && plain == s && (pad == 0 || len(plain)%4 == 0)
	return out, must, true
}

// textDest parses text into a destination of type t holding prior and reports the outcome.
func textDest(t reflect.Type, prior reflect.Value, text string) (reflect.Value, error) {
	p := reflect.New(t)
	if prior.IsValid() {
		p.Elem().Set(ref.Clone(prior))
	}
	var err error
	switch u := p.Interface().(type) {
	case encoding.TextUnmarshaler:
		err = u.UnmarshalText([]byte(text))
	case json.Unmarshaler:
		err = u.UnmarshalJSON([]byte(text))
	default:
		panic("not text-parsable: " + t.String())
	}
	return p.Elem(), err
}

var textTypes = []reflect.Type{
	typeOf[chain.Name](), typeOf[chain.Symbol](), typeOf[chain.SymbolCode](), typeOf[chain.Asset](),
	typeOf[chain.Checksum160](), typeOf[chain.Checksum256](), typeOf[chain.Checksum512](), typeOf[chain.Float128](),
	typeOf[chain.Uint128](), typeOf[chain.Int128](), typeOf[chain.Uint64](), typeOf[chain.BlockNum](),
	typeOf[chain.TimePoint](), typeOf[chain.TimePointSec](), typeOf[chain.BlockTimestamp](),
	typeOf[chain.Bytes](), typeOf[chain.Blob](), typeOf[chain.PublicKey](), typeOf[chain.Signature](),
}

// validTexts gives some valid texts of each text type.
func validTexts(t reflect.Type) []string {
	k1, wa := key(chain.K1, 1), key(chain.WA, 5)
	s1, sw := sig(chain.P1, 1, 1), sig(chain.WA, 3, 2)
	switch t {
	case typeOf[chain.Name]():
		return []string{"eosio.token", "a", "zzzzzzzzzzzzj"}
	case typeOf[chain.Symbol]():
		return []string{"4,EOS", "18,ABCDEFG", "0,A"}
	case typeOf[chain.SymbolCode]():
		return []string{"EOS", "ABCDEFG"}
	case typeOf[chain.Asset]():
		return []string{"1.0000 EOS", "-0.000000000000000001 A", "9223372036854775807 ABCDEFG"}
	case typeOf[chain.Uint128]():
		return []string{"0", "340282366920938463463374607431768211455"}
	case typeOf[chain.Int128]():
		return []string{"-1", "-170141183460469231731687303715884105728"}
	case typeOf[chain.Uint64]():
		return []string{"0", "4294967295", `"18446744073709551615"`}
	case typeOf[chain.BlockNum]():
		return []string{"17", "4294967295", `"9"`}
	case typeOf[chain.TimePoint](), typeOf[chain.BlockTimestamp]():
		return []string{"2020-02-29T23:59:59.500", "2000-01-01T00:00:00.000Z"}
	case typeOf[chain.TimePointSec]():
		return []string{"2020-02-29T23:59:59", "1970-01-01T00:00:00Z"}
	case typeOf[chain.PublicKey]():
		return []string{k1.String(), wa.String(), ref.KeyText("EOS", "", k1.Data)}
	case typeOf[chain.Signature]():
		return []string{s1.String(), sw.String()}
	case typeOf[chain.Bytes]():
		return []string{"", "00", "beefFACE"}
	case typeOf[chain.Blob]():
		return []string{"", "QQ==", "QUI=", "QUJD", "aGVsbG8gd29ybGQ"}
	}
	n := t.Size()
	return []string{fmt.Sprintf("%x", pat(int(n), 3)), strings.ToUpper(fmt.Sprintf("%x", pat(int(n), 8)))}
}

// priors are the earlier contents of a destination.
func priors(t reflect.Type) []reflect.Value {
	out := append([]reflect.Value{}, vals(t)...)
	if t.Kind() == reflect.Slice { // with spare capacity
		b := reflect.MakeSlice(t, 5, 300)
		for i := 0; i < 5; i++ {
			b.Index(i).SetUint(0xA0)
		}
		out = append(out, b)
	}
	return out
}

// textEffect checks one text against every prior value of the destination.
func textEffect(w *mcx.W, t reflect.Type, text string) (got reflect.Value, err error) {
	got, err = textDest(t, reflect.Value{}, text)
	if err != nil && !ref.Eq(got, reflect.Zero(t)) {
		w.Fail("%s: rejected text %q leaves %s in a zero destination", t, text, show(got))
	}
	for _, p := range priors(t) {
		g, e := textDest(t, p, text)
		w.Eval(1)
		if (e == nil) != (err == nil) {
			w.Fail("%s: text %q gives error %v into a fresh destination, %v into one holding %s", t, text, err, e, show(p))
		}
		want := got
		if e != nil {
			want = p
		}
		if !ref.Eq(g, want) {
			w.Fail("%s: text %q (error %v) into a destination holding %s leaves %s", t, clip(fmt.Sprintf("%q", text)), e, show(p), show(g))
		}
	}
	if text != "" {
		w.NonTrivial()
	}
	if err == nil {
		w.Outcome(mcx.Hash([]byte(t.String()), []byte(show(got))))
	}
	return
}

var hexTypes = []reflect.Type{typeOf[chain.Bytes](), typeOf[chain.Checksum160](), typeOf[chain.Checksum256](), typeOf[chain.Checksum512](), typeOf[chain.Float128]()}

func rawBytes(v reflect.Value) []byte {
	switch x := v.Interface().(type) {
	case chain.Float128:
		return x.Data[:]
	case chain.Checksum160:
		return x[:]
	case chain.Checksum256:
		return x[:]
	case chain.Checksum512:
		return x[:]
	}
	return v.Bytes()
}

func fixedLen(t reflect.Type) int {
	if t.Kind() == reflect.Slice {
		return -1
	}
	return int(t.Size())
}

func hexText(w *mcx.W, t reflect.Type, text string) {
	got, err := textEffect(w, t, text)
	want, ok := refHex(text)
	if n := fixedLen(t); n >= 0 && len(want) != n {
		ok = false
	}
	if ok != (err == nil) {
		w.Fail("%s: text %q gives error %v, want accepted=%v", t, text, err, ok)
	}
	if ok && !bytes.Equal(rawBytes(got), want) {
		w.Fail("%s: text %q parsed as %x", t, text, rawBytes(got))
	}
}

func blobText(w *mcx.W, text string) {
	got, err := textEffect(w, typeOf[chain.Blob](), text)
	want, must, may := ref64(text)
	if err == nil && !may || err != nil && must {
		w.Fail("Blob: text %q gives error %v, want accepted=%v", text, err, must)
	}
	if err == nil && !bytes.Equal(got.Bytes(), want) {
		w.Fail("Blob: text %q parsed as %x, want %x", text, got.Bytes(), want)
	}
}

// textForms formats data in every text type that can hold it and parses it back.
func textForms(w *mcx.W, b []byte) {
	hx := fmt.Sprintf("%x", b)
	check := func(what, got, want string) {
		if got != want {
			w.Fail("%s of %x is %q, want %q", what, b, got, want)
		}
	}
	text := func(m encoding.TextMarshaler) string {
		t, err := m.MarshalText()
		if err != nil {
			w.Fail("%T of %x: MarshalText: %v", m, b, err)
		}
		return string(t)
	}
	back := func(t reflect.Type, s string) {
		v, err := textDest(t, reflect.Value{}, s)
		if err != nil || !bytes.Equal(rawBytes(v), b) {
			w.Fail("%s: text %q of %x parses back as %s, %v", t, clip(s), b, show(v), err)
		}
		w.Eval(1)
	}
	check("Bytes.Hex", chain.Bytes(b).Hex(), hx)
	check("Bytes text", text(chain.Bytes(b)), hx)
	back(typeOf[chain.Bytes](), hx)
	back(typeOf[chain.Bytes](), strings.ToUpper(hx))
	b64 := ref64Text(b, true)
	check("Blob.Base64", chain.Blob(b).Base64(), b64)
	check("Blob text", text(chain.Blob(b)), b64)
	back(typeOf[chain.Blob](), b64)
	back(typeOf[chain.Blob](), ref64Text(b, false))
	switch len(b) {
	case 16:
		v := chain.Float128{Data: [16]byte(b)}
		check("Float128 text", text(v), hx)
		back(reflect.TypeOf(v), hx)
	case 20:
		v := chain.Checksum160(b)
		check("Checksum160 text", text(v), hx)
		check("Checksum160 string", v.String(), hx)
		back(reflect.TypeOf(v), hx)
	case 32:
		v := chain.Checksum256(b)
		check("Checksum256 text", text(v), hx)
		check("Checksum256 string", v.String(), hx)
		back(reflect.TypeOf(v), hx)
	case 64:
		v := chain.Checksum512(b)
		check("Checksum512 text", text(v), hx)
		check("Checksum512 string", v.String(), hx)
		back(reflect.TypeOf(v), hx)
	}
	if len(b) > 0 {
		w.NonTrivial()
	}
}

func runC15(r *mcx.Run) {
	n, at := alphaStrings(all256, mcx.Pick(r, 2, 3))
	r.Sweep("all short byte strings", n, func(w *mcx.W, i uint64) { textForms(w, at(i)) })
	lens := []int{3, 4, 5, 7, 15, 16, 17, 20, 31, 32, 33, 40, 63, 64, 65}
	var sum uint64
	for _, l := range lens {
		sum += uint64(l) * 256
	}
	r.Sweep("every byte at every position", sum, func(w *mcx.W, i uint64) {
		for _, l := range lens {
			if i < uint64(l)*256 {
				b := pat(l, byte(l))
				b[i/256] = byte(i)
				textForms(w, b)
				return
			}
			i -= uint64(l) * 256
		}
	})
	r.Sweep("every length", 701*4, func(w *mcx.W, i uint64) {
		b := pat(int(i/4), byte(i%4))
		if i%4 == 0 {
			b = make([]byte, i/4)
		}
		if i%4 == 1 {
			b = bytes.Repeat([]byte{0xff}, int(i/4))
		}
		textForms(w, b)
	})

	// texts
	r.Sweep("short texts of every hex type", n, func(w *mcx.W, i uint64) {
		s := string(at(i))
		for _, t := range hexTypes {
			hexText(w, t, s)
		}
		blobText(w, s)
	})
	overAlphabet(r, "hex alphabet", []byte("019afAFgG:@ /`\x80"), mcx.Pick(r, 4, 5), func(w *mcx.W, s string) { hexText(w, typeOf[chain.Bytes](), s) })
	overAlphabet(r, "base64 alphabet", []byte("AQgz9+/=-_ \n\x00"), mcx.Pick(r, 5, 6), func(w *mcx.W, s string) { blobText(w, s) })
	for _, t := range hexTypes {
		t := t
		m := fixedLen(t)
		if m < 0 {
			m = 33
		}
		r.Sweep("text lengths of "+t.String(), uint64(2*m+9)*7, func(w *mcx.W, i uint64) {
			s := strings.Repeat("5b0c", m+3)[:i/7]
			switch i % 7 { // a foreign character first, last or in the middle
			case 1:
				s = "x" + s
			case 2:
				s += "x"
			case 3:
				s = s[:len(s)/2] + "." + s[len(s)/2:]
			case 4:
				s += "zz"
			case 5:
				if len(s) > 0 {
					s = s[:len(s)-1] + "\xff"
				}
			case 6:
				s = "0x" + s
			}
			hexText(w, t, s)
		})
		for k, v := range validTexts(t) {
			v := v
			r.Sweep(fmt.Sprintf("edits of %s %d", t, k), uint64(len(v)+1), func(w *mcx.W, i uint64) {
				editsAt(v, int(i), all256, func(s string) { hexText(w, t, s) })
			})
		}
	}
	for k, v := range append(validTexts(typeOf[chain.Blob]()), ref64Text(pat(46, 1), true), ref64Text(pat(47, 1), false), ref64Text(pat(48, 9), true)) {
		v := v
		r.Sweep(fmt.Sprintf("edits of blob %d", k), uint64(len(v)+1), func(w *mcx.W, i uint64) {
			editsAt(v, int(i), all256, func(s string) { blobText(w, s) })
			if i == 0 {
				for c := 0; c <= len(v); c++ {
					blobText(w, v[:c])
					blobText(w, v[:c]+"=")
					blobText(w, v[:c]+"==")
					blobText(w, v[:c]+"===")
				}
			}
		})
	}

	// no text-parsable type changes its destination when it rejects a text
	for _, t := range textTypes {
		t := t
		ts := validTexts(t)
		r.Sweep("destination of "+t.String(), uint64(len(ts))*120, func(w *mcx.W, i uint64) {
			v := ts[i/120]
			k := int(i % 120)
			if k > len(v) {
				return
			}
			al := all256
			if len(v) > 12 && !r.Thorough {
				al = []byte("0aAzZ59.,-_ \"=\x00\xff\xc3\n")
			}
			editsAt(v, k, al, func(s string) { textEffect(w, t, s) })
			textEffect(w, t, v[:k])
			textEffect(w, t, v[k:])
			textEffect(w, t, v+v[:k])
		})
		sn, sat := alphaStrings(all256, 1)
		r.Sweep("one-byte texts of "+t.String(), sn, func(w *mcx.W, i uint64) { textEffect(w, t, string(sat(i))) })
		an, aat := alphaStrings([]byte("0A.,-z \""), mcx.Pick(r, 4, 5))
		r.Sweep("short texts of "+t.String(), an, func(w *mcx.W, i uint64) { textEffect(w, t, string(aat(i))) })
	}
	// texts of one type given to every other
	var all []string
	for _, t := range textTypes {
		all = append(all, validTexts(t)...)
	}
	r.Sweep("texts of other types", uint64(len(all)*len(textTypes)), func(w *mcx.W, i uint64) {
		textEffect(w, textTypes[i%uint64(len(textTypes))], all[i/uint64(len(textTypes))])
	})
}

// editsAt gives the single edits of s at position i.
func editsAt(s string, i int, al []byte, f func(string)) {
	for _, c := range al {
		f(s[:i] + string([]byte{c}) + s[i:])
		if i < len(s) && s[i] != c {
			f(s[:i] + string([]byte{c}) + s[i+1:])
		}
	}
	if i < len(s) {
		f(s[:i] + s[i+1:])
	}
	if i+1 < len(s) && s[i] != s[i+1] {
		f(s[:i] + s[i+1:i+2] + s[i:i+1] + s[i+2:])
	}
}
