package checks

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/big"
	"strconv"
	"strings"

	"verif/mcx"
	"verif/ref"

	"github.com/greymass/go-eosio/pkg/chain"
)

func init() {
	register(&Check{
		ID: "C10", Level: "exploration",
		Rule:   "every value of the listed sets is converted with math/big as reference and compared with String, BigInt, Bytes, the parsers, the text, JSON and wire forms; texts are judged by an independent grammar (decimal integer in range; signs on zero, a leading plus and leading zeros may be rejected but never misread). A case is non-trivial if the value is not a single digit.",
		Bounds: "128-bit: all pairs of 74 64-bit words, all 2^k+e for k to 130 and |e|<=40, all d*10^k+e; 64-bit JSON: all 2^k+e, 0..2^20 (quick) / 2^24 (thorough), all values within 2^12 of 2^32, 2^53, 2^63 and 2^64; texts: all strings over 9 characters to length 7 (quick) / 8 (thorough) parsed as each type, single-character edits of boundary texts with all 256 bytes.",
		Run:    runC10,
	})
}

var (
	two64  = new(big.Int).Lsh(big.NewInt(1), 64)
	two127 = new(big.Int).Lsh(big.NewInt(1), 127)
	two128 = new(big.Int).Lsh(big.NewInt(1), 128)
)

func words64() []uint64 {
	var ws []uint64
	for k := 0; k < 64; k += 4 {
		ws = append(ws, 1<<k, 1<<k-1, ^(uint64(1) << k), ^uint64(0)<<k)
	}
	return append(ws, 1<<63, 1<<63-1, 1<<63+1, ^uint64(0), 0x0102030405060708, 0xfedcba9876543210, 10, 1e19, 5e18, 0x5555555555555555)
}

func val128(w *mcx.W, lo, hi uint64) {
	b := new(big.Int).SetUint64(hi)
	b.Lsh(b, 64).Or(b, new(big.Int).SetUint64(lo))
	s := new(big.Int).Set(b)
	if s.Cmp(two127) >= 0 {
		s.Sub(s, two128)
	}
	u, i := chain.Uint128{Lo: lo, Hi: hi}, chain.Int128{Lo: lo, Hi: hi}
	be := b.FillBytes(make([]byte, 16))
	le := append(ref.LE(lo, 8), ref.LE(hi, 8)...)
	if u.BigInt().Cmp(b) != 0 || i.BigInt().Cmp(s) != 0 {
		w.Fail("%x: BigInt gives %v and %v, want %v and %v", be, u.BigInt(), i.BigInt(), b, s)
	}
	if u.String() != b.String() || i.String() != s.String() {
		w.Fail("%x: String gives %v and %v, want %v and %v", be, u, i, b, s)
	}
	if !bytes.Equal(u.Bytes(binary.BigEndian), be) || !bytes.Equal(i.Bytes(binary.BigEndian), be) || !bytes.Equal(u.Bytes(binary.LittleEndian), le) || !bytes.Equal(i.Bytes(binary.LittleEndian), le) {
		w.Fail("%x: Bytes gives %x %x %x %x", be, u.Bytes(binary.BigEndian), i.Bytes(binary.BigEndian), u.Bytes(binary.LittleEndian), i.Bytes(binary.LittleEndian))
	}
	if chain.NewUint128(b) != u || chain.NewInt128(s) != i {
		w.Fail("New*128(%v, %v) gives %v and %v", b, s, chain.NewUint128(b), chain.NewInt128(s))
	}
	pu, e1 := chain.NewUint128FromString(b.String())
	pi, e2 := chain.NewInt128FromString(s.String())
	if e1 != nil || e2 != nil || pu != u || pi != i {
		w.Fail("New*128FromString(%v, %v) gives %v, %v and %v, %v", b, s, pu, e1, pi, e2)
	}
	t1, e1 := u.MarshalText()
	t2, e2 := i.MarshalText()
	if e1 != nil || e2 != nil || string(t1) != b.String() || string(t2) != s.String() {
		w.Fail("%x: MarshalText gives %s, %v and %s, %v", be, t1, e1, t2, e2)
	}
	j1, e1 := json.Marshal(u)
	j2, e2 := json.Marshal(i)
	var ju chain.Uint128
	var ji chain.Int128
	e3, e4 := json.Unmarshal(j1, &ju), json.Unmarshal(j2, &ji)
	if e1 != nil || e2 != nil || e3 != nil || e4 != nil || ju != u || ji != i {
		w.Fail("%x: JSON %s -> %v, %s -> %v", be, j1, ju, j2, ji)
	}
	if string(j1) != `"`+b.String()+`"` || string(j2) != `"`+s.String()+`"` {
		w.Fail("%x: JSON %s and %s", be, j1, j2)
	}
	x, err := codecs[0].encode(&u)
	y, err2 := codecs[0].encode(&i)
	if err != nil || err2 != nil || !bytes.Equal(x, le) || !bytes.Equal(y, le) {
		w.Fail("%x: encoded as %x, %v and %x, %v", be, x, err, y, err2)
	}
	w.Eval(10)
	w.NonTrivial()
	w.Sample(func() string { return b.String() + " / " + s.String() })
}

// big128 checks construction from any big integer, in or out of range.
func big128(w *mcx.W, b *big.Int) {
	s := b.String()
	okU := b.Sign() >= 0 && b.Cmp(two128) < 0
	okI := b.Cmp(two127) < 0 && b.Cmp(new(big.Int).Neg(two127)) >= 0
	var u chain.Uint128
	var i chain.Int128
	if p := panics(func() { u = chain.NewUint128(b) }); p == okU {
		w.Fail("NewUint128(%s): panic %v, value %v", s, p, u)
	}
	if p := panics(func() { i = chain.NewInt128(b) }); p == okI {
		w.Fail("NewInt128(%s): panic %v, value %v", s, p, i)
	}
	if b.String() != s {
		w.Fail("the big integer %s was changed to %v", s, b)
	}
	if okU && u.BigInt().Cmp(b) != 0 || okI && i.BigInt().Cmp(b) != 0 {
		w.Fail("%s becomes %v and %v", s, u, i)
	}
	int128Text(w, s)
	w.Eval(4)
}

// refInt judges a decimal text: in grammar, canonical, value.
func refInt(s string) (n *big.Int, ok, canon bool) {
	d := s
	if len(d) > 0 && (d[0] == '-' || d[0] == '+') {
		d = d[1:]
	}
	if d == "" {
		return
	}
	for i := 0; i < len(d); i++ {
		if d[i] < '0' || d[i] > '9' {
			return
		}
	}
	n = new(big.Int)
	ten := big.NewInt(10)
	for i := 0; i < len(d); i++ {
		n.Mul(n, ten).Add(n, big.NewInt(int64(d[i]-'0')))
	}
	if s[0] == '-' {
		n.Neg(n)
	}
	return n, true, n.String() == s
}

func int128Text(w *mcx.W, s string) {
	n, ok, canon := refInt(s)
	inU := ok && n.Sign() >= 0 && n.Cmp(two128) < 0
	inI := ok && n.Cmp(two127) < 0 && new(big.Int).Neg(n).Cmp(two127) <= 0
	u, err := chain.NewUint128FromString(s)
	switch {
	case err == nil && !inU:
		w.Fail("unsigned 128-bit text %q is accepted as %v", s, u)
	case err != nil && inU && canon:
		w.Fail("unsigned 128-bit text %q is rejected: %v", s, err)
	case err == nil && u.BigInt().Cmp(n) != 0:
		w.Fail("unsigned 128-bit text %q gives %v", s, u)
	}
	i, err2 := chain.NewInt128FromString(s)
	switch {
	case err2 == nil && !inI:
		w.Fail("signed 128-bit text %q is accepted as %v", s, i)
	case err2 != nil && inI && canon:
		w.Fail("signed 128-bit text %q is rejected: %v", s, err2)
	case err2 == nil && i.BigInt().Cmp(n) != 0:
		w.Fail("signed 128-bit text %q gives %v", s, i)
	}
	xu, xi := chain.Uint128{Lo: 5, Hi: 6}, chain.Int128{Lo: 7, Hi: 8}
	ue, ie := xu.UnmarshalText([]byte(s)), xi.UnmarshalText([]byte(s))
	if (ue == nil) != (err == nil) || (ie == nil) != (err2 == nil) || ue == nil && xu != u || ie == nil && xi != i {
		w.Fail("128-bit text %q: UnmarshalText gives %v, %v and %v, %v; the constructors %v, %v and %v, %v", s, xu, ue, xi, ie, u, err, i, err2)
	}
	if len(s) > 1 {
		w.NonTrivial()
	}
	w.Eval(3)
}

func json64(w *mcx.W, v uint64) {
	want := strconv.FormatUint(v, 10)
	quoted := `"` + want + `"`
	if v > 0xffffffff {
		want = quoted
	}
	plain := strings.Trim(want, `"`)
	for k := 0; k < 2; k++ {
		var j []byte
		var err error
		if k == 0 {
			j, err = json.Marshal(chain.Uint64(v))
		} else {
			j, err = json.Marshal(map[string]any{"x": []chain.Uint64{chain.Uint64(v)}})
			j = bytes.TrimSuffix(bytes.TrimPrefix(j, []byte(`{"x":[`)), []byte("]}"))
		}
		if err != nil || string(j) != want {
			w.Fail("Uint64(%d) in JSON is %s, %v, want %s", v, j, err, want)
		}
	}
	for _, s := range []string{plain, quoted} {
		x := chain.Uint64(77)
		if err := json.Unmarshal([]byte(s), &x); err != nil || uint64(x) != v {
			w.Fail("Uint64 from JSON %s is %d, %v", s, uint64(x), err)
		}
		y := struct{ A chain.Uint64 }{78}
		if err := json.Unmarshal([]byte(`{"A": `+s+` }`), &y); err != nil || uint64(y.A) != v {
			w.Fail("Uint64 field from JSON %s is %d, %v", s, uint64(y.A), err)
		}
		n := chain.BlockNum(79)
		err := json.Unmarshal([]byte(s), &n)
		if v <= 0xffffffff && (err != nil || uint64(n) != v) {
			w.Fail("BlockNum from JSON %s is %d, %v", s, uint32(n), err)
		}
		if v > 0xffffffff && err == nil {
			w.Fail("BlockNum from JSON %s is accepted as %d", s, uint32(n))
		}
	}
	if v <= 0xffffffff {
		if j, err := json.Marshal(chain.BlockNum(v)); err != nil || string(j) != want {
			w.Fail("BlockNum(%d) in JSON is %s, %v, want %s", v, j, err, want)
		}
	}
	w.Eval(8)
	if v > 9 {
		w.NonTrivial()
	}
}

// jsonText judges a JSON text given to UnmarshalJSON, directly and inside a document.
func jsonText(w *mcx.W, s string) {
	body := s
	if len(s) >= 2 && s[0] == '"' && s[len(s)-1] == '"' {
		body = s[1 : len(s)-1]
	}
	n, ok, canon := refInt(body)
	in64 := ok && n.Sign() >= 0 && n.Cmp(two64) < 0
	in32 := in64 && n.BitLen() <= 32
	if s == "null" { // an error, or nothing happens
		x, b := chain.Uint64(77), chain.BlockNum(78)
		e1, e2 := x.UnmarshalJSON([]byte(s)), b.UnmarshalJSON([]byte(s))
		if e1 == nil && x != 77 || e2 == nil && b != 78 {
			w.Fail("JSON null gives Uint64 %d, %v and BlockNum %d, %v", uint64(x), e1, uint32(b), e2)
		}
	}
	// an escape sequence or null may be understood, and white space inside the quotes is up to the parser
	skip := strings.ContainsAny(s, "\\") || strings.TrimSpace(s) == "null"
	if !skip {
		x := chain.Uint64(77)
		err := x.UnmarshalJSON([]byte(s))
		if err == nil && (!in64 || uint64(x) != n.Uint64()) || err != nil && in64 && canon {
			w.Fail("Uint64.UnmarshalJSON(%s) gives %d, %v", s, uint64(x), err)
		}
		b := chain.BlockNum(78)
		err = b.UnmarshalJSON([]byte(s))
		if err == nil && (!in32 || uint64(b) != n.Uint64()) || err != nil && in32 && canon {
			w.Fail("BlockNum.UnmarshalJSON(%s) gives %d, %v", s, uint32(b), err)
		}
	}
	var d struct {
		A chain.Uint64
		B chain.BlockNum
	}
	if err := json.Unmarshal([]byte(`{"A":`+s+`}`), &d); err == nil && !skip && json.Valid([]byte(s)) {
		if n2, ok2, _ := refInt(strings.Trim(strings.TrimSpace(s), `"`)); !ok2 || n2.Cmp(new(big.Int).SetUint64(uint64(d.A))) != 0 {
			w.Fail("JSON %s as Uint64 field gives %d", s, uint64(d.A))
		}
	}
	if len(s) > 1 {
		w.NonTrivial()
	}
	w.Eval(2)
}

func runC10(r *mcx.Run) {
	ws := words64()
	n := uint64(len(ws))
	r.Sweep("128-bit word pairs", n*n, func(w *mcx.W, i uint64) { val128(w, ws[i%n], ws[i/n]) })
	r.Sweep("128-bit powers of two", 131*81*2, func(w *mcx.W, i uint64) {
		b := new(big.Int).Lsh(big.NewInt(1), uint(i%131))
		b.Add(b, big.NewInt(int64(i/131%81)-40))
		if i/(131*81) == 1 {
			b.Neg(b)
		}
		big128(w, b)
		if b.Sign() >= 0 && b.Cmp(two128) < 0 {
			val128(w, new(big.Int).Mod(b, two64).Uint64(), new(big.Int).Rsh(b, 64).Uint64())
		}
	})
	r.Sweep("128-bit powers of ten", 42*9*9*2, func(w *mcx.W, i uint64) {
		b := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(i%42)), nil)
		b.Mul(b, big.NewInt(int64(i/42%9)+1)).Add(b, big.NewInt(int64(i/(42*9)%9)-4))
		if i/(42*81) == 1 {
			b.Neg(b)
		}
		big128(w, b)
	})
	sm := mcx.Pick(r, 19, 22)
	r.Sweep("small 128-bit values", 1<<sm, func(w *mcx.W, i uint64) {
		val128(w, i, 0)
		val128(w, -i, ^uint64(0))
		val128(w, 0, i<<(64-sm))
	})
	ln := mcx.Pick(r, 7, 8)
	overAlphabet(r, "128-bit texts", []byte("0179-+ _x"), ln, int128Text)
	seeds := []string{"0", "340282366920938463463374607431768211455", "340282366920938463463374607431768211456", "170141183460469231731687303715884105727", "170141183460469231731687303715884105728", "-170141183460469231731687303715884105728", "-170141183460469231731687303715884105729", "-1", "18446744073709551616"}
	r.Sweep("edits of 128-bit texts", uint64(len(seeds)), func(w *mcx.W, i uint64) {
		int128Text(w, seeds[i])
		edits(seeds[i], all256, func(s string) { int128Text(w, s) })
	})
	r.Sweep("long 128-bit texts", 200, func(w *mcx.W, i uint64) {
		for _, s := range []string{"0", "9", "1", "10"} {
			int128Text(w, strings.Repeat(s, int(i)))
			int128Text(w, "-"+strings.Repeat(s, int(i)))
			int128Text(w, strings.Repeat("0", int(i))+s)
		}
	})

	r.Sweep("64-bit JSON, powers", 64*65*2, func(w *mcx.W, i uint64) {
		v := uint64(1)<<(i%64) + i/64%65 - 32
		if i/(64*65) == 1 {
			v = -v
		}
		json64(w, v)
	})
	r.Sweep("64-bit JSON, small", 1<<mcx.Pick(r, 20, 24), func(w *mcx.W, i uint64) { json64(w, i) })
	for _, c := range []uint64{1 << 32, 1 << 53, 1 << 63, 0} {
		r.Sweep(fmt.Sprintf("64-bit JSON around %#x", c), 1<<13, func(w *mcx.W, i uint64) { json64(w, c+i-1<<12) })
	}
	r.Sweep("64-bit JSON, powers of ten", 20*9*21, func(w *mcx.W, i uint64) {
		v := uint64(1)
		for k := uint64(0); k < i%20; k++ {
			v *= 10
		}
		json64(w, v*(i/20%9+1)+i/180-10)
	})
	overAlphabet(r, "JSON texts", []byte(`019"-.e +`), ln, jsonText)
	overAlphabet(r, "JSON texts 2", []byte("12\"'n_x\n["), mcx.Pick(r, 6, 7), jsonText)
	js := []string{"0", "4294967295", "4294967296", `"4294967296"`, `"4294967295"`, "18446744073709551615", `"18446744073709551615"`, "18446744073709551616", `"18446744073709551616"`, `"0"`, `""`, "1e3", "-1", "true", "false", "null", `"null"`, "{}", "[1]", "36893488147419103233", `"36893488147419103233"`}
	r.Sweep("edits of JSON texts", uint64(len(js)), func(w *mcx.W, i uint64) {
		jsonText(w, js[i])
		edits(js[i], all256, func(s string) { jsonText(w, s) })
	})
}
