package checks

import (
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"

	"verif/mcx"

	"github.com/greymass/go-eosio/pkg/chain"
)

func init() {
	register(&Check{
		ID: "C09", Level: "exploration",
		Rule:   "amount x symbol cases are formatted with big-integer arithmetic and compared with String, MarshalText, FloatValue and the parsers; text cases are judged by an independent grammar: outside it they must be rejected, canonical texts must be accepted with the exact value, other grammatical texts must give the exact value if accepted. A case is non-trivial if the text has at least two characters.",
		Bounds: "amounts: -1100..1100, all d*10^k+e with d in 1..9, |e|<=2, all 2^k+e, the int64 ends, each sign, x 0..18 decimals x 9 codes; out-of-range precisions 19..255 and arbitrary symbol bytes for formatting; texts: all strings over 9 characters to length 7 (quick) / 8 (thorough) in front of and including the code, all (integer digits, fraction digits) pairs to 24 x 21, single-character edits of 40 texts with all 256 bytes; symbols: all texts over 8 characters to length 7 / 8, all codes to 3 letters, every byte at every position of 1..8 letters, all 256 precisions.",
		Run:    runC09,
	})
}

func refAssetText(v int64, dec int, code string) string {
	b := new(big.Int).Abs(big.NewInt(v)).String()
	for len(b) <= dec {
		b = "0" + b
	}
	s := b[:len(b)-dec]
	if dec > 0 {
		s += "." + b[len(b)-dec:]
	}
	if v < 0 {
		s = "-" + s
	}
	return s + " " + code
}

func mkSymbol(dec int, code string) chain.Symbol {
	v := uint64(dec)
	for i := 0; i < len(code); i++ {
		v |= uint64(code[i]) << (8 * (i + 1))
	}
	return chain.Symbol(v)
}

func capitals(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] < 'A' || s[i] > 'Z' {
			return false
		}
	}
	return true
}

// refAsset judges a text: ok = inside the grammar and range; canon = must be accepted.
func refAsset(s string) (v int64, sym chain.Symbol, ok, canon bool) {
	sp := strings.IndexByte(s, ' ')
	if sp < 0 {
		return
	}
	num, code := s[:sp], s[sp+1:]
	if len(code) < 1 || len(code) > 7 || !capitals(code) {
		return
	}
	neg := strings.HasPrefix(num, "-")
	if neg {
		num = num[1:]
	}
	ip, fp, point := num, "", false
	if p := strings.IndexByte(num, '.'); p >= 0 {
		ip, fp, point = num[:p], num[p+1:], true
	}
	d := ip + fp
	if d == "" || len(fp) > 18 {
		return
	}
	for i := 0; i < len(d); i++ {
		if d[i] < '0' || d[i] > '9' {
			return
		}
	}
	n, _ := new(big.Int).SetString(d, 10)
	if neg {
		n.Neg(n)
	}
	if !n.IsInt64() {
		return
	}
	ok = true
	canon = ip != "" && (len(ip) == 1 || ip[0] != '0') && point == (fp != "") && !(neg && n.Sign() == 0)
	return n.Int64(), mkSymbol(len(fp), code), ok, canon
}

func assetText(w *mcx.W, s string) {
	v, sym, ok, canon := refAsset(s)
	a, err := chain.NewAssetFromString(s)
	switch {
	case err == nil && !ok:
		w.Fail("asset text %q is accepted as %d, %#x", s, a.Value, uint64(a.Symbol))
	case err != nil && canon:
		w.Fail("asset text %q is rejected: %v", s, err)
	case err == nil && (a.Value != v || a.Symbol != sym):
		w.Fail("asset text %q gives %d, %#x, want %d, %#x", s, a.Value, uint64(a.Symbol), v, uint64(sym))
	case err != nil && a != nil:
		w.Fail("asset text %q gives both %v and %v", s, a, err)
	}
	x := chain.Asset{Value: 123, Symbol: 456}
	uerr := x.UnmarshalText([]byte(s))
	if (uerr == nil) != (err == nil) || err == nil && x != *a {
		w.Fail("asset text %q: UnmarshalText gives %v, %v; NewAssetFromString %v, %v", s, x, uerr, a, err)
	}
	if len(s) > 1 {
		w.NonTrivial()
	}
}

func assetValue(w *mcx.W, v int64, dec int, code string) {
	sym := mkSymbol(dec, code)
	want := refAssetText(v, dec, code)
	a := chain.NewAsset(v, sym)
	if a.Value != v || a.Symbol != sym {
		w.Fail("NewAsset(%d, %#x) = %v", v, uint64(sym), *a)
	}
	if got := a.String(); got != want {
		w.Fail("Asset{%d, %d decimals %s} formats as %q, want %q", v, dec, code, got, want)
	}
	if t, err := a.MarshalText(); err != nil || string(t) != want {
		w.Fail("Asset{%d, %d decimals %s}.MarshalText() = %q, %v, want %q", v, dec, code, t, err, want)
	}
	b, err := chain.NewAssetFromString(want)
	if err != nil || b.Value != v || b.Symbol != sym {
		w.Fail("asset text %q gives %v, %v", want, b, err)
	}
	den := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(dec)), nil)
	f, _ := new(big.Rat).SetFrac(big.NewInt(v), den).Float64()
	if got := a.FloatValue(); got != f {
		w.Fail("Asset %q has float value %v, nearest double is %v", want, got, f)
	}
	if c := chain.A(want); c.Value != v || c.Symbol != sym {
		w.Fail("A(%q) = %v", want, *c)
	}
	w.Eval(5)
	w.NonTrivial()
	w.Sample(func() string { return want })
}

// refSymbol judges a symbol text.
func refSymbol(s string) (sym chain.Symbol, ok, canon bool) {
	c := strings.IndexByte(s, ',')
	if c < 0 {
		return
	}
	ps, code := s[:c], s[c+1:]
	if len(code) > 7 || !capitals(code) {
		return
	}
	d := strings.TrimPrefix(strings.TrimPrefix(ps, "+"), "-") // signs are not part of the canonical form
	if d == "" || len(ps)-len(d) > 1 {
		return
	}
	for i := 0; i < len(d); i++ {
		if d[i] < '0' || d[i] > '9' {
			return
		}
	}
	n, _ := new(big.Int).SetString(ps, 10)
	if n == nil || n.Sign() < 0 || n.Cmp(big.NewInt(18)) > 0 {
		return
	}
	p := int(n.Int64())
	return mkSymbol(p, code), true, ps == strconv.Itoa(p) && code != ""
}

func symbolText(w *mcx.W, s string) {
	want, ok, canon := refSymbol(s)
	got, err := chain.NewSymbolFromString(s)
	switch {
	case err == nil && !ok:
		w.Fail("symbol text %q is accepted as %#x", s, uint64(got))
	case err != nil && canon:
		w.Fail("symbol text %q is rejected: %v", s, err)
	case err == nil && got != want:
		w.Fail("symbol text %q gives %#x, want %#x", s, uint64(got), uint64(want))
	}
	x := chain.Symbol(99)
	uerr := x.UnmarshalText([]byte(s))
	if (uerr == nil) != (err == nil) || err == nil && x != got {
		w.Fail("symbol text %q: UnmarshalText gives %#x, %v; NewSymbolFromString %#x, %v", s, uint64(x), uerr, uint64(got), err)
	}
	if len(s) > 1 {
		w.NonTrivial()
	}
}

func codeText(w *mcx.W, s string) {
	ok := len(s) <= 7 && capitals(s)
	x := chain.SymbolCode(99)
	err := x.UnmarshalText([]byte(s))
	want := chain.SymbolCode(mkSymbol(0, s[:min(7, len(s))]) >> 8)
	switch {
	case err == nil && !ok:
		w.Fail("symbol code text %q is accepted as %#x", s, uint64(x))
	case err != nil && ok && s != "":
		w.Fail("symbol code text %q is rejected: %v", s, err)
	case err == nil && x != want:
		w.Fail("symbol code text %q gives %#x, want %#x", s, uint64(x), uint64(want))
	}
	if ok && s != "" {
		if t, err := want.MarshalText(); err != nil || string(t) != s {
			w.Fail("SymbolCode(%#x) formats as %q, %v, want %q", uint64(want), t, err, s)
		}
		for d := 0; d <= 19; d++ {
			sym, err := chain.NewSymbol(uint8(d), s)
			if d > 18 {
				if err == nil {
					w.Fail("NewSymbol(%d, %q) is accepted", d, s)
				}
				continue
			}
			p := 1
			for k := 0; k < d; k++ {
				p *= 10
			}
			txt := fmt.Sprintf("%d,%s", d, s)
			mt, merr := sym.MarshalText()
			if err != nil || sym != mkSymbol(d, s) || sym.Decimals() != d || sym.Name() != s || sym.Code() != want || sym.Precision() != p || sym.String() != txt || merr != nil || string(mt) != txt {
				w.Fail("NewSymbol(%d, %q) = %#x, %v: decimals %d name %q code %#x precision %d text %q %q", d, s, uint64(sym), err, sym.Decimals(), sym.Name(), uint64(sym.Code()), sym.Precision(), sym.String(), mt)
			}
			if back, err := chain.NewSymbolFromString(txt); err != nil || back != sym {
				w.Fail("symbol text %q gives %#x, %v", txt, uint64(back), err)
			}
			w.Eval(3)
		}
	} else {
		if _, err := chain.NewSymbol(4, s); err == nil && !ok {
			w.Fail("NewSymbol(4, %q) is accepted", s)
		}
	}
	w.NonTrivial()
}

func overAlphabet(r *mcx.Run, name string, al []byte, max int, f func(w *mcx.W, s string)) {
	n, get := alphaStrings(al, max)
	r.Sweep(name, n, func(w *mcx.W, i uint64) { f(w, string(get(i))) })
}

// edits calls f with every single-byte replacement, insertion and deletion of s and every swap of neighbours.
func edits(s string, bytes []byte, f func(string)) {
	for i := 0; i <= len(s); i++ {
		for _, c := range bytes {
			f(s[:i] + string([]byte{c}) + s[i:])
			if i < len(s) && s[i] != c {
				f(s[:i] + string([]byte{c}) + s[i+1:])
			}
		}
		if i < len(s) {
			f(s[:i] + s[i+1:])
		}
		if i+1 < len(s) && s[i] != s[i+1] {
			f(s[:i] + s[i+1:i+2] + s[i:i+1] + s[i+2:])
		}
	}
}

var all256 = func() (b []byte) {
	for i := 0; i < 256; i++ {
		b = append(b, byte(i))
	}
	return
}()

func int64Set() []int64 {
	seen := map[int64]bool{}
	var out []int64
	add := func(v int64) {
		if !seen[v] {
			seen[v] = true
			out = append(out, v)
		}
	}
	for i := int64(-1100); i <= 1100; i++ {
		add(i)
	}
	for p := int64(1); ; p *= 10 {
		for d := int64(1); d <= 9; d++ {
			if p > math.MaxInt64/d {
				break
			}
			for e := int64(-2); e <= 2; e++ {
				add(d*p + e)
				add(-d*p + e)
			}
		}
		if p > math.MaxInt64/10 {
			break
		}
	}
	for k := 0; k < 64; k++ {
		for e := int64(-2); e <= 2; e++ {
			add(int64(uint64(1)<<k) + e)
			add(-int64(uint64(1)<<k) + e)
		}
	}
	for e := int64(0); e < 20; e++ {
		add(math.MaxInt64 - e)
		add(math.MinInt64 + e)
	}
	for _, v := range []int64{1234567890123456789, -1234567890123456789, 9007199254740993, -9007199254740993, 4611686018427387903, 1000000000000000001, 9223372036854775000} {
		add(v)
	}
	return out
}

func runC09(r *mcx.Run) {
	vs := int64Set()
	codes := []string{"A", "EOS", "ZZZZZZZ", "ABCDEFG", "SYS", "X", "WAX", "AZ", "QQQQ"}
	r.Sweep("amounts", uint64(len(vs)*19*len(codes)), func(w *mcx.W, i uint64) {
		v := vs[i%uint64(len(vs))]
		i /= uint64(len(vs))
		assetValue(w, v, int(i%19), codes[i/19])
	})
	bits := mcx.Pick(r, 17, 22)
	r.Sweep("all small amounts", uint64(19)<<bits, func(w *mcx.W, i uint64) {
		assetValue(w, int64(i>>0&(1<<bits-1))-1<<(bits-1), int(i>>bits), "EOS")
	})
	// formatting of anything that can be read from the chain
	raw := []uint64{0, 1, 0x20, 0x41, 0x7f, 0x80, 0xff, 0x4100, 0x4142434445464748, ^uint64(0), 0x8000000000000000, 0x0041004200430044}
	r.Sweep("unchecked symbols", uint64(len(raw)*256*40), func(w *mcx.W, i uint64) {
		rw := raw[i%uint64(len(raw))]
		i /= uint64(len(raw))
		d := i % 256
		v := vs[int(i/256)*(len(vs)-1)/39]
		a := chain.Asset{Value: v, Symbol: chain.Symbol(rw<<8 | d)}
		s := a.String()
		want := refAssetText(v, int(d), a.Symbol.Name())
		if s != want {
			w.Fail("Asset{%d, %#x} formats as %q, want %q", v, uint64(a.Symbol), s, want)
		}
		a.FloatValue()
		a.MarshalText()
		_ = a.Symbol.String()
		a.Symbol.Precision()
		a.Symbol.MarshalText()
		a.Symbol.Code().MarshalText()
		w.NonTrivial()
	})

	overAlphabet(r, "asset texts", []byte("-019. A+,"), mcx.Pick(r, 7, 8), assetText)
	overAlphabet(r, "asset texts before code", []byte("-019. e"), mcx.Pick(r, 7, 8), func(w *mcx.W, s string) { assetText(w, s+" EOS") })
	overAlphabet(r, "asset texts after number", []byte("AZaz0. \x00\xc3"), mcx.Pick(r, 5, 7), func(w *mcx.W, s string) { assetText(w, "1.5"+s) })
	r.Sweep("digit counts", 24*22*6*3, func(w *mcx.W, i uint64) {
		ip, fp := int(i%24), int(i/24%22)
		k := i / (24 * 22)
		d := []string{"0", "1", "9", "10", "07", "92233720368547758"}[k%6]
		gen := func(n int) string { return strings.Repeat(d, n/len(d)+1)[:n] }
		for _, sg := range []string{"", "-"} {
			for _, pt := range []string{".", ""} {
				assetText(w, sg+gen(ip)+pt+gen(fp)+[]string{" EOS", " ABCDEFG", " ABCDEFGH"}[k/6])
			}
		}
	})
	lim := []string{"9223372036854775807", "9223372036854775808", "9223372036854775809", "9223372036854775810", "18446744073709551615", "18446744073709551616", "18446744073709551617", "27670116110564327424", "99999999999999999999"}
	r.Sweep("range ends", uint64(len(lim))*21*2, func(w *mcx.W, i uint64) {
		s := lim[i%uint64(len(lim))]
		p := int(i / uint64(len(lim)) % 21)
		if p > 0 {
			for len(s) < p {
				s = "0" + s
			}
			s = s[:len(s)-p] + "." + s[len(s)-p:]
		}
		if i/uint64(len(lim)*21) == 1 {
			s = "-" + s
		}
		assetText(w, s+" EOS")
		assetText(w, s+" EOS ")
	})
	seeds := []string{"1.0000 EOS", "-0.01 A", "0 ABCDEFG", "9223372036854775807 EOS", "-9223372036854775808 EOS", "-9.223372036854775808 EOS", "0.000000000000000001 WAX", "12 X", "-1 SYS", "100.5 ZZZZZZZ"}
	r.Sweep("edits of asset texts", uint64(len(seeds)), func(w *mcx.W, i uint64) {
		assetText(w, seeds[i])
		edits(seeds[i], all256, func(s string) { assetText(w, s); w.Eval(1) })
	})

	// symbols
	overAlphabet(r, "symbol texts", []byte("0189,AZ-"), mcx.Pick(r, 7, 8), symbolText)
	overAlphabet(r, "symbol texts 2", []byte("14,A+ a_x"), mcx.Pick(r, 5, 7), symbolText)
	r.Sweep("precisions", 70000, func(w *mcx.W, i uint64) {
		for _, f := range []string{"%d,EOS", "-%d,EOS", "%d,", "0%d,A", "%d,ABCDEFG", "%d,ABCDEFGH", "%d.0,EOS", "%d ,EOS", "0x%d,EOS", "%de0,EOS"} {
			symbolText(w, fmt.Sprintf(f, i))
		}
		if i < 256 {
			for _, c := range codes {
				sym, err := chain.NewSymbol(uint8(i), c)
				if (err == nil) != (i <= 18) || err == nil && sym != mkSymbol(int(i), c) {
					w.Fail("NewSymbol(%d, %q) = %#x, %v", i, c, uint64(sym), err)
				}
			}
		}
		w.Eval(9)
	})
	for _, k := range []uint64{32, 64} {
		r.Sweep(fmt.Sprintf("precisions near 2^%d", k), 300, func(w *mcx.W, i uint64) {
			n := new(big.Int).Lsh(big.NewInt(1), uint(k))
			n.Add(n, big.NewInt(int64(i)-150))
			symbolText(w, n.String()+",EOS")
			symbolText(w, "-"+n.String()+",EOS")
		})
	}
	for n := 0; n <= mcx.Pick(r, 3, 4); n++ {
		t := uint64(1)
		for k := 0; k < n; k++ {
			t *= 26
		}
		r.Sweep(fmt.Sprintf("codes of %d letters", n), t, func(w *mcx.W, i uint64) {
			b := make([]byte, n)
			for k := range b {
				b[k] = 'A' + byte(i%26)
				i /= 26
			}
			codeText(w, string(b))
		})
	}
	r.Sweep("letters", 9*9*256, func(w *mcx.W, i uint64) {
		l, p := int(i>>8%9), int(i>>8/9)
		b := []byte("QWERTYUIO"[:l])
		if p < l {
			b[p] = byte(i)
		}
		codeText(w, string(b))
		symbolText(w, "4,"+string(b))
		assetText(w, "1.5 "+string(b))
	})
	sseeds := []string{"4,EOS", "0,A", "18,ABCDEFG", "9,WAX", "10,ZZ"}
	r.Sweep("edits of symbol texts", uint64(len(sseeds)), func(w *mcx.W, i uint64) {
		symbolText(w, sseeds[i])
		edits(sseeds[i], all256, func(s string) { symbolText(w, s); w.Eval(1) })
	})
	r.Sweep("A panics", uint64(len(seeds)), func(w *mcx.W, i uint64) {
		edits(seeds[i], []byte("x. -"), func(s string) {
			_, _, ok, _ := refAsset(s)
			var a *chain.Asset
			p := panics(func() { a = chain.A(s) })
			if !ok && !p {
				w.Fail("A(%q) = %v, want a panic", s, a)
			}
			w.NonTrivial()
		})
	})
}

func panics(f func()) (p bool) {
	defer func() {
		if recover() != nil {
			p = true
		}
	}()
	f()
	return
}
