package checks

import (
	"bytes"
	"fmt"
	"math/big"
	"strings"

	"verif/mcx"
	"verif/ref"

	"github.com/greymass/go-eosio/pkg/base58"
)

func init() {
	register(&Check{
		ID: "C13", Level: "exploration",
		Rule:   "every byte string / text of the listed spaces is converted by a digit-at-a-time reference implementation and compared with Encode, Decode, CheckEncode, CheckDecode and the RIPEMD-160 variants. A case is non-trivial if the string is not empty.",
		Bounds: "bytes: all strings to length 3 behind 0..3 zero bytes, all lengths to 300 in 8 patterns, 58^k+e for k to 140, all a*58^20+b*58^10+c over 9 boundary values and four chunks; texts: all over the alphabet to length 4 (quick) / 5 (thorough), all byte strings to length 3, every byte at every position of texts to length 33, all characters up to U+3000; checksums: payloads to length 70, every single-character edit of 24 texts, short inputs, 8 suffixes.",
		Run:    runC13,
	})
}

const b58a = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

func b58Bytes(w *mcx.W, b []byte) {
	want := ref.Base58(b)
	got := base58.Encode(b)
	if got != want {
		w.Fail("Encode(%s) = %q, want %q", hexs(b), got, want)
	}
	if back := base58.Decode(want); !bytes.Equal(back, b) {
		w.Fail("Decode(%q) = %s, want %s", want, hexs(back), hexs(b))
	}
	if len(b) > 0 {
		w.NonTrivial()
	}
	w.Eval(1)
}

func b58Text(w *mcx.W, s string) {
	want, ok := ref.Base58Decode(s)
	got := base58.Decode(s)
	if !ok {
		if len(got) != 0 {
			w.Fail("Decode(%q) = %x, the text has a foreign byte", s, got)
		}
		for k := 0; k < 2; k++ {
			var v []byte
			var err error
			if k == 0 {
				v, err = base58.CheckDecode(s)
			} else {
				v, err = base58.CheckDecodeEosio(s, "K1")
			}
			if err == nil {
				w.Fail("CheckDecode(%q) = %x, the text has a foreign byte", s, v)
			}
		}
	} else {
		if !bytes.Equal(got, want) {
			w.Fail("Decode(%q) = %x, want %x", s, got, want)
		}
		if back := base58.Encode(got); back != s {
			w.Fail("Encode(Decode(%q)) = %q", s, back)
		}
	}
	if len(s) > 0 {
		w.NonTrivial()
	}
	w.Eval(1)
}

var suffixes = []string{"", "K1", "P1", "WA", "R1", "x", "a long suffix that is more than sixty-four bytes, to fill a block of the hash", "\x00"}

// checkText judges the checksummed decoders on any text.
func checkText(w *mcx.W, s string) {
	d, ok := ref.Base58Decode(s)
	split := len(d) - 4
	got, err := base58.CheckDecode(s)
	valid := ok && split >= 0 && bytes.Equal(ref.Sha256d4(d[:split]), d[split:])
	if valid != (err == nil) || valid && !bytes.Equal(got, d[:split]) {
		w.Fail("CheckDecode(%q) = %x, %v (checksum valid: %v)", s, got, err, valid)
	}
	for _, x := range suffixes {
		got, err := base58.CheckDecodeEosio(s, x)
		valid := ok && split >= 0 && bytes.Equal(ref.Rmd4(d[:split], x), d[split:])
		if valid != (err == nil) || valid && !bytes.Equal(got, d[:split]) {
			w.Fail("CheckDecodeEosio(%q, %q) = %x, %v (checksum valid: %v)", s, x, got, err, valid)
		}
	}
	w.Eval(len(suffixes))
	w.NonTrivial()
}

func checkPayload(w *mcx.W, p []byte) {
	want := ref.Base58(append(append([]byte{}, p...), ref.Sha256d4(p)...))
	if got := base58.CheckEncode(p); got != want {
		w.Fail("CheckEncode(%x) = %q, want %q", p, got, want)
	}
	checkText(w, want)
	for _, x := range suffixes {
		want := ref.KeyText("", x, p)
		if got := base58.CheckEncodeEosio(p, x); got != want {
			w.Fail("CheckEncodeEosio(%x, %q) = %q, want %q", p, x, got, want)
		}
		checkText(w, want)
	}
}

func runC13(r *mcx.Run) {
	for n := 0; n <= 3; n++ {
		r.Sweep(fmt.Sprintf("all bytes of length %d", n), 4<<(8*n), func(w *mcx.W, i uint64) {
			b58Bytes(w, append(make([]byte, i&3), ref.LE(i>>2, n)...))
		})
	}
	r.Sweep("lengths", 301*8, func(w *mcx.W, i uint64) {
		n := int(i / 8)
		b := make([]byte, n)
		switch i % 8 {
		case 1:
			for k := range b {
				b[k] = 0xff
			}
		case 2:
			copy(b, pat(n, 1))
		case 3:
			if n > 0 {
				b[0] = 1
			}
		case 4:
			if n > 0 {
				b[n-1] = 1
			}
		case 5:
			copy(b[n/2:], pat(n-n/2, 7))
		case 6:
			for k := range b {
				b[k] = byte(k % 2)
			}
		case 7:
			copy(b, pat(n/3, 9))
		}
		b58Bytes(w, b)
	})
	var ll []int
	for n := 301; n <= mcx.Pick(r, 1100, 2200); n += mcx.Pick(r, 3, 1) {
		ll = append(ll, n)
	}
	for _, c := range []int{511, 512, 513, 1022, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000} {
		ll = append(ll, c)
	}
	r.Sweep("long", uint64(len(ll)*6), func(w *mcx.W, i uint64) {
		n := ll[i/6]
		b := make([]byte, n)
		switch i % 6 {
		case 1:
			copy(b, pat(n, byte(n)|1))
		case 2:
			b[n-1] = 58
		case 3:
			copy(b[n-20:], pat(20, 3))
		case 4:
			copy(b[n/2:], pat(n-n/2, 7))
		case 5:
			for k := range b {
				b[k] = 0xff
			}
		}
		b58Bytes(w, b)
		// a foreign byte far inside
		s := []byte(strings.Repeat("z1Ax2", n/5+1)[:n])
		s[n/3] = "0OIl+ \x00\x80\xff"[int(i)%9]
		b58Text(w, string(s))
		s[n/3], s[n-1] = 'q', 0xc3
		b58Text(w, string(s))
	})
	r.Sweep("powers of 58", 141*11*3, func(w *mcx.W, i uint64) {
		n := new(big.Int).Exp(big.NewInt(58), big.NewInt(int64(i%141)), nil)
		n.Add(n, big.NewInt(int64(i/141%11)-5))
		if n.Sign() < 0 {
			return
		}
		b58Bytes(w, append(make([]byte, i/(141*11)), n.Bytes()...))
	})
	r10 := new(big.Int).Exp(big.NewInt(58), big.NewInt(10), nil)
	ch := []*big.Int{big.NewInt(0), big.NewInt(1), big.NewInt(57), big.NewInt(58), new(big.Int).Exp(big.NewInt(58), big.NewInt(9), nil), new(big.Int).Sub(r10, big.NewInt(1)), new(big.Int).Sub(r10, big.NewInt(58)), big.NewInt(1 << 32), new(big.Int).Rsh(r10, 1)}
	r.Sweep("chunks", 9*9*9*9*2, func(w *mcx.W, i uint64) {
		n := new(big.Int)
		z := i % 2
		i /= 2
		for k := 0; k < 4; k++ {
			n.Mul(n, r10).Add(n, ch[i%9])
			i /= 9
		}
		b58Bytes(w, append(make([]byte, z), n.Bytes()...))
	})
	for n := 0; n <= mcx.Pick(r, 4, 5); n++ {
		t := uint64(1)
		for k := 0; k < n; k++ {
			t *= 58
		}
		r.Sweep(fmt.Sprintf("alphabet texts of length %d", n), t, func(w *mcx.W, i uint64) {
			b := make([]byte, n)
			for k := range b {
				b[k] = b58a[i%58]
				i /= 58
			}
			b58Text(w, string(b))
		})
	}
	for n := 0; n <= 3; n++ {
		r.Sweep(fmt.Sprintf("all texts of length %d", n), 1<<(8*n), func(w *mcx.W, i uint64) { b58Text(w, string(ref.LE(i, n))) })
	}
	r.Sweep("every byte at every position", 34*34*256*2, func(w *mcx.W, i uint64) {
		l, p := int(i>>9%34), int(i>>9/34)
		if p >= l {
			return
		}
		b := []byte(strings.Repeat([]string{"2", "z1Ax1"}[i>>8&1], 40)[:l])
		b[p] = byte(i)
		b58Text(w, string(b))
	})
	r.Sweep("text lengths", 400*58, func(w *mcx.W, i uint64) {
		n := int(i / 58)
		c := b58a[i%58]
		b58Text(w, strings.Repeat(string(c), n))
		b := make([]byte, n)
		for k := range b {
			b[k] = b58a[(k*int(i%58)+n)%58]
		}
		b58Text(w, string(b))
	})
	r.Sweep("multi-byte characters", 0x3000, func(w *mcx.W, i uint64) {
		c := string(rune(i))
		for _, s := range []string{c, "a" + c, c + "a", "zzzzzzzzzz" + c, "1" + c + "1"} {
			b58Text(w, s)
		}
	})
	r.Sweep("payloads", 71*5, func(w *mcx.W, i uint64) {
		n := int(i % 71)
		b := make([]byte, n)
		if k := i / 71; k > 0 {
			copy(b[min(n, int(k)-1):], pat(n, byte(k)))
		}
		checkPayload(w, b)
	})
	for n := 0; n <= 2; n++ {
		r.Sweep(fmt.Sprintf("all payloads of length %d", n), 1<<(8*n), func(w *mcx.W, i uint64) { checkPayload(w, ref.LE(i, n)) })
	}
	var seeds []string
	for _, n := range []int{0, 1, 4, 20, 33, 65} {
		p := pat(n, byte(n))
		seeds = append(seeds, ref.Base58(append(append([]byte{}, p...), ref.Sha256d4(p)...)), ref.KeyText("", "", p), ref.KeyText("", "K1", p), ref.KeyText("", "WA", append([]byte{0, 0}, p...)))
	}
	r.Sweep("edits of checksummed texts", uint64(len(seeds))*mcx.Pick(r, uint64(1), 4), func(w *mcx.W, i uint64) {
		s := seeds[i%uint64(len(seeds))]
		if i < uint64(len(seeds)) {
			edits(s, []byte(b58a+"0OIl \x00\xff"), func(e string) { checkText(w, e) })
			return
		}
		part := i/uint64(len(seeds)) - 1 // two changes at a time
		n := 0
		edits(s, []byte("12z"), func(e string) {
			n++
			if n%3 == int(part) {
				edits(e, []byte("1A"), func(e string) { checkText(w, e) })
			}
		})
	})
	// wrong checksum bytes, one bit at a time
	r.Sweep("flipped bits", 34*8, func(w *mcx.W, i uint64) {
		p := pat(int(i/8), 3)
		b := append(append([]byte{}, p...), ref.Sha256d4(p)...)
		c := append(append([]byte{}, p...), ref.Rmd4(p, "K1")...)
		for k := 0; k < len(b); k++ {
			b[k] ^= 1 << (i % 8)
			c[k] ^= 1 << (i % 8)
			checkText(w, ref.Base58(b))
			checkText(w, ref.Base58(c))
			b[k] ^= 1 << (i % 8)
			c[k] ^= 1 << (i % 8)
		}
	})
}
