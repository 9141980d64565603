package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strings"

	"verif/mcx"
	"verif/ref"

	"github.com/greymass/go-eosio/pkg/chain"
)

func init() {
	register(&Check{
		ID: "C08", Level: "exploration",
		Rule:   "every value / text of the listed spaces is converted with an independent positional implementation of the EOSIO name encoding and compared with String, NewName, N, the text, JSON and wire forms. A case is non-trivial if the name is not empty.",
		Bounds: "values: all values of every window of 22 (quick) / 28 (thorough) adjacent bits over backgrounds 0 and 1, all values of any two of the 13 character fields over 4 backgrounds, all values with at most 3 bits set or cleared; texts: all byte strings to length 3, all strings over the name alphabet to length 5 (quick) / 6 (thorough), every byte at every one or two positions of texts up to 16 characters, lengths to 300.",
		Run:    runC08,
	})
}

const nameAlphabet = ".12345abcdefghijklmnopqrstuvwxyz"

// refNameText is the canonical text: field k (from the left) has 5 bits, the thirteenth 4.
func refNameText(v uint64) string {
	var b [13]byte
	for k := 0; k < 12; k++ {
		b[k] = nameAlphabet[v>>(59-5*k)&31]
	}
	b[12] = nameAlphabet[v&15]
	return strings.TrimRight(string(b[:]), ".")
}

func refNameValue(s string) uint64 {
	var v uint64
	for k := 0; k < 13; k++ {
		var c uint64
		if k < len(s) {
			if p := strings.IndexByte(nameAlphabet, s[k]); p > 0 {
				c = uint64(p)
			}
		}
		if k < 12 {
			v |= c << (59 - 5*k)
		} else {
			v |= c & 15
		}
	}
	return v
}

func nameValue(w *mcx.W, v uint64) {
	n := chain.Name(v)
	s := n.String()
	if s != refNameText(v) {
		w.Fail("Name(%#x).String() = %q, want %q", v, s, refNameText(v))
	}
	if got := chain.NewName(s); got != n {
		w.Fail("NewName(%q) = %#x, want %#x", s, uint64(got), v)
	}
	if v != 0 {
		w.NonTrivial()
	}
}

func nameForms(w *mcx.W, v uint64) {
	n := chain.Name(v)
	s := refNameText(v)
	if t, err := n.MarshalText(); err != nil || string(t) != s {
		w.Fail("Name(%#x).MarshalText() = %q, %v", v, t, err)
	}
	if j, err := json.Marshal(n); err != nil || string(j) != `"`+s+`"` {
		w.Fail("Name(%#x) in JSON = %s, %v", v, j, err)
	}
	var m chain.Name = 77
	if err := json.Unmarshal([]byte(`"`+s+`"`), &m); err != nil || m != n {
		w.Fail("JSON %q gives %#x, %v, want %#x", s, uint64(m), err, v)
	}
	b, err := codecs[0].encode(n)
	if err != nil || !bytes.Equal(b, ref.LE(v, 8)) {
		w.Fail("Name(%#x) encodes as %x, %v", v, b, err)
	}
	m = 78
	if _, err := codecs[0].decode(b, &m); err != nil || m != n {
		w.Fail("%x decodes as name %#x, %v", b, uint64(m), err)
	}
	if got := fmt.Sprint(n); got != s {
		w.Fail("Name(%#x) prints as %q, want %q", v, got, s)
	}
	w.Eval(5)
}

func nameText(w *mcx.W, s string) {
	want := refNameValue(s)
	if got := chain.NewName(s); uint64(got) != want {
		w.Fail("NewName(%q) = %#x, want %#x", s, uint64(got), want)
	}
	if got := chain.N(s); uint64(got) != want {
		w.Fail("N(%q) = %#x, want %#x", s, uint64(got), want)
	}
	n := chain.Name(99)
	if err := n.UnmarshalText([]byte(s)); err != nil || uint64(n) != want {
		w.Fail("UnmarshalText(%q) gives %#x, %v, want %#x", s, uint64(n), err, want)
	}
	if len(s) > 0 {
		w.NonTrivial()
	}
}

func runC08(r *mcx.Run) {
	win := mcx.Pick(r, 22, 28)
	for _, bg := range []uint64{0, ^uint64(0)} {
		for _, sh := range mcx.Pick(r, []int{0, 14, 28, 42}, []int{0, 12, 24, 36}) {
			mask := (uint64(1)<<win - 1) << sh
			r.Sweep(fmt.Sprintf("bits %d..%d over %x", sh, sh+win-1, bg&1), 1<<win, func(w *mcx.W, i uint64) {
				nameValue(w, bg&^mask|i<<sh)
			})
		}
	}
	shift := func(k uint64) (uint, uint64) {
		if k == 12 {
			return 0, 15
		}
		return uint(59 - 5*k), 31
	}
	bgs := []uint64{0, ^uint64(0), refNameValue("teamgreymassj"), 0xa5a5a5a55a5a5a5a}
	r.Sweep("field pairs", 13*13*1024*4, func(w *mcx.W, i uint64) {
		bg := bgs[i&3]
		a, b := i>>2&31, i>>7&31
		p, q := i>>12%13, i>>12/13
		if p == q {
			return
		}
		s1, m1 := shift(p)
		s2, m2 := shift(q)
		v := bg&^(m1<<s1)&^(m2<<s2) | (a&m1)<<s1 | (b&m2)<<s2
		nameValue(w, v)
		if a < 3 || b == 31 {
			nameForms(w, v)
		}
	})
	r.Sweep("few bits", 64*64*64*2, func(w *mcx.W, i uint64) {
		v := uint64(1)<<(i&63) | uint64(1)<<(i>>6&63) | uint64(1)<<(i>>12&63)
		if i>>18 == 1 {
			v = ^v
		}
		nameValue(w, v)
		if i>>12&63 == 0 {
			nameForms(w, v)
		}
	})
	for n := 0; n <= 3; n++ {
		r.Sweep(fmt.Sprintf("all texts of length %d", n), 1<<(8*n), func(w *mcx.W, i uint64) {
			nameText(w, string(ref.LE(i, n)))
		})
	}
	for n := 1; n <= mcx.Pick(r, 5, 6); n++ {
		r.Sweep(fmt.Sprintf("alphabet texts of length %d", n), 1<<(5*n), func(w *mcx.W, i uint64) {
			b := make([]byte, n)
			for k := range b {
				b[k] = nameAlphabet[i>>(5*k)&31]
			}
			nameText(w, string(b))
		})
	}
	texts := []string{"aaaaaaaaaaaaaaaa", "zzzzzzzzzzzzzzzz", "teamgreymassjuhg", ".............."}
	al := []byte{0, ' ', '-', '.', '/', '0', '1', '2', '5', '6', '9', ':', '@', 'A', 'Z', '[', '`', 'a', 'b', 'j', 'k', 'p', 'q', 'z', '{', 0x7f, 0x80, 0xc3, 0xe1, 0xff, '\n', '_'}
	for l := 1; l <= 16; l++ {
		r.Sweep(fmt.Sprintf("one byte in %d", l), uint64(l)*256*4, func(w *mcx.W, i uint64) {
			t := texts[i&3]
			b := []byte(t[:min(l, len(t))])
			for len(b) < l {
				b = append(b, '.')
			}
			b[i>>10] = byte(i >> 2)
			nameText(w, string(b))
		})
		r.Sweep(fmt.Sprintf("two bytes in %d", l), uint64(l*l)*1024*4, func(w *mcx.W, i uint64) {
			t := texts[i&3]
			b := []byte(t[:min(l, len(t))])
			for len(b) < l {
				b = append(b, '.')
			}
			b[i>>12%uint64(l)] = al[i>>2&31]
			b[i>>12/uint64(l)] = al[i>>7&31]
			nameText(w, string(b))
		})
	}
	r.Sweep("long texts", 300*4, func(w *mcx.W, i uint64) {
		nameText(w, strings.Repeat([]string{"a", "z5", ".1", "é"}[i%4], int(i/4)))
	})
	r.Sweep("multi-byte characters", 0x3000, func(w *mcx.W, i uint64) {
		c := string(rune(i))
		nameText(w, "a"+c+"b")
		nameText(w, "aaaaaaaaaaa"+c+"b")
		nameText(w, "aaaaaaaaaaaa"+c)
	})
}
