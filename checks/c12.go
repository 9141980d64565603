package checks

import (
	"bytes"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/json"
	"fmt"
	"strings"

	"verif/mcx"
	"verif/ref"

	"github.com/greymass/go-eosio/pkg/chain"
)

func init() {
	register(&Check{
		ID: "C12", Level: "exploration",
		Rule:   "texts are built by an independent base-58 and RIPEMD-160 implementation and compared with String, LegacyString, the parsers and the text and JSON forms; every single-character edit of valid texts and every payload of wrong length, tag or checksum suffix must be rejected, and whatever is accepted must have the given type and payload. Every case is non-trivial.",
		Bounds: "payloads: 512 patterned keys and signatures per curve (incl. all-zero, all-ones, leading zeros), WebAuthn parts of length 0..300; edits: all replacements and insertions with all 256 bytes, deletions, swaps of neighbours and of any two characters, prefixes, of 26 texts (quick) / 66 (thorough); payload lengths 0..140 under each tag with a correct checksum; all 3-character curve tags over 8 characters; all texts to length 3 over 256 bytes and to length 8 over the structural characters.",
		Run:    runC12,
	})
}

var curveNames = []string{"K1", "P1", "WA"}

func keyForms(w *mcx.W, k chain.PublicKey) {
	nm := curveNames[k.Type]
	want := ref.KeyText("PUB_"+nm+"_", nm, k.Data)
	if s := k.String(); s != want {
		w.Fail("key %v %x formats as %q, want %q", k.Type, k.Data, s, want)
	}
	p, err := chain.NewPublicKeyFromString(want)
	if err != nil || p.Type != k.Type || !bytes.Equal(p.Data, k.Data) {
		w.Fail("key text %q gives %v, %v", want, p, err)
	}
	x := chain.PublicKey{Type: 1, Data: []byte{9}}
	if t, err := k.MarshalText(); err != nil || string(t) != want || x.UnmarshalText(t) != nil || !ref.EqAny(x, k) {
		w.Fail("key text form %q, %v, back %v", t, err, x)
	}
	x = chain.PublicKey{}
	if j, err := json.Marshal(k); err != nil || string(j) != `"`+want+`"` || json.Unmarshal(j, &x) != nil || !ref.EqAny(x, k) {
		w.Fail("key JSON form %s, %v, back %v", j, err, x)
	}
	if np := chain.NewPublicKey(k.Type, k.Data); !ref.EqAny(*np, k) {
		w.Fail("NewPublicKey(%v, %x) = %v", k.Type, k.Data, np)
	}
	if k.Type == chain.K1 && (k.Data[0] == 2 || k.Data[0] == 3) {
		for _, pre := range []string{"EOS", "FIO", "", "LONGPREFIX", "P"} {
			legacy := ref.KeyText(pre, "", k.Data)
			if s := k.LegacyString(pre); s != legacy {
				w.Fail("key %x has legacy text %q, want %q", k.Data, s, legacy)
			}
			p, err := chain.NewPublicKeyFromString(legacy)
			if err != nil || p.Type != chain.K1 || !bytes.Equal(p.Data, k.Data) {
				w.Fail("legacy key text %q gives %v, %v", legacy, p, err)
			}
		}
	}
	w.NonTrivial()
	w.Eval(10)
	w.Sample(func() string { return want })
}

func sigForms(w *mcx.W, k chain.Signature) {
	nm := curveNames[k.Type]
	want := ref.KeyText("SIG_"+nm+"_", nm, k.Data)
	if s := k.String(); s != want {
		w.Fail("signature %v %x formats as %q, want %q", k.Type, k.Data, s, want)
	}
	p, err := chain.NewSignatureString(want)
	if err != nil || p.Type != k.Type || !bytes.Equal(p.Data, k.Data) {
		w.Fail("signature text %q gives %v, %v", want, p, err)
	}
	x := chain.Signature{Type: 1, Data: []byte{9}}
	if t, err := k.MarshalText(); err != nil || string(t) != want || x.UnmarshalText(t) != nil || !ref.EqAny(x, k) {
		w.Fail("signature text form %q, %v, back %v", t, err, x)
	}
	x = chain.Signature{}
	if j, err := json.Marshal(k); err != nil || string(j) != `"`+want+`"` || json.Unmarshal(j, &x) != nil || !ref.EqAny(x, k) {
		w.Fail("signature JSON form %s, %v, back %v", j, err, x)
	}
	if np := chain.NewSignature(k.Type, k.Data); !ref.EqAny(*np, k) {
		w.Fail("NewSignature(%v, %x) = %v", k.Type, k.Data, np)
	}
	w.NonTrivial()
	w.Eval(6)
}

// wireOK: is data exactly the payload of a key (sig = false) or signature of that curve? loose: it is, but with
// a length written in more bytes than needed.
func wireOK(sig bool, t int, d []byte) (ok, loose bool) {
	n, parts := 33, 0
	if sig {
		n = 65
	}
	if t == 2 {
		parts = 1
		if sig {
			parts = 2
		} else {
			n = 34
		}
	}
	if len(d) < n {
		return
	}
	d = d[n:]
	for ; parts > 0; parts-- {
		l, k := uint64(0), 0
		for {
			if k == len(d) || k == 5 {
				return
			}
			l |= uint64(d[k]&127) << (7 * k)
			k++
			if d[k-1] < 128 {
				break
			}
		}
		if k > 1 && d[k-1] == 0 {
			loose = true
		}
		if l > uint64(len(d)-k) {
			return
		}
		d = d[uint64(k)+l:]
	}
	return len(d) == 0, loose
}

// keyText judges any text given to the two parsers.
func keyText(w *mcx.W, s string) {
	for sg := 0; sg < 2; sg++ {
		pre := []string{"PUB_", "SIG_"}[sg]
		must, may := false, false
		var wt int
		var wd []byte
		if len(s) >= 7 && s[:4] == pre && s[6] == '_' {
			for t, nm := range curveNames {
				if s[4:6] != nm {
					continue
				}
				d, ok := ref.Base58Decode(s[7:])
				if n := len(d) - 4; ok && n >= 0 && bytes.Equal(ref.Rmd4(d[:n], nm), d[n:]) {
					good, loose := wireOK(sg == 1, t, d[:n])
					wt, wd, must, may = t, d[:n], good && !loose, good
				}
			}
		} else if sg == 0 && len(s) >= 50 && s[:4] != pre {
			d, ok := ref.Base58Decode(s[len(s)-50:])
			if n := len(d) - 4; ok && n == 33 && bytes.Equal(ref.Rmd4(d[:n], ""), d[n:]) {
				wt, wd, may = 0, d[:n], true
				must = d[0] == 2 || d[0] == 3
			}
		}
		var gt chain.KeyType
		var gd []byte
		var err, uerr error
		var same bool
		if sg == 0 {
			var k *chain.PublicKey
			k, err = chain.NewPublicKeyFromString(s)
			if err == nil {
				gt, gd = k.Type, k.Data
			} else if k != nil {
				w.Fail("key text %q gives both %v and %v", s, k, err)
			}
			x := chain.PublicKey{Type: 1, Data: []byte{7}}
			uerr = x.UnmarshalText([]byte(s))
			same = err != nil || ref.EqAny(x, *k)
		} else {
			var k *chain.Signature
			k, err = chain.NewSignatureString(s)
			if err == nil {
				gt, gd = k.Type, k.Data
			} else if k != nil {
				w.Fail("signature text %q gives both %v and %v", s, k, err)
			}
			x := chain.Signature{Type: 1, Data: []byte{7}}
			uerr = x.UnmarshalText([]byte(s))
			same = err != nil || ref.EqAny(x, *k)
		}
		kind := []string{"public key", "signature"}[sg]
		if err == nil && !may {
			w.Fail("%s text %q is accepted as %v %x", kind, s, gt, gd)
		}
		if err != nil && must {
			w.Fail("%s text %q is rejected: %v", kind, s, err)
		}
		if err == nil && (int(gt) != wt || !bytes.Equal(gd, wd)) {
			w.Fail("%s text %q gives %v %x, want %v %x", kind, s, gt, gd, wt, wd)
		}
		if (err == nil) != (uerr == nil) || !same {
			w.Fail("%s text %q: UnmarshalText disagrees with the constructor: %v, %v", kind, s, uerr, err)
		}
	}
	w.NonTrivial()
	w.Eval(3)
}

func runC12(r *mcx.Run) {
	payload := func(n int, k uint64) []byte {
		b := pat(n, byte(k))
		b[1] ^= byte(k >> 3)
		switch k {
		case 0:
			b = make([]byte, n)
		case 1:
			for i := range b {
				b[i] = 0xff
			}
		case 2, 3, 4, 5:
			copy(b, make([]byte, k-1))
		default:
			if k%2 == 0 {
				b[0] = 2 + byte(k>>1&1)
			}
		}
		return b
	}
	r.Sweep("keys", 512*2, func(w *mcx.W, i uint64) {
		keyForms(w, chain.PublicKey{Type: chain.KeyType(i % 2), Data: payload(33, i/2)})
		sigForms(w, chain.Signature{Type: chain.KeyType(i % 2), Data: payload(65, i/2)})
	})
	r.Sweep("compressed points", 2*33*256, func(w *mcx.W, i uint64) {
		d := pat(33, byte(i&1))
		d[i>>9] = byte(i >> 1)
		d[0] = 2 + byte(i&1)
		keyForms(w, chain.PublicKey{Type: chain.K1, Data: d})
	})
	lim := uint64(mcx.Pick(r, 140, 300))
	r.Sweep("webauthn", lim*16, func(w *mcx.W, i uint64) {
		n, k := int(i/16), int(i%16)
		keyForms(w, key(chain.WA, n))
		sigForms(w, sig(chain.WA, n, []int{0, 1, 2, 37, 64, 126, 127, 128, 129, 200, 255, 256, 257, 3, 5, 9}[k]))
	})

	var seeds []string
	for k := 0; k < mcx.Pick(r, 3, 8); k++ {
		for t := chain.K1; t <= chain.WA; t++ {
			pk, sg := key(t, 5+7*k), sig(t, 3+k, 2+11*k)
			seeds = append(seeds, ref.KeyText("PUB_"+curveNames[t]+"_", curveNames[t], pk.Data), ref.KeyText("SIG_"+curveNames[t]+"_", curveNames[t], sg.Data))
		}
		k1, k2 := key(chain.K1, 2*k), key(chain.K1, 2*k+1)
		seeds = append(seeds, ref.KeyText("EOS", "", k1.Data), ref.KeyText("FIO", "", k2.Data))
	}
	seeds = append(seeds, "EOS6MRyAjQq8ud7hVNYcfnVPJqcVpscN5So8BhtHuGYqET5GDW5CV", "PUB_K1_6MRyAjQq8ud7hVNYcfnVPJqcVpscN5So8BhtHuGYqET5BoDq63")
	al := all256
	ns := uint64(len(seeds))
	r.Sweep("edits", ns, func(w *mcx.W, i uint64) {
		keyText(w, seeds[i])
		edits(seeds[i], al, func(s string) { keyText(w, s) })
	})
	r.Sweep("swaps and cuts", ns*200, func(w *mcx.W, i uint64) {
		s, p := seeds[i%ns], int(i/ns)
		if p >= len(s) {
			return
		}
		for q := p + 1; q < len(s); q++ {
			b := []byte(s)
			b[p], b[q] = b[q], b[p]
			keyText(w, string(b))
			keyText(w, s[:p]+s[q:])
			keyText(w, s[p:q])
		}
		keyText(w, s[p:])
		keyText(w, s+s[p:])
		keyText(w, s[:p]+"\n"+s[p:])
		keyText(w, s[:p]+"é"+s[p:])
	})
	pres := []string{"PUB_", "SIG_", "PVT_", "pub_", "PUB", "EOS", "", "PUB_K1", "_"}
	sep := []string{"_", "", "-", "K", "1"}
	r.Sweep("prefixes", ns*uint64(len(pres)*len(sep))*7, func(w *mcx.W, i uint64) {
		s := seeds[i%ns]
		body := s[3:]
		if s[3] == '_' {
			body = s[7:]
		}
		i /= ns
		pre := pres[i%uint64(len(pres))]
		i /= uint64(len(pres))
		sp := sep[i%uint64(len(sep))]
		keyText(w, pre+[]string{"K1", "P1", "WA", "R1", "k1", "", "XX"}[i/uint64(len(sep))]+sp+body)
	})
	tags := []byte("K1PRWAX_")
	r.Sweep("curve tags", ns*512, func(w *mcx.W, i uint64) {
		s := seeds[i%ns]
		if s[3] != '_' {
			return
		}
		k := i / ns
		keyText(w, s[:4]+string([]byte{tags[k&7], tags[k>>3&7], tags[k>>6]})+s[7:])
	})
	// right checksum, wrong payload
	r.Sweep("payload lengths", 141*2*3*5, func(w *mcx.W, i uint64) {
		n := int(i % 141)
		i /= 141
		pre := pres[i%2]
		i /= 2
		nm := curveNames[i%3]
		k := i / 3
		d := pat(n, byte(k))
		if n > 34 {
			switch k {
			case 0:
				d[34] = byte(n - 35)
			case 1:
				d[34] = byte(n - 34)
			case 2:
				d[34] = 0x80
			case 3:
				if n > 66 {
					d[65] = byte(n - 67)
					d[n-1] = 0
				}
			}
		}
		keyText(w, ref.KeyText(pre+nm+"_", nm, d))
		for _, o := range append([]string{""}, curveNames...) {
			keyText(w, ref.KeyText(pre+nm+"_", o, d))
			keyText(w, ref.KeyText("EOS", o, d))
		}
	})
	// checksums over every other suffix
	var sufs []string
	const sc = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
	for _, a := range sc {
		for _, b := range sc {
			sufs = append(sufs, string(a)+string(b))
		}
	}
	for _, nm := range curveNames {
		sufs = append(sufs, strings.ToLower(nm), "PUB_"+nm, "SIG_"+nm, "PUB_"+nm+"_", "SIG_"+nm+"_", "_"+nm, nm+"_", "_"+nm+"_", nm+nm, nm+"\x00", nm[:1], nm[1:], "EOS"+nm, "\x00", "\x01", "\x02", "")
	}
	r.Sweep("checksum suffixes", uint64(len(sufs)*3), func(w *mcx.W, i uint64) {
		su, t := sufs[i/3], chain.KeyType(i%3)
		for k := 0; k < 4; k++ {
			pk, sg := key(t, 4*k), sig(t, 3*k, 5*k)
			keyText(w, ref.KeyText("PUB_"+curveNames[t]+"_", su, pk.Data))
			keyText(w, ref.KeyText("SIG_"+curveNames[t]+"_", su, sg.Data))
			if t == chain.K1 {
				for _, pre := range []string{"EOS", "FIO", "", "XYZABC", "PUB", "PUB_K1", "SIG_K1_"} {
					keyText(w, ref.KeyText(pre, su, pk.Data))
				}
			}
			// other checksums than RIPEMD-160
			for _, body := range [][]byte{pk.Data, sg.Data} {
				d := append(append([]byte{}, body...), su...)
				h1, h2 := sha256.Sum256(d), sha512.Sum512(d)
				rm := ref.RIPEMD160(d)
				for _, c := range [][]byte{h1[:4], h2[:4], ref.Sha256d4(d), rm[4:8], rm[16:], {rm[3], rm[2], rm[1], rm[0]}} {
					txt := ref.Base58(append(append([]byte{}, body...), c...))
					keyText(w, "PUB_"+curveNames[t]+"_"+txt)
					keyText(w, "SIG_"+curveNames[t]+"_"+txt)
					keyText(w, "EOS"+txt)
				}
			}
		}
	})
	r.Sweep("webauthn payloads", 64*64*3, func(w *mcx.W, i uint64) {
		// sizes claimed and sizes present disagree
		claim, have := int(i&63), int(i>>6&63)
		d := append(pat(34, 1), byte(claim))
		d = append(d, pat(have, 2)...)
		s := append(pat(65, 1), byte(claim))
		s = append(s, pat(have, 2)...)
		switch i >> 12 {
		case 1:
			s = append(s, 0)
		case 2:
			s = append(s, 5, 1, 2, 3, 4, 5)
			d = append(d[:34], byte(claim)|0x80, 0)
		}
		keyText(w, ref.KeyText("PUB_WA_", "WA", d))
		keyText(w, ref.KeyText("SIG_WA_", "WA", s))
	})
	for n := 0; n <= 3; n++ {
		r.Sweep(fmt.Sprintf("all texts of length %d", n), 1<<(8*mcx.Pick(r, min(n, 2), n)), func(w *mcx.W, i uint64) {
			keyText(w, string(ref.LE(i, n)))
		})
	}
	overAlphabet(r, "short texts", []byte("PUBK1_2"), mcx.Pick(r, 7, 8), keyText)
	overAlphabet(r, "after prefix", []byte("K1_2z"), mcx.Pick(r, 7, 9), func(w *mcx.W, s string) {
		keyText(w, "PUB_"+s)
		keyText(w, "SIG_"+s)
	})
	r.Sweep("text lengths", 300, func(w *mcx.W, i uint64) {
		for _, c := range []string{"1", "2", "z", "_", "é", "\x00"} {
			b := ""
			for len(b) < int(i) {
				b += c
			}
			for _, p := range []string{"", "PUB_K1_", "PUB_WA_", "SIG_K1_", "SIG_WA_", "EOS"} {
				keyText(w, p+b)
			}
		}
	})
}
