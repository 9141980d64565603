package checks

import (
	"bytes"
	"fmt"
	"reflect"

	"verif/mcx"
	"verif/ref"

	"github.com/greymass/go-eosio/pkg/chain"
)

func init() {
	register(&Check{
		ID: "C03", Level: "exploration",
		Rule:   "every chain type is encoded by every codec path (chain, custom, plain; by value and by pointer; bare and inside 14 container constructors, two levels deep), compared with a layout written out field by field in the harness, and decoded back with trailing bytes. Scalars sweep byte-alphabet products; keys, signatures, actions, transactions and ABIs sweep every combination of list and data lengths around the prefix boundaries. A case is non-trivial when the value is not the zero value.",
		Bounds: "64-bit scalars: 3^8 (quick) / 5^8 (thorough) byte patterns; 32-bit: 7^4; 128-bit and checksums: every single-byte pattern; WebAuthn lengths 0..300 and around 16384 and 65536; actions: 0..300 authorizations and data lengths 0..300, 16383..16385, 65535..65537; transactions: all of {0,1,2,3,127,128,129}^3 list lengths and each list up to 65537; ABI definitions: every section of length 0,1,2,130 with the others of length 0 and 1; containers of depth 1 and 2 over all 35 chain types.",
		Run:    runC03,
	})
}

func u64le(v uint64) []byte { return ref.LE(v, 8) }
func lbytes(b []byte) []byte {
	return append(ref.Uvar(uint64(len(b))), b...)
}
func lstr(s string) []byte { return lbytes([]byte(s)) }
func cat(p ...[]byte) []byte {
	out := []byte{}
	for _, b := range p {
		out = append(out, b...)
	}
	return out
}
func lcat[T any](xs []T, f func(T) []byte) []byte {
	b := ref.Uvar(uint64(len(xs)))
	for _, x := range xs {
		b = append(b, f(x)...)
	}
	return b
}

// layout states the wire form of the chain types by field name, independently of declaration order.
func layout(v any) []byte {
	switch x := v.(type) {
	case chain.Name:
		return u64le(uint64(x))
	case chain.Symbol:
		return u64le(uint64(x))
	case chain.SymbolCode:
		return u64le(uint64(x))
	case chain.Uint64:
		return u64le(uint64(x))
	case chain.TimePoint:
		return u64le(uint64(x))
	case chain.BlockNum:
		return ref.LE(uint64(x), 4)
	case chain.TimePointSec:
		return ref.LE(uint64(x), 4)
	case chain.BlockTimestamp:
		return ref.LE(uint64(x), 4)
	case chain.Asset:
		return cat(u64le(uint64(x.Value)), u64le(uint64(x.Symbol)))
	case chain.ExtendedAsset:
		return cat(layout(x.Quantity), layout(x.Contract))
	case chain.Checksum160:
		return x[:]
	case chain.Checksum256:
		return x[:]
	case chain.Checksum512:
		return x[:]
	case chain.Uint128:
		return cat(u64le(x.Lo), u64le(x.Hi))
	case chain.Int128:
		return cat(u64le(x.Lo), u64le(x.Hi))
	case chain.Float128:
		return x.Data[:]
	case chain.Bytes:
		return lbytes(x)
	case chain.Blob:
		return lbytes(x)
	case chain.PublicKey:
		return cat([]byte{byte(x.Type)}, x.Data)
	case chain.Signature:
		return cat([]byte{byte(x.Type)}, x.Data)
	case chain.PermissionLevel:
		return cat(layout(x.Actor), layout(x.Permission))
	case chain.Action:
		return cat(layout(x.Account), layout(x.Name), lcat(x.Authorization, func(p chain.PermissionLevel) []byte { return layout(p) }), lbytes(x.Data))
	case chain.TransactionHeader:
		return cat(layout(x.Expiration), ref.LE(uint64(x.RefBlockNum), 2), ref.LE(uint64(x.RefBlockPrefix), 4), ref.Uvar(uint64(x.MaxNetUsageWords)), []byte{x.MaxCpuUsageMs}, ref.Uvar(uint64(x.DelaySec)))
	case chain.TransactionExtension:
		return cat(ref.LE(uint64(x.Type), 2), lbytes(x.Data))
	case chain.Transaction:
		act := func(a chain.Action) []byte { return layout(a) }
		return cat(layout(x.TransactionHeader), lcat(x.ContextFreeActions, act), lcat(x.Actions, act), lcat(x.Extensions, func(e chain.TransactionExtension) []byte { return layout(e) }))
	case chain.AbiType:
		return cat(lstr(x.NewTypeName), lstr(x.Type))
	case chain.AbiField:
		return cat(lstr(x.Name), lstr(x.Type))
	case chain.AbiStruct:
		return cat(lstr(x.Name), lstr(x.Base), lcat(x.Fields, func(f chain.AbiField) []byte { return layout(f) }))
	case chain.AbiAction:
		return cat(layout(x.Name), lstr(x.Type), lstr(x.RicardianContract))
	case chain.AbiTable:
		return cat(layout(x.Name), lstr(x.IndexType), lcat(x.KeyNames, lstr), lcat(x.KeyTypes, lstr), lstr(x.Type))
	case chain.AbiClause:
		return cat(lstr(x.Id), lstr(x.Body))
	case chain.AbiErrorMessage:
		return cat(u64le(uint64(x.Code)), lstr(x.Message))
	case chain.AbiExtension:
		return cat(ref.LE(uint64(x.Type), 2), lbytes(x.Data))
	case *chain.AbiExtension:
		return layout(*x)
	case chain.AbiVariant:
		return cat(lstr(x.Name), lcat(x.Types, lstr))
	case chain.Abi:
		return cat(lstr(x.Version), lcat(x.Types, func(v chain.AbiType) []byte { return layout(v) }), lcat(x.Structs, func(v chain.AbiStruct) []byte { return layout(v) }),
			lcat(x.Actions, func(v chain.AbiAction) []byte { return layout(v) }), lcat(x.Tables, func(v chain.AbiTable) []byte { return layout(v) }),
			lcat(x.RicardianClauses, func(v chain.AbiClause) []byte { return layout(v) }), lcat(x.ErrorMessages, func(v chain.AbiErrorMessage) []byte { return layout(v) }),
			lcat(x.Extensions, func(v *chain.AbiExtension) []byte { return layout(v) }), lcat(x.Variants, func(v chain.AbiVariant) []byte { return layout(v) }))
	}
	panic(fmt.Sprintf("no layout for %T", v))
}

func chainCase(w *mcx.W, v any) {
	rv := reflect.ValueOf(v)
	want := layout(v)
	if model := ref.MustEnc(v); !bytes.Equal(model, want) {
		w.Fail("the struct layout of %T no longer has the EOSIO field order: %s, want %s", v, hexs(model), hexs(want))
	}
	roundTrip(w, rv)
	if !rv.IsZero() {
		w.NonTrivial()
	}
	w.Sample(func() string { return clip(fmt.Sprintf("%s -> %x", show(rv), want)) })
}

func word(i uint64, al []byte) uint64 { return alphaWord(i, 8, al) }

func mkAction(auths, data int) chain.Action {
	a := chain.Action{Account: chain.Name(0x0102030405060708), Name: chain.Name(0x1112131415161718)}
	for i := 0; i < auths; i++ {
		a.Authorization = append(a.Authorization, chain.PermissionLevel{Actor: chain.Name(0x2100 + i), Permission: chain.Name(^uint64(i))})
	}
	if data > 0 {
		a.Data = pat(data, byte(data))
	}
	return a
}

func mkTx(a, b, c int) chain.Transaction {
	t := chain.Transaction{TransactionHeader: chain.TransactionHeader{Expiration: 0x01020304, RefBlockNum: 0x0506, RefBlockPrefix: 0x0708090a, MaxNetUsageWords: uint(a) * 1000, MaxCpuUsageMs: uint8(b), DelaySec: uint(uint32(c) << 20)}}
	for i := 0; i < a; i++ {
		t.ContextFreeActions = append(t.ContextFreeActions, mkAction(i%3, i%5))
	}
	for i := 0; i < b; i++ {
		t.Actions = append(t.Actions, mkAction(1+i%2, i%4))
	}
	for i := 0; i < c; i++ {
		t.Extensions = append(t.Extensions, chain.TransactionExtension{Type: uint16(i * 257), Data: pat(i%6, 1)})
	}
	return t
}

// mkAbi builds a definition whose sections have the given lengths.
func mkAbi(n [8]int) chain.Abi {
	a := chain.Abi{Version: "eosio::abi/1.1"}
	s := func(p string, i int) string { return fmt.Sprintf("%s%d", p, i) }
	for i := 0; i < n[0]; i++ {
		a.Types = append(a.Types, chain.AbiType{NewTypeName: s("t", i), Type: s("u", i)})
	}
	for i := 0; i < n[1]; i++ {
		st := chain.AbiStruct{Name: s("s", i), Base: s("", i)[:i%2]}
		for j := 0; j < i%4; j++ {
			st.Fields = append(st.Fields, chain.AbiField{Name: s("f", j), Type: s("g", j)})
		}
		a.Structs = append(a.Structs, st)
	}
	for i := 0; i < n[2]; i++ {
		a.Actions = append(a.Actions, chain.AbiAction{Name: chain.Name(i + 0x77), Type: s("a", i), RicardianContract: s("r", i)})
	}
	for i := 0; i < n[3]; i++ {
		t := chain.AbiTable{Name: chain.Name(i + 0x99), IndexType: s("i", i), Type: s("y", i)}
		for j := 0; j < i%3; j++ {
			t.KeyNames = append(t.KeyNames, s("k", j))
		}
		for j := 0; j < (i+1)%3; j++ {
			t.KeyTypes = append(t.KeyTypes, s("l", j))
		}
		a.Tables = append(a.Tables, t)
	}
	for i := 0; i < n[4]; i++ {
		a.RicardianClauses = append(a.RicardianClauses, chain.AbiClause{Id: s("c", i), Body: s("b", i)})
	}
	for i := 0; i < n[5]; i++ {
		a.ErrorMessages = append(a.ErrorMessages, chain.AbiErrorMessage{Code: chain.Uint64(uint64(i) << 33), Message: s("m", i)})
	}
	for i := 0; i < n[6]; i++ {
		a.Extensions = append(a.Extensions, &chain.AbiExtension{Type: uint16(i * 300), Data: pat(i%4, 2)})
	}
	for i := 0; i < n[7]; i++ {
		v := chain.AbiVariant{Name: s("v", i)}
		for j := 0; j < i%3; j++ {
			v.Types = append(v.Types, s("w", j))
		}
		a.Variants = append(a.Variants, v)
	}
	return a
}

func runC03(r *mcx.Run) {
	al := mcx.Pick(r, []byte{0, 0x5a, 0xff}, []byte{0, 1, 0x5a, 0x80, 0xff})
	n8 := pow(len(al), 8)
	for _, t := range []reflect.Type{typeOf[chain.Name](), typeOf[chain.Symbol](), typeOf[chain.SymbolCode](), typeOf[chain.Uint64](), typeOf[chain.TimePoint]()} {
		t := t
		r.Sweep(t.Name(), n8, func(w *mcx.W, i uint64) {
			chainCase(w, reflect.ValueOf(word(i, al)).Convert(t).Interface())
		})
	}
	al7 := []byte{0, 1, 0x5a, 0x7f, 0x80, 0xfe, 0xff}
	for _, t := range []reflect.Type{typeOf[chain.BlockNum](), typeOf[chain.TimePointSec](), typeOf[chain.BlockTimestamp]()} {
		t := t
		r.Sweep(t.Name(), pow(7, 4), func(w *mcx.W, i uint64) {
			chainCase(w, reflect.ValueOf(uint32(alphaWord(i, 4, al7))).Convert(t).Interface())
		})
	}
	// fixed-size byte types: every byte position with every value on two backgrounds
	r.Sweep("fixed bytes", 64*256*2, func(w *mcx.W, i uint64) {
		pos, val, bg := int(i&63), byte(i>>6), byte(0)
		if i>>14 == 1 {
			bg = 0xff
		}
		var b [64]byte
		for k := range b {
			b[k] = bg
		}
		b[pos] = val
		var c160 chain.Checksum160
		var c256 chain.Checksum256
		var f chain.Float128
		if pos < 16 {
			copy(f.Data[:], b[:])
			chainCase(w, f)
			chainCase(w, chain.Uint128{Lo: ref.FromLE(b[:8]), Hi: ref.FromLE(b[8:16])})
			chainCase(w, chain.Int128{Lo: ref.FromLE(b[:8]), Hi: ref.FromLE(b[8:16])})
			a := chain.Asset{Value: int64(ref.FromLE(b[:8])), Symbol: chain.Symbol(ref.FromLE(b[8:16]))}
			chainCase(w, a)
			chainCase(w, chain.PermissionLevel{Actor: chain.Name(ref.FromLE(b[:8])), Permission: chain.Name(ref.FromLE(b[8:16]))})
		}
		if pos < 24 {
			chainCase(w, chain.ExtendedAsset{Quantity: chain.Asset{Value: int64(ref.FromLE(b[:8])), Symbol: chain.Symbol(ref.FromLE(b[8:16]))}, Contract: chain.Name(ref.FromLE(b[16:24]))})
		}
		if pos < 20 {
			copy(c160[:], b[:])
			chainCase(w, c160)
		}
		if pos < 32 {
			copy(c256[:], b[:])
			chainCase(w, c256)
		}
		chainCase(w, chain.Checksum512(b))
	})
	// keys and signatures
	lens := []int{}
	for i := 0; i <= 300; i++ {
		lens = append(lens, i)
	}
	lens = append(lens, 1023, 1024, 1025, 2048, 4096, 16383, 16384, 16385, 65535, 65536, 65537)
	r.Sweep("public keys", uint64(2*33*256+len(lens)), func(w *mcx.W, i uint64) {
		if i >= 2*33*256 {
			chainCase(w, key(chain.WA, lens[i-2*33*256]))
			return
		}
		k := key(chain.KeyType(i&1), 1)
		k.Data[i>>1%33] = byte(i / 66)
		chainCase(w, k)
	})
	r.Sweep("signatures", 2*65*256, func(w *mcx.W, i uint64) {
		k := sig(chain.KeyType(i&1), 1, 1)
		k.Data[i>>1%65] = byte(i / 130)
		chainCase(w, k)
	})
	sl := mcx.Pick(r, []int{0, 1, 2, 37, 126, 127, 128, 129, 255, 256, 1024, 1025, 16383, 16384, 65535, 65536, 65537}, lens)
	r.Sweep("WA signatures", uint64(len(sl)*len(sl)), func(w *mcx.W, i uint64) {
		chainCase(w, sig(chain.WA, sl[i/uint64(len(sl))], sl[i%uint64(len(sl))]))
	})
	// byte strings
	r.Sweep("bytes and blobs", uint64(len(lens)), func(w *mcx.W, i uint64) {
		chainCase(w, chain.Bytes(pat(lens[i], 3)))
		chainCase(w, chain.Blob(pat(lens[i], 4)))
		chainCase(w, chain.TransactionExtension{Type: uint16(i * 200), Data: pat(lens[i], 5)})
		chainCase(w, chain.AbiExtension{Type: uint16(i * 200), Data: pat(lens[i], 5)})
	})
	// actions
	r.Sweep("actions", uint64(len(lens)*len(lens)), func(w *mcx.W, i uint64) {
		a, d := lens[i/uint64(len(lens))], lens[i%uint64(len(lens))]
		if !r.Thorough && a > 3 && d > 3 && !(a >= 126 && a <= 129 && d >= 126 && d <= 129) {
			return
		}
		if a > 300 && d > 300 {
			return
		}
		chainCase(w, mkAction(a, d))
	})
	// transaction headers: alphabet product
	h16 := []uint64{0, 1, 0x1234, 0xffff}
	h32 := []uint64{0, 1, 127, 128, 0x01020304, 0xffffffff}
	r.Sweep("transaction headers", uint64(6*4*6*6*4*6), func(w *mcx.W, i uint64) {
		d := func(n uint64) uint64 { v := i % n; i /= n; return v }
		chainCase(w, chain.TransactionHeader{Expiration: chain.TimePointSec(h32[d(6)]), RefBlockNum: uint16(h16[d(4)]), RefBlockPrefix: uint32(h32[d(6)]),
			MaxNetUsageWords: uint(h32[d(6)]), MaxCpuUsageMs: uint8([]int{0, 1, 128, 255}[d(4)]), DelaySec: uint(h32[d(6)])})
	})
	tl := []int{0, 1, 2, 3, 127, 128, 129}
	if r.Thorough {
		tl = append(tl, 4, 5, 60, 255, 256, 300, 1024, 1025)
	}
	nt := uint64(len(tl))
	r.Sweep("transactions", nt*nt*nt, func(w *mcx.W, i uint64) {
		chainCase(w, mkTx(tl[i/nt/nt], tl[i/nt%nt], tl[i%nt]))
	})
	ll := []int{255, 256, 257, 300, 1023, 1024, 1025, 4096, 5000, 16384, 65536, 65537}
	r.Sweep("long transactions", uint64(3*len(ll)), func(w *mcx.W, i uint64) {
		n := [3]int{1, 1, 1}
		n[i%3] = ll[i/3]
		chainCase(w, mkTx(n[0], n[1], n[2]))
	})
	// out-of-range header fields cannot be written as something else
	r.Sweep("header overflow", 4, func(w *mcx.W, i uint64) {
		h := chain.TransactionHeader{}
		v := uint(1) << (32 + 8*(i/2))
		if i%2 == 0 {
			h.MaxNetUsageWords = v
		} else {
			h.DelaySec = v
		}
		for _, c := range codecs {
			for _, x := range []any{h, &h, chain.Transaction{TransactionHeader: h}, []chain.TransactionHeader{h}} {
				if b, err := c.encode(x); err == nil {
					w.Fail("%s codec writes the out-of-range header %+v as %x", c.name, h, b)
				}
			}
		}
		w.NonTrivial()
	})
	// ABI definitions
	al4 := mcx.Pick(r, []int{0, 1, 2}, []int{0, 1, 3})
	r.Sweep("abi sections", pow(len(al4), 8), func(w *mcx.W, i uint64) {
		var n [8]int
		for k := range n {
			n[k] = al4[i%uint64(len(al4))]
			i /= uint64(len(al4))
		}
		chainCase(w, mkAbi(n))
	})
	r.Sweep("abi long sections", 8*6*2, func(w *mcx.W, i uint64) {
		var n [8]int
		for k := range n {
			n[k] = int(i / 48)
		}
		n[i%8] = []int{0, 2, 127, 128, 130, 1025}[i/8%6]
		chainCase(w, mkAbi(n))
	})
	// an ABI without the variants section, as chains before 1.1 store it
	r.Sweep("abi without variants", 4, func(w *mcx.W, i uint64) {
		a := mkAbi([8]int{int(i), 1, 1, int(i), 1, 1, int(i), 0})
		b := layout(a)
		b = b[:len(b)-1]
		for _, c := range codecs {
			got, n, err := c.decodeNew(typeOf[chain.Abi](), b)
			if err != nil || n != len(b) || !ref.EqAny(got.Interface(), a) {
				w.Fail("%s codec: ABI without variants section decodes as %s, %v", c.name, show(got), err)
			}
		}
		w.NonTrivial()
	})
	// every container position
	check := func(w *mcx.W, v reflect.Value) {
		roundTrip(w, v)
		w.NonTrivial()
	}
	sweepTypes(r, "chain types", chainLeaves, check)
	sweepTypes(r, "containers", closure(chainLeaves, 1, allCtors), check)
	sweepTypes(r, "nested containers", closure(chainLeaves, 2, mcx.Pick(r, []int{0, 1, 2, 4, 5, 7, 8, 10, 11}, allCtors)), check)
	// all ordered pairs of chain types side by side
	var pairs []reflect.Type
	for _, a := range chainLeaves {
		for _, b := range chainLeaves {
			pairs = append(pairs, reflect.StructOf([]reflect.StructField{field("A", a, ""), field("B", reflect.PointerTo(b), ""), field("C", reflect.SliceOf(a), "")}))
		}
	}
	sweepTypes(r, "pairs", pairs, check)
}
