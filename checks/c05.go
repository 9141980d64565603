package checks

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"reflect"
	"testing/iotest"

	"verif/mcx"
	"verif/ref"

	"github.com/greymass/go-eosio/pkg/chain"
)

func init() {
	register(&Check{
		ID: "C05", Level: "exploration",
		Rule:   "for every value of every type of the universe (static codecs and ABI-driven) its encoding is cut at every position and decoded; a cut is accepted only where the reference decoder accepts it, which is exactly before trailing extensions. Every case that cuts at least one byte is non-trivial.",
		Bounds: "static: leaves, chain types, named types, constructor depth 1 over all leaves and depth 2 over 22 leaves (quick) / chain types too (thorough); ABI: all base types under suffix depth 1, struct positions and extensions; every cut for encodings up to 700 bytes, for longer ones the first and last 300 and 64 evenly spaced ones; three reader behaviours at end of input.",
		Run:    runC05,
	})
}

func cuts(n int) []int {
	var out []int
	if n <= 700 {
		for i := 0; i < n; i++ {
			out = append(out, i)
		}
		return out
	}
	for i := 0; i < 300; i++ {
		out = append(out, i)
	}
	for i := 1; i < 64; i++ {
		out = append(out, 300+(n-600)*i/64)
	}
	for i := n - 300; i < n; i++ {
		out = append(out, i)
	}
	return out
}

var enders = []struct {
	name string
	wrap func(io.Reader) io.Reader
}{
	{"plain reader", func(r io.Reader) io.Reader { return r }},
	{"reader returning data with EOF", iotest.DataErrReader},
	{"one-byte reader", iotest.OneByteReader},
	{"reader with nothing but Read", func(r io.Reader) io.Reader { return struct{ io.Reader }{r} }},
	{"reader with all optional methods", func(r io.Reader) io.Reader { return newRichR(r) }},
	{"bytes.Buffer", func(r io.Reader) io.Reader { b, _ := io.ReadAll(r); return bytes.NewBuffer(b) }},
	{"bufio.Reader", func(r io.Reader) io.Reader { return bufio.NewReaderSize(r, 16) }},
}

func truncStatic(w *mcx.W, v reflect.Value) {
	t := v.Type()
	b, err := ref.Enc(v)
	if err != nil {
		panic(err)
	}
	long := len(b) > 64
	for _, cut := range cuts(len(b)) {
		p := b[:cut:cut]
		want, d, werr := ref.Dec(t, p)
		for ci, c := range codecs {
			if ci > 0 && long && cut%7 != 0 {
				continue
			}
			for ei, e := range enders {
				if ei > 0 && (ci > 0 || long && cut%5 != 0) {
					continue
				}
				x := reflect.New(t)
				err := c.dec(e.wrap(bytes.NewReader(p))).Decode(x.Interface())
				w.Eval(1)
				if werr != nil && err == nil {
					w.Fail("%s codec, %s: the first %d of %d bytes of %s (%s) decode as %s", c.name, e.name, cut, len(b), show(v), hexs(b), show(x.Elem()))
				}
				if werr == nil && !d.Amb && (err != nil || !ref.Eq(x.Elem(), want)) {
					w.Fail("%s codec, %s: the first %d of %d bytes of %s (%s) are a complete value but decode as %s, %v", c.name, e.name, cut, len(b), show(v), hexs(b), show(x.Elem()), err)
				}
			}
		}
		w.NonTrivial()
	}
	w.Sample(func() string { return clip(fmt.Sprintf("%s cut at 0..%d", show(v), len(b)-1)) })
}

func truncAbi(w *mcx.W, a *chain.Abi, t *ref.AT, v any) {
	b, err := ref.AbiEnc(t, v)
	if err != nil {
		panic(err)
	}
	name := t.Expr()
	for _, cut := range cuts(len(b)) {
		p := b[:cut:cut]
		want, d, werr := ref.AbiDec(t, p)
		for ei, e := range enders {
			if ei > 0 && len(b) > 64 && cut%5 != 0 {
				continue
			}
			got, err := a.Decode(e.wrap(bytes.NewReader(p)), name)
			w.Eval(1)
			if werr != nil && err == nil {
				w.Fail("ABI type %s, %s: the first %d of %d bytes of %v (%s) decode as %v", name, e.name, cut, len(b), clip(fmt.Sprint(v)), hexs(b), clip(fmt.Sprint(got)))
			}
			if werr == nil && !d.Amb && (err != nil || !ref.EqAny(got, want)) {
				w.Fail("ABI type %s, %s: the first %d of %d bytes of %v (%s) are a complete value but decode as %v, %v", name, e.name, cut, len(b), clip(fmt.Sprint(v)), hexs(b), clip(fmt.Sprint(got)), err)
			}
		}
		w.NonTrivial()
	}
	w.Sample(func() string { return clip(fmt.Sprintf("%s %v cut at 0..%d", name, v, len(b)-1)) })
}

func runC05(r *mcx.Run) {
	leaves := leavesC02()
	all := append(append([]reflect.Type{}, builtinLeaves...), chainLeaves...)
	named := append(append([]reflect.Type{}, namedTypes...), extTypes...)
	sweepTypes(r, "leaves", all, truncStatic)
	sweepTypes(r, "named", named, truncStatic)
	sweepTypes(r, "depth 1", closure(all, 1, allCtors), truncStatic)
	sweepTypes(r, "named depth 1", closure(named, 1, allCtors), truncStatic)
	sweepTypes(r, "depth 2", closure(mcx.Pick(r, leaves, all), 2, allCtors), truncStatic)
	if r.Thorough {
		sweepTypes(r, "depth 3", closure([]reflect.Type{typeOf[uint16](), typeOf[string](), typeOf[chain.Name]()}, 3, allCtors), truncStatic)
	}
	r.Sweep("transactions", 64, func(w *mcx.W, i uint64) {
		truncStatic(w, reflect.ValueOf(mkTx(int(i&3), int(i>>2&3), int(i>>4))))
	})
	r.Sweep("keys", 40, func(w *mcx.W, i uint64) {
		truncStatic(w, reflect.ValueOf(key(chain.WA, int(i*i))))
		truncStatic(w, reflect.ValueOf(sig(chain.WA, int(i*3), int(i*i))))
		truncStatic(w, reflect.ValueOf([]chain.PublicKey{key(chain.WA, int(i)), key(chain.K1, 2)}))
	})
	r.Sweep("abi definitions", 256, func(w *mcx.W, i uint64) {
		var n [8]int
		for k := range n {
			n[k] = int(i >> k & 1)
		}
		truncStatic(w, reflect.ValueOf(mkAbi(n)))
	})
	lens := []int{1000, 1023, 1024, 1025, 1500, 2048, 3000, 5000, 20000}
	r.Sweep("long values", uint64(len(lens)*2), func(w *mcx.W, i uint64) {
		n := lens[i/2]
		if i%2 == 0 {
			truncStatic(w, reflect.ValueOf(pat(n, 1)))
			truncStatic(w, reflect.ValueOf(string(pat(n, 2))))
			truncStatic(w, reflect.ValueOf(chain.Bytes(pat(n, 2))))
			truncStatic(w, reflect.ValueOf(chain.Blob(pat(n, 2))))
			truncStatic(w, reflect.ValueOf(mkAction(0, n)))
		} else {
			truncStatic(w, reflect.ValueOf(make([]uint16, n)))
			truncStatic(w, reflect.ValueOf(mkAction(n/16, 3)))
			truncAbi(w, ref.Abi(), ref.Bi("bytes"), chain.Bytes(pat(n, 4)))
			truncAbi(w, ref.Abi(), ref.Bi("string"), string(pat(n, 4)))
		}
	})

	// the plain read methods
	r.Sweep("read methods", 17*4, func(w *mcx.W, i uint64) {
		truncRead(w, int(i%17), int(i/17))
	})

	base := abiBase()
	var ts, in []*ref.AT
	for _, t := range base {
		ts = append(ts, suffixed(t, mcx.Pick(r, 1, 2))...)
	}
	for i, t := range ts {
		nm := fmt.Sprintf("w%d", i)
		st := ref.Struct(nm, nil, af("p", t), af("q", ref.Bi("uint8")))
		al := ref.Alias("al"+nm, t)
		in = append(in, st, al, ref.Struct("d"+nm, st, af("r", al)), ref.Variant("v"+nm, ref.Bi("bool"), t))
		if !zeroWidth(t) {
			in = append(in, ref.Struct("x"+nm, nil, af("a", t), afx("e", t)), ref.Struct("y"+nm, nil, afx("e", t), afx("f", ref.Bi("uint32"))),
				ref.Struct("z"+nm, st, afx("e", ref.Opt(ref.Bi("name"))), afx("f", al)))
		}
	}
	sweepAbi(r, "abi types", ts, truncAbi)
	sweepAbi(r, "abi positions", in, truncAbi)

	// action data
	r.Sweep("action data", uint64(len(ts)), func(w *mcx.W, i uint64) {
		t := ref.Struct("act", nil, af("p", ts[i]), af("q", ref.Bi("string")))
		a := ref.Abi(t)
		a.Actions = []chain.AbiAction{{Name: 9, Type: "act"}}
		for _, v := range abiVals(t) {
			b, _ := ref.AbiEnc(t, v)
			for _, cut := range cuts(len(b)) {
				if _, _, err := ref.AbiDec(t, b[:cut]); err == nil {
					continue
				}
				if got, err := (chain.Action{Name: 9, Data: b[:cut]}).Decode(a); err == nil {
					w.Fail("Action.Decode of the first %d of %d bytes of %v gives %v", cut, len(b), v, got)
				}
				w.NonTrivial()
			}
		}
	})
	r.Sweep("action data static", 50, func(w *mcx.W, i uint64) {
		type data struct {
			A chain.Name
			B []chain.Asset
			C *string `eosio:"optional"`
			D chain.Checksum160
		}
		s := string(pat(int(i), 3))
		v := data{A: 5, B: make([]chain.Asset, i%4), C: &s}
		b := ref.MustEnc(v)
		for cut := 0; cut < len(b); cut++ {
			var d data
			if err := (chain.Action{Data: b[:cut]}).DecodeInto(&d); err == nil {
				w.Fail("Action.DecodeInto of the first %d of %d bytes gives %+v", cut, len(b), d)
			}
			w.NonTrivial()
		}
		var d data
		if err := (chain.Action{Data: b}).DecodeInto(&d); err != nil || !ref.EqAny(d, v) {
			w.Fail("Action.DecodeInto of %x gives %+v, %v", b, d, err)
		}
	})
}

// truncRead checks the exported Read methods on inputs that are one or more bytes short.
func truncRead(w *mcx.W, m int, k int) {
	full := []byte{0x85, 0x80, 0x80, 0x80, 0x01, 1, 2, 3, 4, 5}
	need := 0
	call := func(b []byte) error {
		d := codecs[0].dec(bytes.NewReader(b))
		var err error
		switch m {
		case 0:
			need = 1
			_, err = d.ReadByte()
		case 1:
			need = 1
			_, err = d.ReadUint8()
		case 2:
			need = 1
			_, err = d.ReadInt8()
		case 3:
			need = 2
			_, err = d.ReadUint16()
		case 4:
			need = 2
			_, err = d.ReadInt16()
		case 5:
			need = 4
			_, err = d.ReadUint32()
		case 6:
			need = 4
			_, err = d.ReadInt32()
		case 7:
			need = 8
			_, err = d.ReadUint64()
		case 8:
			need = 8
			_, err = d.ReadInt64()
		case 9:
			need = 4
			_, err = d.ReadFloat32()
		case 10:
			need = 8
			_, err = d.ReadFloat64()
		case 11:
			need = 5
			_, err = d.ReadVaruint()
		case 12:
			need = 5
			_, err = d.ReadVarint()
		case 13:
			need = 1
			_, err = d.ReadBool()
		case 14:
			need = 10
			_, _, err = d.ReadBytes(10)
		case 15:
			need = 3000
			_, _, err = d.ReadBytes(3000)
		case 16:
			need = 10
			_, err = d.ReadString()
		}
		return err
	}
	in := full
	switch m {
	case 15:
		in = pat(3000, 1)
	case 16:
		in = append([]byte{9}, pat(9, 1)...)
	}
	if err := call(in); err != nil {
		w.Fail("read method %d fails on %x: %v", m, in, err)
	}
	for n := 0; n < need; n++ {
		if err := call(in[:n:n]); err == nil {
			w.Fail("read method %d succeeds on %d of %d bytes", m, n, need)
		}
		w.NonTrivial()
	}
	_ = k
}
