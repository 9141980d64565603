package checks

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"strings"

	"verif/mcx"
	"verif/ref"

	"github.com/greymass/go-eosio/pkg/abi"
)

func init() {
	register(&Check{
		ID: "C01", Level: "exploration",
		Rule:   "every value of the stated domains of each primitive is encoded (typed method, Encode by value, Encode by pointer, chain/plain/custom codec) and compared with an independent byte model, then decoded with trailing bytes present; every byte string of the stated lengths is decoded as a variable-length integer and compared with the model. Values are distinct by construction; a case is non-trivial when its encoding is not all zero bytes (or, for byte strings, when it holds more than one byte).",
		Bounds: "8/16-bit: all values; 32-bit kinds: byte-alphabet product plus boundaries (quick), all 2^32 values (thorough); 64-bit kinds: all products of a 6-byte alphabet over 8 positions; varints: all values below 2^20, +-300 around every power of two, all out-of-range boundaries (quick), all 2^32 (thorough); varint byte strings: all of length <=2 (3 in thorough), 9-letter alphabet up to length 6, overlong up to 11; strings and byte arrays: all lengths 0..600, +-2 around 1024, 2048, 4096, 8192, 16384, 65536, 2^21.",
		Run:    runC01,
	})
}

type primScratch struct {
	buf  bytes.Buffer
	rd   *bytes.Reader
	encs []*abi.Encoder
	decs []*abi.Decoder
}

func scratch(w *mcx.W) *primScratch {
	if s, ok := w.Scratch.(*primScratch); ok {
		return s
	}
	s := &primScratch{rd: bytes.NewReader(nil)}
	outs := []io.Writer{&s.buf, struct{ *bytes.Buffer }{&s.buf}, struct{ io.Writer }{&s.buf}}
	ins := []io.Reader{s.rd, struct{ *bytes.Reader }{s.rd}, struct{ io.Reader }{s.rd}}
	for i, c := range codecs {
		s.encs = append(s.encs, c.enc(outs[i]))
		s.decs = append(s.decs, c.dec(ins[i]))
	}
	w.Scratch = s
	return s
}

type prim[T any] struct {
	name  string
	write func(*abi.Encoder, T) error
	read  func(*abi.Decoder) (T, error)
	want  func(T) []byte
	same  func(a, b T) bool
}

func eqT[T comparable](a, b T) bool { return a == b }

func (p prim[T]) full(w *mcx.W, v T) {
	s := scratch(w)
	want := p.want(v)
	try := func(how string, f func() error) {
		s.buf.Reset()
		if err := f(); err != nil {
			w.Fail("%s: %s of %v fails: %v", p.name, how, v, err)
		}
		if !bytes.Equal(s.buf.Bytes(), want) {
			w.Fail("%s: %s of %v gives %x, EOSIO form is %x", p.name, how, v, s.buf.Bytes(), want)
		}
	}
	for i := range codecs {
		try("write method", func() error { return p.write(s.encs[i], v) })
	}
	vp := &v
	for i, c := range codecs {
		e := s.encs[i]
		try(c.name+" Encode", func() error { return e.Encode(v) })
		try(c.name+" Encode pointer", func() error { return e.Encode(vp) })
	}
	in := withTail(want)
	for i, c := range codecs {
		s.rd.Reset(in)
		got, err := p.read(s.decs[i])
		if err != nil || !p.same(got, v) || s.rd.Len() != 3 {
			w.Fail("%s: read method on %x gives %v, %v and leaves %d bytes, want %v and 3", p.name, in, got, err, s.rd.Len(), v)
		}
		var x T
		s.rd.Reset(in)
		err = s.decs[i].Decode(&x)
		if err != nil || !p.same(x, v) || s.rd.Len() != 3 {
			w.Fail("%s: %s Decode on %x gives %v, %v and leaves %d bytes, want %v and 3", p.name, c.name, in, x, err, s.rd.Len(), v)
		}
	}
	w.Eval(14)
	for _, b := range want {
		if b != 0 {
			w.NonTrivial()
			break
		}
	}
	w.Sample(func() string { return fmt.Sprintf("%v <-> %x", v, want) })
}

// fast is the reduced check for sweeps of 2^32 values.
func (p prim[T]) fast(w *mcx.W, v T) {
	s := scratch(w)
	want := p.want(v)
	s.buf.Reset()
	if err := p.write(s.encs[0], v); err != nil || !bytes.Equal(s.buf.Bytes(), want) {
		w.Fail("%s: write of %v gives %x, %v, EOSIO form is %x", p.name, v, s.buf.Bytes(), err, want)
	}
	s.rd.Reset(want)
	got, err := p.read(s.decs[0])
	if err != nil || !p.same(got, v) || s.rd.Len() != 0 {
		w.Fail("%s: read of %x gives %v, %v and leaves %d bytes, want %v", p.name, want, got, err, s.rd.Len(), v)
	}
	w.NonTrivial()
}

var b6 = []byte{0x00, 0x01, 0x7f, 0x80, 0xfe, 0xff}

func alphaWord(i uint64, n int, alpha []byte) (v uint64) {
	for k := 0; k < n; k++ {
		v |= uint64(alpha[i%uint64(len(alpha))]) << (8 * uint(k))
		i /= uint64(len(alpha))
	}
	return
}

func pow(b, n int) uint64 {
	r := uint64(1)
	for ; n > 0; n-- {
		r *= uint64(b)
	}
	return r
}

func near2(limitBits int, span int64) (r []uint64) {
	for k := 0; k <= limitBits; k++ {
		for d := -span; d <= span; d++ {
			var base uint64
			if k < 64 {
				base = uint64(1) << uint(k)
			}
			r = append(r, base+uint64(d))
		}
	}
	return
}

func runC01(r *mcx.Run) {
	u8 := prim[uint8]{"uint8", (*abi.Encoder).WriteUint8, (*abi.Decoder).ReadUint8, func(v uint8) []byte { return []byte{v} }, eqT[uint8]}
	i8 := prim[int8]{"int8", (*abi.Encoder).WriteInt8, (*abi.Decoder).ReadInt8, func(v int8) []byte { return []byte{byte(v)} }, eqT[int8]}
	by := prim[byte]{"byte", func(e *abi.Encoder, v byte) error { return e.WriteByte(v) }, func(d *abi.Decoder) (byte, error) { return d.ReadByte() }, func(v byte) []byte { return []byte{v} }, eqT[byte]}
	u16 := prim[uint16]{"uint16", (*abi.Encoder).WriteUint16, (*abi.Decoder).ReadUint16, func(v uint16) []byte { return ref.LE(uint64(v), 2) }, eqT[uint16]}
	i16 := prim[int16]{"int16", (*abi.Encoder).WriteInt16, (*abi.Decoder).ReadInt16, func(v int16) []byte { return ref.LE(uint64(v), 2) }, eqT[int16]}
	u32 := prim[uint32]{"uint32", (*abi.Encoder).WriteUint32, (*abi.Decoder).ReadUint32, func(v uint32) []byte { return ref.LE(uint64(v), 4) }, eqT[uint32]}
	i32 := prim[int32]{"int32", (*abi.Encoder).WriteInt32, (*abi.Decoder).ReadInt32, func(v int32) []byte { return ref.LE(uint64(v), 4) }, eqT[int32]}
	u64 := prim[uint64]{"uint64", (*abi.Encoder).WriteUint64, (*abi.Decoder).ReadUint64, func(v uint64) []byte { return ref.LE(v, 8) }, eqT[uint64]}
	i64 := prim[int64]{"int64", (*abi.Encoder).WriteInt64, (*abi.Decoder).ReadInt64, func(v int64) []byte { return ref.LE(uint64(v), 8) }, eqT[int64]}
	f32 := prim[float32]{"float32", (*abi.Encoder).WriteFloat32, (*abi.Decoder).ReadFloat32, func(v float32) []byte { return ref.LE(uint64(math.Float32bits(v)), 4) },
		func(a, b float32) bool { return math.Float32bits(a) == math.Float32bits(b) }}
	f64 := prim[float64]{"float64", (*abi.Encoder).WriteFloat64, (*abi.Decoder).ReadFloat64, func(v float64) []byte { return ref.LE(math.Float64bits(v), 8) },
		func(a, b float64) bool { return math.Float64bits(a) == math.Float64bits(b) }}
	vu := prim[uint]{"varuint32", (*abi.Encoder).WriteVaruint, (*abi.Decoder).ReadVaruint, func(v uint) []byte { return ref.Uvar(uint64(v)) }, eqT[uint]}
	vi := prim[int]{"varint32", (*abi.Encoder).WriteVarint, (*abi.Decoder).ReadVarint, func(v int) []byte { return ref.Svar(int64(v)) }, eqT[int]}
	bo := prim[bool]{"bool", (*abi.Encoder).WriteBool, (*abi.Decoder).ReadBool, func(v bool) []byte {
		if v {
			return []byte{1}
		}
		return []byte{0}
	}, eqT[bool]}
	st := prim[string]{"string", (*abi.Encoder).WriteString, (*abi.Decoder).ReadString, func(v string) []byte { return append(ref.Uvar(uint64(len(v))), v...) }, eqT[string]}
	bs := prim[[]byte]{"bytes", func(e *abi.Encoder, b []byte) error {
		if err := e.WriteVaruint(uint(len(b))); err != nil {
			return err
		}
		return e.WriteBytes(b)
	}, func(d *abi.Decoder) ([]byte, error) {
		n, err := d.ReadVaruint()
		if err != nil {
			return nil, err
		}
		k, b, err := d.ReadBytes(int(n))
		if err == nil && k != int(n) {
			err = fmt.Errorf("ReadBytes(%d) reports %d bytes", n, k)
		}
		return b, err
	}, func(v []byte) []byte { return append(ref.Uvar(uint64(len(v))), v...) }, bytes.Equal}

	r.Sweep("bool", 2, func(w *mcx.W, i uint64) { bo.full(w, i == 1) })
	r.Sweep("bool from byte", 256, func(w *mcx.W, i uint64) {
		var x bool
		n, err := codecs[0].decode([]byte{byte(i)}, &x)
		if err != nil || n != 1 || x != (i != 0) {
			w.Fail("byte %02x decodes as bool %v, %v", i, x, err)
		}
	})
	r.Sweep("uint8", 256, func(w *mcx.W, i uint64) { u8.full(w, uint8(i)); by.full(w, byte(i)) })
	r.Sweep("int8", 256, func(w *mcx.W, i uint64) { i8.full(w, int8(i)) })
	r.Sweep("uint16", 65536, func(w *mcx.W, i uint64) { u16.full(w, uint16(i)) })
	r.Sweep("int16", 65536, func(w *mcx.W, i uint64) { i16.full(w, int16(i)) })

	full13 := []byte{0, 1, 2, 0x0f, 0x10, 0x3f, 0x40, 0x7f, 0x80, 0x81, 0xc0, 0xfe, 0xff}
	n32 := pow(len(full13), 4)
	r.Sweep("uint32 alphabet", n32, func(w *mcx.W, i uint64) { u32.full(w, uint32(alphaWord(i, 4, full13))) })
	r.Sweep("int32 alphabet", n32, func(w *mcx.W, i uint64) { i32.full(w, int32(alphaWord(i, 4, full13))) })
	r.Sweep("float32 alphabet", n32, func(w *mcx.W, i uint64) { f32.full(w, math.Float32frombits(uint32(alphaWord(i, 4, full13)))) })

	n64 := mcx.Pick(r, pow(4, 8), pow(6, 8))
	al := mcx.Pick(r, []byte{0, 1, 0x80, 0xff}, b6)
	r.Sweep("uint64 alphabet", n64, func(w *mcx.W, i uint64) { u64.full(w, alphaWord(i, 8, al)) })
	r.Sweep("int64 alphabet", n64, func(w *mcx.W, i uint64) { i64.full(w, int64(alphaWord(i, 8, al))) })
	r.Sweep("float64 alphabet", n64, func(w *mcx.W, i uint64) { f64.full(w, math.Float64frombits(alphaWord(i, 8, al))) })
	// each byte position takes all 256 values
	r.Sweep("uint64 single bytes", 8*256*2, func(w *mcx.W, i uint64) {
		v := (i & 255) << (8 * (i >> 8 & 7))
		if i>>11 == 1 {
			v = ^v
		}
		u64.full(w, v)
		i64.full(w, int64(v))
		f64.full(w, math.Float64frombits(v))
		u32.full(w, uint32(v))
		i32.full(w, int32(v))
	})

	// variable-length integers: in range
	r.Sweep("varuint small", 1<<20, func(w *mcx.W, i uint64) { vu.full(w, uint(i)) })
	r.Sweep("varint small", 1<<20, func(w *mcx.W, i uint64) { vi.full(w, int(int64(i)-1<<19)) })
	bounds := near2(64, 300)
	r.Sweep("varuint boundaries", uint64(len(bounds)), func(w *mcx.W, i uint64) {
		v := uint(bounds[i])
		if v <= math.MaxUint32 {
			vu.full(w, v)
			return
		}
		for _, c := range codecs {
			if b, err := c.encode(v); err == nil {
				w.Fail("varuint %d is out of range but %s Encode writes %x", v, c.name, b)
			}
		}
		if err := abi.NewEncoder(new(bytes.Buffer), declineEnc).WriteVaruint(v); err == nil {
			w.Fail("varuint %d is out of range but WriteVaruint succeeds", v)
		}
		w.NonTrivial()
	})
	r.Sweep("varint boundaries", uint64(len(bounds)*2), func(w *mcx.W, i uint64) {
		v := int(bounds[i/2])
		if i&1 == 1 {
			v = -v
		}
		if v <= math.MaxInt32 && v >= math.MinInt32 {
			vi.full(w, v)
			return
		}
		for _, c := range codecs {
			if b, err := c.encode(v); err == nil {
				w.Fail("varint %d is out of range but %s Encode writes %x", v, c.name, b)
			}
		}
		if err := abi.NewEncoder(new(bytes.Buffer), declineEnc).WriteVarint(v); err == nil {
			w.Fail("varint %d is out of range but WriteVarint succeeds", v)
		}
		w.NonTrivial()
	})
	if r.Thorough {
		r.Sweep("varuint all", 1<<32, func(w *mcx.W, i uint64) { vu.fast(w, uint(i)) })
		r.Sweep("varint all", 1<<32, func(w *mcx.W, i uint64) { vi.fast(w, int(int32(uint32(i)))) })
		r.Sweep("uint32 all", 1<<32, func(w *mcx.W, i uint64) { u32.fast(w, uint32(i)) })
		r.Sweep("float32 all", 1<<32, func(w *mcx.W, i uint64) { f32.fast(w, math.Float32frombits(uint32(i))) })
	}

	// variable-length integers: arbitrary byte strings
	varBytes := func(w *mcx.W, b []byte) {
		_, ud, uerr := ref.Dec(typeOf[uint](), b)
		uv, _, _ := ref.Dec(typeOf[uint](), b)
		sv, sd, serr := ref.Dec(typeOf[int](), b)
		for _, c := range codecs {
			var x uint
			n, err := c.decode(b, &x)
			if !ud.Amb && !(ud.Loose && err != nil) && ((err != nil) != (uerr != nil) || uerr == nil && (uint64(x) != uv.Uint() || n != ud.Pos)) {
				w.Fail("%s: bytes %x decode as varuint %d, %v (%d bytes), want %d, %v (%d bytes)", c.name, b, x, err, n, uv.Uint(), uerr, ud.Pos)
			}
			var y int
			n, err = c.decode(b, &y)
			if !sd.Amb && !(sd.Loose && err != nil) && ((err != nil) != (serr != nil) || serr == nil && (int64(y) != sv.Int() || n != sd.Pos)) {
				w.Fail("%s: bytes %x decode as varint %d, %v (%d bytes), want %d, %v (%d bytes)", c.name, b, y, err, n, sv.Int(), serr, sd.Pos)
			}
		}
		w.Eval(5)
		if len(b) > 1 {
			w.NonTrivial()
		}
	}
	L := mcx.Pick(r, 2, 3)
	for n := 0; n <= L; n++ {
		n := n
		r.Sweep(fmt.Sprintf("varint bytes len %d", n), pow(256, n), func(w *mcx.W, i uint64) {
			varBytes(w, ref.LE(i, n))
		})
	}
	al9 := []byte{0x80, 0x00, 0x01, 0x7f, 0xff, 0x0f, 0x10, 0x1f, 0x81}
	for n := 3; n <= 6; n++ {
		n := n
		r.Sweep(fmt.Sprintf("varint bytes alphabet len %d", n), pow(9, n), func(w *mcx.W, i uint64) {
			b := make([]byte, n)
			for k := range b {
				b[k] = al9[i%9]
				i /= 9
			}
			varBytes(w, b)
		})
	}
	r.Sweep("varint bytes overlong", 6*256*6, func(w *mcx.W, i uint64) {
		n := int(i%6) + 6
		last := byte(i / 6 % 256)
		fill := al9[i/6/256]
		b := bytes.Repeat([]byte{fill | 0x80}, n)
		b[n-1] = last
		varBytes(w, b)
	})

	// strings and byte arrays
	var lens []int
	for i := 0; i <= 600; i++ {
		lens = append(lens, i)
	}
	for _, c := range []int{1024, 2048, 4096, 8192, 16384, 32768, 65536, 1 << 21} {
		for d := -2; d <= 2; d++ {
			lens = append(lens, c+d)
		}
	}
	r.Sweep("strings", uint64(len(lens)), func(w *mcx.W, i uint64) {
		n := lens[i]
		bs.full(w, pat(n, byte(i)))
		st.full(w, string(pat(n, byte(i+1))))
		if n < 5000 {
			st.full(w, strings.Repeat("a", n))
			st.full(w, string(make([]byte, n)))
			bs.full(w, bytes.Repeat([]byte{0xff}, n))
		}
	})
	var big []int
	for k := 17; k <= mcx.Pick(r, 25, 27); k++ {
		big = append(big, 1<<k-1, 1<<k, 1<<k+1)
	}
	for _, k := range []int{100_000, 500_000, 1_000_000, 5_000_000, 10_000_000, 16_000_000} {
		big = append(big, k, k+1)
	}
	r.Sweep("long strings", uint64(2*len(big)), func(w *mcx.W, i uint64) {
		n := big[i/2]
		b := pat(n, byte(n))
		if i%2 == 0 {
			bs.fast(w, b)
		} else {
			st.fast(w, string(b))
		}
		w.NonTrivial()
	})
	r.Sweep("strings single byte", 65536, func(w *mcx.W, i uint64) {
		st.full(w, string([]byte{byte(i), byte(i >> 8)}))
		bs.full(w, []byte{byte(i), byte(i >> 8)})
	})
}
