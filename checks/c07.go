package checks

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"reflect"
	"syscall"

	"verif/mcx"
	"verif/ref"

	"github.com/greymass/go-eosio/pkg/abi"
	"github.com/greymass/go-eosio/pkg/chain"
)

func init() {
	register(&Check{
		ID: "C07", Level: "fault_enumeration",
		Rule:   "for every value of the universe (static codecs and ABI-driven) every write call fails once, permanently or after accepting part or all of its bytes, every read position fails once or permanently, with or without data, and the encoding is delivered in every composition (short encodings) or every one- and two-split, one-byte, empty-read and data-with-EOF delivery (longer ones). A case is non-trivial if at least one fault or split was injected.",
		Bounds: "values: leaves, chain types, named types, constructor depth 1 over all leaves, depth 2 over 8 leaves (quick) / 22 leaves (thorough), transactions and ABI definitions, ABI-driven base types under one suffix and in structs; all 2^(n-1) chunkings for encodings up to 9 bytes (quick) / 13 bytes (thorough); fault positions: all up to 120, for longer encodings both ends and evenly spaced ones in between; byte strings, strings and actions of every length to 1100 (quick) / 2200 (thorough) read in pieces of 12 sizes; 18 different errors, all of them at every position of encodings up to 4 pieces, in turn elsewhere.",
		Run:    runC07,
	})
}

var errIO = errors.New("injected i/o failure")

type tempErr struct{}

func (tempErr) Error() string   { return "injected temporary failure" }
func (tempErr) Temporary() bool { return true }
func (tempErr) Timeout() bool   { return true }

// the errors a writer or reader fails with, ones that code might treat specially included
var ioErrs = []error{errIO, io.ErrShortWrite, io.EOF, io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrNoProgress, io.ErrShortBuffer,
	os.ErrDeadlineExceeded, os.ErrClosed, context.Canceled, syscall.EINTR, syscall.EAGAIN, syscall.EPIPE, tempErr{},
	fmt.Errorf("wrapped: %w", io.EOF), fmt.Errorf("wrapped: %w", io.ErrShortWrite), bufio.ErrBufferFull, bytes.ErrTooLarge}

// faultW fails at write call k: kind 0 permanently, 1 once, 2 once after taking half the bytes,
// 3 permanently once the byte budget is used up (k = budget), 4 once after taking all the bytes.
type faultW struct {
	k, kind int
	err     error
	calls   int
	before  []byte // bytes accepted up to the first failure
	failed  bool
	total   int
}

func (f *faultW) Write(p []byte) (int, error) {
	c := f.calls
	f.calls++
	switch {
	case f.kind == 3:
		room := f.k - f.total
		if room >= len(p) && !f.failed {
			f.total += len(p)
			f.before = append(f.before, p...)
			return len(p), nil
		}
		n := 0
		if !f.failed {
			n = room
			f.before = append(f.before, p[:n]...)
			f.total += n
		}
		f.failed = true
		return n, f.err
	case c == f.k && f.kind == 4:
		f.before = append(f.before, p...)
		f.failed = true
		return len(p), f.err
	case c == f.k && f.kind == 2:
		f.before = append(f.before, p[:len(p)/2]...)
		f.failed = true
		return len(p) / 2, f.err
	case c == f.k || c > f.k && f.kind == 0:
		f.failed = true
		return 0, f.err
	}
	if !f.failed {
		f.before = append(f.before, p...)
	}
	f.total += len(p)
	return len(p), nil
}

// positions gives the fault positions used for n possible ones: all of a short encoding, for longer
// ones both ends and evenly spaced positions in between.
func positions(n int) []int {
	var out []int
	if n <= 120 {
		for i := 0; i < n; i++ {
			out = append(out, i)
		}
		return out
	}
	h, mid := 30, 30
	if n > 1000 {
		h, mid = 8, 8
	}
	for i := 0; i < h; i++ {
		out = append(out, i)
	}
	for i := 1; i < mid; i++ {
		out = append(out, h+(n-2*h)*i/mid)
	}
	for i := n - h; i < n; i++ {
		out = append(out, i)
	}
	return out
}

// writeFaults injects every writer fault into one encoding.
func writeFaults(w *mcx.W, what func() string, encode0 func(io.Writer) error, prefix, rich bool) {
	encode := func(f *faultW) error {
		if rich {
			return encode0(richW{f})
		}
		return encode0(f)
	}
	base := &faultW{k: -1, kind: 1}
	if err := encode(base); err != nil {
		w.Fail("%s: encoding fails without any fault: %v", what(), err)
	}
	good := base.before
	for kind := 0; kind < 5; kind++ {
		n := base.calls
		if kind == 3 {
			n = len(good)
		}
		for _, k := range positions(n) {
			// short encodings fail with every error, longer ones with the plain one and, in turn, another
			errs := ioErrs
			if n > 4 {
				errs = []error{errIO, ioErrs[1+(k+kind)%(len(ioErrs)-1)]}
			}
			for _, e := range errs {
				f := &faultW{k: k, kind: kind, err: e}
				err := encode(f)
				w.Eval(1)
				if !f.failed {
					if prefix && !bytes.Equal(f.before, good) {
						w.Fail("%s: encoded as %s, then as %s", what(), hexs(good), hexs(f.before))
					}
					continue // this run wrote in fewer pieces
				}
				if err == nil {
					w.Fail("%s: %s at %d of %d with %q: no error", what(), []string{"permanent write failure from call", "single write failure at call", "partial write at call", "writer full after byte", "failure after a complete write at call"}[kind], k, n, e)
				}
				if prefix && !bytes.HasPrefix(good, f.before) {
					w.Fail("%s: before the write failure %s was written, the encoding is %s", what(), hexs(f.before), hexs(good))
				}
				w.NonTrivial()
			}
		}
	}
}

// faultR delivers b and fails at position pos: once (0), permanently (1) or permanently and together
// with the bytes that end there (2).
type faultR struct {
	b      []byte
	pos    int
	kind   int
	err    error
	at     int
	failed bool
}

func (f *faultR) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if f.at == f.pos && (!f.failed || f.kind > 0) {
		f.failed = true
		return 0, f.err
	}
	end := len(f.b)
	if f.at < f.pos {
		end = f.pos
	}
	if f.at == end {
		return 0, io.EOF
	}
	n := copy(p, f.b[f.at:end])
	f.at += n
	if f.at == f.pos && f.kind == 2 {
		f.failed = true
		return n, f.err
	}
	return n, nil
}

// readErrs gives the errors that do not mean the end of the input.
func readErrs() (out []error) {
	for _, e := range ioErrs {
		if !errors.Is(e, io.EOF) {
			out = append(out, e)
		}
	}
	return
}

func readFaults(w *mcx.W, what func() string, b []byte, decode func(io.Reader) (string, error)) {
	for _, pos := range positions(len(b)) {
		for kind := 0; kind < 3; kind++ {
			errs := ioErrs
			if len(b) > 4 {
				errs = []error{errIO, io.ErrUnexpectedEOF, ioErrs[1+(pos+kind)%(len(ioErrs)-1)]}
			}
			for ei, e := range errs {
				if errors.Is(e, io.EOF) {
					continue // the end of the input, which is another property's subject
				}
				f := &faultR{b: b, pos: pos, kind: kind, err: e}
				var in io.Reader = f
				switch {
				case ei == 1 && kind == 2:
					in = bufio.NewReaderSize(f, 16)
				case ei == 1:
					in = newRichR(f)
				}
				got, err := decode(in)
				w.Eval(1)
				if err == nil && f.failed {
					w.Fail("%s: %s with %q after %d of %d bytes: no error, result %s", what(), []string{"single read failure", "permanent read failure", "read failure together with data"}[kind], e, pos, len(b), got)
				}
				w.NonTrivial()
			}
		}
	}
}

// chunkR delivers b in pieces that end at the marked positions; empty: that many empty reads before every piece;
// dataEOF: the last piece comes together with io.EOF.
type chunkR struct {
	b       []byte
	cut     func(i int) bool
	at      int
	empty   int
	dataEOF bool
	gave    int
}

func (c *chunkR) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if c.gave < c.empty {
		c.gave++
		return 0, nil
	}
	c.gave = 0
	if c.at == len(c.b) {
		return 0, io.EOF
	}
	end := c.at + 1
	for end < len(c.b) && !c.cut(end) {
		end++
	}
	n := copy(p, c.b[c.at:end])
	c.at += n
	if c.at == len(c.b) && c.dataEOF {
		return n, io.EOF
	}
	return n, nil
}

func chunkings(w *mcx.W, what func() string, b []byte, full int, decode func(io.Reader) error) {
	n := len(b)
	try := func(desc string, cut func(int) bool) {
		for m := 0; m < 4; m++ {
			if err := decode(&chunkR{b: b, cut: cut, empty: m & 1, dataEOF: m&2 == 2}); err != nil {
				w.Fail("%s: delivered %s (empty reads %v, data with EOF %v): %v", what(), desc, m&1 == 1, m&2 == 2, err)
			}
			w.Eval(1)
		}
		for m, in := range []io.Reader{newRichR(&chunkR{b: b, cut: cut, empty: (n + 1) % 2}), bufio.NewReaderSize(&chunkR{b: b, cut: cut, dataEOF: true}, 16)} {
			if err := decode(in); err != nil {
				w.Fail("%s: delivered %s by %s: %v", what(), desc, []string{"a reader with all optional methods", "a bufio.Reader"}[m], err)
			}
			w.Eval(1)
		}
		w.NonTrivial()
	}
	if n == 0 {
		try("empty", func(int) bool { return false })
		return
	}
	// long runs of empty reads
	for _, k := range []int{2, 3, 4, 5, 8, 10, 11, 16, 17, 32, 50, 64, 98} {
		for m := 0; m < 2; m++ {
			if n > 200 && m == 1 && k > 5 {
				break
			}
			cut := func(int) bool { return m == 1 }
			if err := decode(&chunkR{b: b, cut: cut, empty: k}); err != nil {
				w.Fail("%s: delivered %s with %d empty reads before each: %v", what(), []string{"whole", "one byte at a time"}[m], k, err)
			}
			w.Eval(1)
		}
	}
	if n <= full {
		for mask := 0; mask < 1<<(n-1); mask++ {
			try(fmt.Sprintf("split by mask %b", mask), func(i int) bool { return mask>>(i-1)&1 == 1 })
		}
		return
	}
	try("whole", func(int) bool { return false })
	try("one byte at a time", func(int) bool { return true })
	sizes := []int{2, 3, 5, 7, 8, 64}
	if n > 1000 {
		sizes = []int{7, 64, 1000}
	}
	for _, s := range sizes {
		try(fmt.Sprintf("%d bytes at a time", s), func(i int) bool { return i%s == 0 })
	}
	ps := positions(n)
	for _, i := range ps {
		try(fmt.Sprintf("split at %d", i), func(k int) bool { return k == i })
	}
	if n <= 40 {
		for i := 1; i < n; i++ {
			for j := i + 1; j < n; j++ {
				try(fmt.Sprintf("split at %d and %d", i, j), func(k int) bool { return k == i || k == j })
			}
		}
	}
}

func faultStatic(r *mcx.Run) func(w *mcx.W, v reflect.Value) {
	full := mcx.Pick(r, 9, 13)
	return func(w *mcx.W, v reflect.Value) {
		t := v.Type()
		multi := ref.BigMap(v)
		var b []byte
		for ci, c := range codecs {
			if ci == 0 || !multi {
				x, err := c.encode(v.Interface())
				if err != nil {
					w.Fail("cannot encode %s: %v", show(v), err)
				}
				if ci == 0 {
					b = x
				}
			}
			what := func() string { return c.name + " codec, " + show(v) }
			writeFaults(w, what, func(o io.Writer) error { return c.enc(o).Encode(v.Interface()) }, !multi, ci == 1)
			if ci == 0 {
				writeFaults(w, what, func(o io.Writer) error { return c.enc(o).Encode(ptrTo(v).Interface()) }, !multi, true)
			}
			readFaults(w, what, b, func(in io.Reader) (string, error) {
				p := reflect.New(t)
				err := c.dec(in).Decode(p.Interface())
				if err != nil {
					return "", err
				}
				return show(p.Elem()), nil
			})
			if ci < 2 {
				chunkings(w, what, b, full, func(in io.Reader) error {
					p := reflect.New(t)
					if err := c.dec(in).Decode(p.Interface()); err != nil {
						return err
					}
					if !ref.Eq(p.Elem(), v) {
						return fmt.Errorf("decodes as %s", show(p.Elem()))
					}
					return nil
				})
			}
		}
		w.Sample(func() string { return show(v) + " = " + hexs(b) })
	}
}

func faultAbi(r *mcx.Run) func(w *mcx.W, a *chain.Abi, t *ref.AT, v any) {
	full := mcx.Pick(r, 8, 12)
	return func(w *mcx.W, a *chain.Abi, t *ref.AT, v any) {
		b, err := ref.AbiEnc(t, v)
		if err != nil {
			panic(err)
		}
		want, _, err := ref.AbiDec(t, b)
		if err != nil {
			panic(err)
		}
		name := t.Expr()
		what := func() string { return "ABI type " + name + ", " + clip(fmt.Sprint(v)) }
		writeFaults(w, what, func(o io.Writer) error { return a.Encode(o, name, v) }, true, false)
		writeFaults(w, what, func(o io.Writer) error { return a.Encode(o, name, v) }, true, true)
		readFaults(w, what, b, func(in io.Reader) (string, error) {
			x, err := a.Decode(in, name)
			if err != nil {
				return "", err
			}
			return clip(fmt.Sprint(x)), nil
		})
		chunkings(w, what, b, full, func(in io.Reader) error {
			x, err := a.Decode(in, name)
			if err != nil {
				return err
			}
			if !ref.EqAny(x, want) {
				return fmt.Errorf("decodes as %s", clip(fmt.Sprint(x)))
			}
			return nil
		})
	}
}

func runC07(r *mcx.Run) {
	all := append(append([]reflect.Type{}, builtinLeaves...), chainLeaves...)
	named := append(append([]reflect.Type{}, namedTypes...), extTypes...)
	fs := faultStatic(r)
	sweepTypes(r, "leaves", all, fs)
	sweepTypes(r, "named", named, fs)
	sweepTypes(r, "depth 1", closure(all, 1, allCtors), fs)
	sweepTypes(r, "named depth 1", closure(mcx.Pick(r, extTypes, named), 1, allCtors), fs)
	few := []reflect.Type{typeOf[uint8](), typeOf[int](), typeOf[string](), typeOf[chain.Name]()}
	sweepTypes(r, "depth 2", closure(mcx.Pick(r, few, leavesC02()), 2, mcx.Pick(r, []int{0, 2, 5, 7, 8, 9, 10}, allCtors)), fs)
	r.Sweep("transactions", 64, func(w *mcx.W, i uint64) {
		fs(w, reflect.ValueOf(mkTx(int(i&3), int(i>>2&3), int(i>>4))))
	})
	r.Sweep("abi definitions", 256, func(w *mcx.W, i uint64) {
		var n [8]int
		for k := range n {
			n[k] = int(i >> k & 1)
		}
		fs(w, reflect.ValueOf(mkAbi(n)))
	})
	// long values: several reads per field
	r.Sweep("long values", 6, func(w *mcx.W, i uint64) {
		n := []int{255, 4095, 4096, 4097, 70000, 300000}[i]
		fs(w, reflect.ValueOf(pat(n, 1)))
		fs(w, reflect.ValueOf(string(pat(n, 2))))
		fs(w, reflect.ValueOf(chain.Bytes(pat(n, 3))))
		fs(w, reflect.ValueOf(chain.Blob(pat(n, 3))))
		fs(w, reflect.ValueOf(chain.Action{Data: pat(n, 4)}))
	})
	// every length around the sizes buffers come in, read in pieces of every size of a set
	lens := make([]int, 0, 1400)
	for n := 1; n <= mcx.Pick(r, 1100, 2200); n++ {
		lens = append(lens, n)
	}
	for _, n := range []int{4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537} {
		lens = append(lens, n)
	}
	pieces := []int{1, 2, 3, 7, 100, 255, 256, 333, 511, 512, 513, 1000}
	r.Sweep("lengths read in pieces", uint64(len(lens)*len(pieces)), func(w *mcx.W, i uint64) {
		n, k := lens[i%uint64(len(lens))], pieces[i/uint64(len(lens))]
		data := pat(n, byte(n))
		for kind := 0; kind < 4; kind++ {
			var p any
			var want any
			switch kind {
			case 0:
				p, want = new([]byte), &data
			case 1:
				s := string(data)
				p, want = new(string), &s
			case 2:
				b := chain.Bytes(data)
				p, want = new(chain.Bytes), &b
			case 3:
				a := chain.Action{Data: data}
				p, want = new(chain.Action), &a
			}
			in := ref.MustEnc(reflect.ValueOf(want).Elem().Interface())
			for e, end := range []error{nil, io.EOF} {
				err := chain.NewDecoder(&pieceR{b: in, k: k, end: end, gaps: e == 0 && k > 2}).Decode(p)
				if err != nil || !ref.EqAny(p, want) {
					w.Fail("%T of %d bytes read in pieces of %d: %v, %s", p, n, k, err, clip(fmt.Sprint(p)))
				}
				w.Step((len(in) + k - 1) / k)
				w.Eval(1)
			}
			// cut short
			for _, c := range []int{len(in) - 1, len(in) / 2} {
				if err := chain.NewDecoder(&pieceR{b: in[:c], k: k}).Decode(p); err == nil {
					w.Fail("%T of %d bytes cut to %d and read in pieces of %d decodes", p, n, c, k)
				}
			}
		}
		w.NonTrivial()
		w.Trace()
	})
	fa := faultAbi(r)
	base := abiBase()
	sweepAbi(r, "abi base", base, fa)
	var suf []*ref.AT
	for _, t := range base {
		suf = append(suf, suffixed(t, 1)...)
	}
	sweepAbi(r, "abi suffixed", suf, fa)
	var st []*ref.AT
	for i, t := range base {
		if zeroWidth(t) {
			continue
		}
		st = append(st, ref.Struct(fmt.Sprintf("st%d", i), nil, af("a", t), af("b", ref.Opt(t)), afx("c", t), afx("d", ref.Arr(t))))
	}
	sweepAbi(r, "abi structs", st, fa)
	// actions: type looked up by action name
	tr := abiN.all[len(abiN.all)-1]
	a := ref.Abi(tr)
	a.Actions = append(a.Actions, chain.AbiAction{Name: chain.N("act"), Type: tr.Expr()})
	vs := abiVals(tr)
	r.Sweep("abi actions", uint64(len(vs)), func(w *mcx.W, i uint64) {
		b, _ := ref.AbiEnc(tr, vs[i])
		writeFaults(w, func() string { return "EncodeAction" }, func(o io.Writer) error { return a.EncodeAction(o, chain.N("act"), vs[i]) }, true, false)
		readFaults(w, func() string { return "DecodeAction" }, b, func(in io.Reader) (string, error) {
			x, err := a.DecodeAction(in, chain.N("act"))
			return clip(fmt.Sprint(x)), err
		})
	})
	// raw methods of the codec
	rawIO(r)
}

// pieceR hands out k bytes at a time, the last ones together with end; with gaps every third read is empty.
type pieceR struct {
	b    []byte
	k, n int
	end  error
	gaps bool
}

func (p *pieceR) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	if len(p.b) == 0 {
		return 0, io.EOF
	}
	if p.n++; p.gaps && p.n%3 == 0 {
		return 0, nil
	}
	n := p.k
	if n > len(b) {
		n = len(b)
	}
	n = copy(b[:n], p.b)
	p.b = p.b[n:]
	if len(p.b) == 0 {
		return n, p.end
	}
	return n, nil
}

// rawIO injects faults into the exported Write and Read methods.
func rawIO(r *mcx.Run) {
	type wm struct {
		name string
		f    func(e *abi.Encoder) error
	}
	ws := []wm{
		{"WriteByte", func(e *abi.Encoder) error { return e.WriteByte(7) }},
		{"WriteBool", func(e *abi.Encoder) error { return e.WriteBool(true) }},
		{"WriteUint8", func(e *abi.Encoder) error { return e.WriteUint8(1) }},
		{"WriteUint16", func(e *abi.Encoder) error { return e.WriteUint16(0x102) }},
		{"WriteUint32", func(e *abi.Encoder) error { return e.WriteUint32(0x1020304) }},
		{"WriteUint64", func(e *abi.Encoder) error { return e.WriteUint64(0x102030405060708) }},
		{"WriteInt8", func(e *abi.Encoder) error { return e.WriteInt8(-1) }},
		{"WriteInt16", func(e *abi.Encoder) error { return e.WriteInt16(-2) }},
		{"WriteInt32", func(e *abi.Encoder) error { return e.WriteInt32(-3) }},
		{"WriteInt64", func(e *abi.Encoder) error { return e.WriteInt64(-4) }},
		{"WriteVaruint", func(e *abi.Encoder) error { return e.WriteVaruint(300000) }},
		{"WriteVarint", func(e *abi.Encoder) error { return e.WriteVarint(-300000) }},
		{"WriteString", func(e *abi.Encoder) error { return e.WriteString("hello") }},
		{"WriteString empty", func(e *abi.Encoder) error { return e.WriteString("") }},
		{"WriteFloat32", func(e *abi.Encoder) error { return e.WriteFloat32(1.5) }},
		{"WriteFloat64", func(e *abi.Encoder) error { return e.WriteFloat64(1.5) }},
		{"WriteBytes", func(e *abi.Encoder) error { return e.WriteBytes([]byte("abcdef")) }},
		{"EncodeVariant", func(e *abi.Encoder) error { s := "x"; return e.EncodeVariant(&struct{ A, B *string }{B: &s}) }},
		{"EncodeValue", func(e *abi.Encoder) error { return e.EncodeValue(reflect.ValueOf([]uint16{1, 2, 3})) }},
	}
	r.Sweep("write methods", uint64(len(ws)), func(w *mcx.W, i uint64) {
		for _, rich := range []bool{false, true} {
			writeFaults(w, func() string { return ws[i].name }, func(o io.Writer) error { return ws[i].f(chain.NewEncoder(o)) }, true, rich)
		}
	})
	type rm struct {
		name string
		in   []byte
		f    func(d *abi.Decoder) (any, error)
	}
	rs := []rm{
		{"ReadByte", []byte{7}, func(d *abi.Decoder) (any, error) { v, err := d.ReadByte(); return v, err }},
		{"ReadBool", []byte{1}, func(d *abi.Decoder) (any, error) { v, err := d.ReadBool(); return v, err }},
		{"ReadUint8", []byte{1}, func(d *abi.Decoder) (any, error) { v, err := d.ReadUint8(); return v, err }},
		{"ReadUint16", pat(2, 1), func(d *abi.Decoder) (any, error) { v, err := d.ReadUint16(); return v, err }},
		{"ReadUint32", pat(4, 1), func(d *abi.Decoder) (any, error) { v, err := d.ReadUint32(); return v, err }},
		{"ReadUint64", pat(8, 1), func(d *abi.Decoder) (any, error) { v, err := d.ReadUint64(); return v, err }},
		{"ReadInt8", pat(1, 1), func(d *abi.Decoder) (any, error) { v, err := d.ReadInt8(); return v, err }},
		{"ReadInt16", pat(2, 1), func(d *abi.Decoder) (any, error) { v, err := d.ReadInt16(); return v, err }},
		{"ReadInt32", pat(4, 1), func(d *abi.Decoder) (any, error) { v, err := d.ReadInt32(); return v, err }},
		{"ReadInt64", pat(8, 1), func(d *abi.Decoder) (any, error) { v, err := d.ReadInt64(); return v, err }},
		{"ReadFloat32", []byte{0, 0, 0x80, 0x3f}, func(d *abi.Decoder) (any, error) { v, err := d.ReadFloat32(); return v, err }},
		{"ReadFloat64", []byte{0, 0, 0, 0, 0, 0, 0xf0, 0x3f}, func(d *abi.Decoder) (any, error) { v, err := d.ReadFloat64(); return v, err }},
		{"ReadVaruint", []byte{0x81, 0x82, 0x83, 0x84, 0x05}, func(d *abi.Decoder) (any, error) { v, err := d.ReadVaruint(); return v, err }},
		{"ReadVarint", []byte{0x81, 0x82, 0x83, 0x84, 0x05}, func(d *abi.Decoder) (any, error) { v, err := d.ReadVarint(); return v, err }},
		{"ReadString", append([]byte{10}, "helloworld"...), func(d *abi.Decoder) (any, error) { v, err := d.ReadString(); return v, err }},
		{"ReadBytes", pat(12, 1), func(d *abi.Decoder) (any, error) { _, v, err := d.ReadBytes(12); return string(v), err }},
		{"ReadBytes long", pat(3000, 1), func(d *abi.Decoder) (any, error) { _, v, err := d.ReadBytes(3000); return string(v), err }},
	}
	r.Sweep("read methods", uint64(len(rs)), func(w *mcx.W, i uint64) {
		m := rs[i]
		want, err := m.f(chain.NewDecoder(bytes.NewReader(m.in)))
		if err != nil {
			w.Fail("%s fails on %x: %v", m.name, m.in, err)
		}
		readFaults(w, func() string { return m.name }, m.in, func(in io.Reader) (string, error) {
			v, err := m.f(chain.NewDecoder(in))
			return clip(fmt.Sprint(v)), err
		})
		chunkings(w, func() string { return m.name }, m.in, 12, func(in io.Reader) error {
			v, err := m.f(chain.NewDecoder(in))
			if err == nil && v != want {
				err = fmt.Errorf("gives %v, want %v", v, want)
			}
			return err
		})
	})

	// a read that fails where an extension may start is not the end of the input
	type x3 struct {
		A uint8
		B uint16      `eosio:"extension"`
		C chain.Bytes `eosio:"extension"`
		D *chain.Name `eosio:"extension"`
	}
	n := chain.Name(5)
	exts := []any{x3{1, 2, chain.Bytes("ab"), &n}, ext2{1, 2, []string{"a"}}, extPtr{"a", &inner{1, "b"}}, extStruct{[]uint8{1}, inner{1, "b"}}, mkAbi([8]int{1, 1, 1, 1, 1, 1, 1, 1})}
	r.Sweep("failures before extensions", uint64(len(exts)), func(w *mcx.W, i uint64) {
		t := reflect.TypeOf(exts[i])
		b := ref.MustEnc(exts[i])
		for cut := 0; cut < len(b); cut++ {
			for _, c := range codecs {
				for _, e := range readErrs() {
					for kind := 0; kind < 2; kind++ {
						f := &faultR{b: b[:cut], pos: cut, kind: kind, err: e}
						p := reflect.New(t)
						if err := c.dec(f).Decode(p.Interface()); err == nil {
							w.Fail("%s codec, %s: read failure %q after %d bytes: no error, result %s", c.name, t, e, cut, show(p.Elem()))
						}
						w.Eval(1)
						w.NonTrivial()
					}
				}
			}
		}
	})
	at := ref.Struct("e", nil, af("a", ref.Bi("uint8")), afx("b", ref.Bi("string")), afx("c", ref.Arr(ref.Bi("uint16"))), afx("d", ref.Opt(ref.Bi("name"))))
	ab := ref.Abi(at)
	av := map[string]any{"a": uint8(1), "b": "xyz", "c": []any{uint16(1), uint16(2)}, "d": n}
	r.Sweep("failures before extensions, abi", 1, func(w *mcx.W, i uint64) {
		b, err := ref.AbiEnc(at, av)
		if err != nil {
			panic(err)
		}
		for cut := 0; cut < len(b); cut++ {
			for _, e := range readErrs() {
				for kind := 0; kind < 2; kind++ {
					f := &faultR{b: b[:cut], pos: cut, kind: kind, err: e}
					if v, err := ab.Decode(f, "e"); err == nil {
						w.Fail("ABI struct with extensions: read failure %q after %d bytes: no error, result %v", e, cut, v)
					}
					w.Eval(1)
					w.NonTrivial()
				}
			}
		}
	})
}
