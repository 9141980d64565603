package checks

import (
	"bytes"
	"crypto/sha256"
	"crypto/sha512"
	"fmt"
	"hash"
	"time"

	"verif/mcx"
	"verif/ref"

	"github.com/greymass/go-eosio/pkg/chain"
	"github.com/greymass/go-eosio/pkg/ripemd160"
)

func init() {
	register(&Check{
		ID: "C14", Level: "model_checking",
		Rule:   "model: a hash object is the message written since the last reset; its digest is the standard's RIPEMD-160 of that message (independent implementation). Breadth-first search over call histories (writes of block-boundary sizes, sums with and without destination, resets), every history replayed on a fresh real hash object; full trees of shorter histories over one object and over three interleaved objects; all splits of all short messages; the checksum helpers and Action.Digest against the standard library. A case is non-trivial if more than one call is made or the message is not empty.",
		Bounds: "search: 18 events, messages to 2100 (quick) / 4200 (thorough) bytes, to fixpoint or depth 14; trees: 18 events to depth 5 / 6, three objects x 5 events to depth 6 / 7; all two-point splits of messages to 260 / 520 bytes, all lengths to 3000; every single and double bit of a block; messages of 2^29 and 2^32 bytes and a little more.",
		Hang:   7 * time.Minute,
		Run:    runC14,
	})
}

var c14Sizes = []int{0, 1, 2, 3, 8, 31, 55, 56, 57, 63, 64, 65, 127, 129}

// hmodel pairs a real hash with the message it should stand for.
type hmodel struct {
	h   hash.Hash
	msg []byte
}

type hashCtx struct {
	src  []byte // byte i of every message
	want [][20]byte
}

func (c *hashCtx) digest(msg []byte) [20]byte {
	return c.want[len(msg)] // messages are prefixes of src
}

func newHashCtx(n int, seed byte) *hashCtx {
	c := &hashCtx{src: pat(n, seed)}
	for i := 0; i <= n; i++ {
		c.want = append(c.want, ref.RIPEMD160(c.src[:i]))
	}
	return c
}

const hashEvents = 18

func (m *hmodel) apply(w *mcx.W, c *hashCtx, ev int, hist func() string) bool {
	switch {
	case ev < len(c14Sizes):
		n := c14Sizes[ev]
		if len(m.msg)+n > len(c.src) {
			return false
		}
		p := append([]byte{}, c.src[len(m.msg):len(m.msg)+n]...)
		k, err := m.h.Write(p)
		if k != n || err != nil {
			w.Fail("%s: Write of %d bytes returns %d, %v", hist(), n, k, err)
		}
		if !bytes.Equal(p, c.src[len(m.msg):len(m.msg)+n]) {
			w.Fail("%s: Write changes its argument", hist())
		}
		for i := range p {
			p[i] = 0xEE // the hash must not keep the slice
		}
		m.msg = c.src[:len(m.msg)+n]
	case ev == 14:
		m.sum(w, c, nil, hist)
	case ev == 15:
		buf := []byte("prefix--0123456789012345678901234567890123456789")
		got := m.h.Sum(buf[:8])
		want := c.digest(m.msg)
		if string(got[:8]) != "prefix--" || !bytes.Equal(got[8:], want[:]) {
			w.Fail("%s: Sum after a prefix gives %x, want %x", hist(), got, want)
		}
	case ev == 16:
		m.sum(w, c, nil, hist)
		m.sum(w, c, []byte{}, hist)
	case ev == 17:
		m.h.Reset()
		m.msg = nil
	}
	return true
}

func (m *hmodel) sum(w *mcx.W, c *hashCtx, in []byte, hist func() string) {
	got := m.h.Sum(in)
	want := c.digest(m.msg)
	if !bytes.Equal(got, want[:]) {
		w.Fail("%s: digest of the %d byte message is %x, RIPEMD-160 gives %x", hist(), len(m.msg), got, want)
	}
}

func histText(h []int) func() string {
	return func() string {
		s := "after "
		for _, e := range h {
			switch {
			case e < len(c14Sizes):
				s += fmt.Sprintf("write(%d) ", c14Sizes[e])
			default:
				s += []string{"sum ", "sum(prefix) ", "sum,sum ", "reset "}[e-14]
			}
		}
		return s
	}
}

func runC14(r *mcx.Run) {
	lim := mcx.Pick(r, 2100, 4200)
	ctx := newHashCtx(max(lim, 4200), 11)
	small := &hashCtx{src: ctx.src[:lim], want: ctx.want}
	r.Search("histories of one hash", hashEvents, 14, func(w *mcx.W, hist []int) (uint64, bool) {
		m := hmodel{h: ripemd160.New()}
		t := histText(hist)
		for _, e := range hist {
			if !m.apply(w, small, e, t) {
				return 0, false
			}
		}
		m.sum(w, small, nil, t)
		last := -1
		if len(hist) > 0 {
			last = hist[len(hist)-1]
			w.NonTrivial()
		}
		w.Trace()
		return mcx.Hash(ref.LE(uint64(len(m.msg)), 4), ref.LE(uint64(last), 4)), true
	})
	depth := mcx.Pick(r, 5, 6)
	n := uint64(1)
	for i := 0; i < depth; i++ {
		n *= hashEvents
	}
	r.Sweep(fmt.Sprintf("all histories of length %d", depth), n, func(w *mcx.W, i uint64) {
		m := hmodel{h: ripemd160.New()}
		h := make([]int, depth)
		for k := range h {
			h[k] = int(i % hashEvents)
			i /= hashEvents
		}
		t := histText(h)
		for _, e := range h {
			if !m.apply(w, ctx, e, t) {
				return
			}
		}
		m.sum(w, ctx, nil, t)
		w.NonTrivial()
		w.Trace()
		w.Step(depth)
		w.AddStates(1)
	})
	// three objects, each with its own message
	obs := []*hashCtx{newHashCtx(700, 1), newHashCtx(700, 2), newHashCtx(700, 3)}
	d3 := mcx.Pick(r, 6, 7)
	n = 1
	for i := 0; i < d3; i++ {
		n *= 15
	}
	evs := []int{1, 5, 10, 14, 17}
	r.Sweep(fmt.Sprintf("interleaved histories of length %d on three hashes", d3), n, func(w *mcx.W, i uint64) {
		var ms [3]hmodel
		for k := range ms {
			ms[k].h = ripemd160.New()
		}
		t := func() string { return fmt.Sprintf("interleaving %d", i) }
		j := i
		for k := 0; k < d3; k++ {
			o := j % 3
			ms[o].apply(w, obs[o], evs[j/3%5], t)
			j /= 15
		}
		for o := range ms {
			ms[o].sum(w, obs[o], nil, t)
		}
		w.NonTrivial()
		w.Trace()
		w.Step(d3)
		w.AddStates(1)
	})
	// all two-point splits
	L := uint64(mcx.Pick(r, 260, 520))
	r.Sweep("splits", (L+1)*(L+1)*(L+1), func(w *mcx.W, i uint64) {
		a, b, c := int(i%(L+1)), int(i/(L+1)%(L+1)), int(i/(L+1)/(L+1))
		if a > b || b > c {
			return
		}
		h := ripemd160.New()
		h.Write(ctx.src[:a])
		h.Write(ctx.src[a:b])
		h.Write(ctx.src[b:c])
		if got := h.Sum(nil); !bytes.Equal(got, ctx.want[c][:]) {
			w.Fail("message of %d bytes written as %d+%d+%d: %x, want %x", c, a, b-a, c-b, got, ctx.want[c])
		}
		w.NonTrivial()
	})
	// Sum appends to what it is given, however long that is and whether or not it has room
	r.Sweep("prefixes of sums", 5001, func(w *mcx.W, i uint64) {
		n := int(i)
		h := ripemd160.New()
		h.Write(ctx.src[:n%150])
		want := ctx.want[n%150]
		for _, room := range []int{0, 1, 19, 20, 21, 64} {
			in := make([]byte, n, n+room)
			for k := range in {
				in[k] = byte(k * 7)
			}
			got := h.Sum(in)
			if len(got) != n+20 || !bytes.Equal(got[:n], in) || !bytes.Equal(got[n:], want[:]) {
				w.Fail("Sum after %d bytes with a prefix of %d bytes and room for %d: %s, want the prefix and %x", n%150, n, room, hexs(got), want)
			}
			for k := range in {
				if in[k] != byte(k*7) {
					w.Fail("Sum changes byte %d of its prefix of %d bytes", k, n)
				}
			}
		}
		w.Step(6)
		w.NonTrivial()
	})
	r.Sweep("lengths", 3001, func(w *mcx.W, i uint64) {
		n := int(i)
		want := ctx.want[n]
		h := ripemd160.New()
		if h.Size() != 20 || h.BlockSize() != 64 {
			w.Fail("Size %d, BlockSize %d", h.Size(), h.BlockSize())
		}
		h.Write(ctx.src[:n])
		if got := h.Sum(nil); !bytes.Equal(got, want[:]) {
			w.Fail("message of %d bytes: %x, want %x", n, got, want)
		}
		for _, step := range []int{1, 7, 63, 64, 65, 100} {
			h.Reset()
			for k := 0; k < n; k += step {
				h.Write(ctx.src[k:min(n, k+step)])
				if step == 100 {
					h.Sum(nil)
				}
			}
			if got := h.Sum(nil); !bytes.Equal(got, want[:]) {
				w.Fail("message of %d bytes written %d at a time: %x, want %x", n, step, got, want)
			}
		}
		if got := chain.Checksum160Digest(ctx.src[:n]); got != want {
			w.Fail("Checksum160Digest of %d bytes: %x, want %x", n, got, want)
		}
		if got := chain.Checksum256Digest(ctx.src[:n]); got != sha256.Sum256(ctx.src[:n]) {
			w.Fail("Checksum256Digest of %d bytes: %x", n, got)
		}
		if got := chain.Checksum512Digest(ctx.src[:n]); got != sha512.Sum512(ctx.src[:n]) {
			w.Fail("Checksum512Digest of %d bytes: %x", n, got)
		}
		w.NonTrivial()
		w.Eval(9)
	})
	r.Sweep("bits", 512*512, func(w *mcx.W, i uint64) {
		a, b := i%512, i/512
		if b < a {
			return
		}
		var m [64]byte
		m[a/8] |= 1 << (a % 8)
		m[b/8] |= 1 << (b % 8)
		n := 64 - int(b%2)*9
		want := ref.RIPEMD160(m[:n])
		if got := chain.Checksum160Digest(m[:n]); got != want {
			w.Fail("Checksum160Digest(%x) = %x, want %x", m[:n], got, want)
		}
		if a == b {
			if chain.Checksum256Digest(m[:n]) != sha256.Sum256(m[:n]) || chain.Checksum512Digest(m[:n]) != sha512.Sum512(m[:n]) {
				w.Fail("Checksum256/512Digest(%x) = %x %x", m[:n], chain.Checksum256Digest(m[:n]), chain.Checksum512Digest(m[:n]))
			}
		}
		w.NonTrivial()
	})
	// actions
	r.Sweep("action digests", 40*200, func(w *mcx.W, i uint64) {
		a := mkAction(int(i%40)*int(i%40)/4, int(i/40)*3)
		a.Account, a.Name = chain.Name(i*0x123456789), chain.Name(^i)
		want := sha256.Sum256(layout(a))
		for k := 0; k < 2; k++ {
			if got := a.Digest(); got != want {
				w.Fail("digest of action %x is %x, want %x", layout(a), got, want)
			}
		}
		w.NonTrivial()
		w.Eval(1)
	})
	// long messages in one piece, and long actions
	var big []int
	for k := 12; k <= mcx.Pick(r, 23, 25); k++ {
		big = append(big, 1<<k-1, 1<<k, 1<<k+1, 1<<k+57)
	}
	for _, k := range []int{5000, 10_000, 100_000, 1_000_000, 3_000_000} {
		big = append(big, k, k+1)
	}
	r.Sweep("long checksums", uint64(len(big)), func(w *mcx.W, i uint64) {
		n := big[i]
		m := pat(n, byte(i))
		for k := range m {
			m[k] ^= byte(k>>8) ^ byte(k>>16)
		}
		want := ref.RIPEMD160(m)
		if got := chain.Checksum160Digest(m); got != want {
			w.Fail("Checksum160Digest of %d bytes: %x, want %x", n, got, want)
		}
		if got := chain.Checksum256Digest(m); got != sha256.Sum256(m) {
			w.Fail("Checksum256Digest of %d bytes: %x", n, got)
		}
		if got := chain.Checksum512Digest(m); got != sha512.Sum512(m) {
			w.Fail("Checksum512Digest of %d bytes: %x", n, got)
		}
		for _, step := range []int{n, n/2 + 1, 65536, 65537, 4096, 1000} {
			h := ripemd160.New()
			for k := 0; k < n; k += step {
				h.Write(m[k:min(n, k+step)])
			}
			if got := h.Sum(nil); !bytes.Equal(got, want[:]) {
				w.Fail("message of %d bytes written %d at a time: %x, want %x", n, step, got, want)
			}
		}
		a := mkAction(int(i)%5, 0)
		a.Data = m
		if got := a.Digest(); got != sha256.Sum256(layout(a)) {
			w.Fail("digest of an action with %d bytes of data is %x", n, got)
		}
		w.NonTrivial()
		w.Eval(9)
	})
	// the length counter beyond 2^32 bits and 2^32 bytes
	type long struct {
		n     uint64
		piece int
	}
	longs := []long{{1<<29 + 5, 1 << 20}, {1<<29 - 1, 1<<20 + 13}, {1<<32 + 3, 1 << 20}}
	if r.Thorough {
		longs = append(longs, long{1<<32 - 1, 1<<20 - 1}, long{1 << 32, 1 << 22}, long{1 << 29, 1 << 29}, long{1<<33 + 9, 1 << 20})
	}
	r.Sweep("long messages", uint64(len(longs)), func(w *mcx.W, i uint64) {
		l := longs[i]
		ref1 := make(chan [20]byte, 1)
		go func() { ref1 <- ref.RIPEMD160Zeros(l.n) }()
		z := make([]byte, l.piece)
		h := ripemd160.New()
		for k := l.n; k > 0; {
			p := uint64(len(z))
			if p > k {
				p = k
			}
			h.Write(z[:p])
			k -= p
		}
		want := <-ref1
		if got := h.Sum(nil); !bytes.Equal(got, want[:]) {
			w.Fail("%d zero bytes: %x, want %x", l.n, got, want)
		}
		w.NonTrivial()
	})
}
