package checks

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"reflect"
	"sort"

	"verif/mcx"
	"verif/ref"

	"github.com/greymass/go-eosio/pkg/abi"
	"github.com/greymass/go-eosio/pkg/chain"
)

func init() {
	register(&Check{
		ID: "C16", Level: "model_checking",
		Rule:   "model: decoding is a function of type and bytes (independent reference decoder), so the state of a destination must not matter. For every type a breadth-first search explores the reachable destination states (contents including nil-ness, lengths and capacities) under the events 'decode value i', 'decode value i cut at k', 'decode garbage', each on real destinations by replaying its history; after every successful decode the destination must equal the reference value. Streams: all sequences of values of different types written by one encoder and read by one decoder, with failing calls in between. A case is non-trivial if the destination was used before or the stream holds more than one value.",
		Bounds: "types: all leaves, chain types, named types, constructor depth 1 over all leaves, depth 2 over 5 leaves (quick) / 22 leaves (thorough); up to 6 values x (complete + 4 cuts) + 3 garbage inputs per type; search to fixpoint or depth 4 (quick) / 6 (thorough) or 3000 states; transactions, actions and ABI definitions with lists of 0 to 40 entries; streams: all sequences of length 3 over about 78 events (values of up to 70000 bytes among them), 3 codecs, encoder and decoder, and of ABI-driven values.",
		Run:    runC16,
	})
}

type decEvent struct {
	name string
	data []byte
	ok   bool
	want reflect.Value
}

// hashValue is a canonical hash of everything observable about a value, capacities included.
func hashValue(v reflect.Value) uint64 {
	h := hasher{h: 14695981039346656037}
	h.val(v)
	return h.h
}

type hasher struct {
	h     uint64
	nocap bool // leave capacities and the difference between nil and empty out
}

func (h *hasher) u(x uint64) {
	for i := 0; i < 8; i++ {
		h.h = (h.h ^ (x >> (8 * i) & 255)) * 1099511628211
	}
}

func (h *hasher) val(v reflect.Value) {
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			h.u(1)
		} else {
			h.u(2)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		h.u(uint64(v.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		h.u(v.Uint())
	case reflect.Float32, reflect.Float64:
		h.u(math.Float64bits(v.Float()))
	case reflect.String:
		h.u(uint64(v.Len()))
		h.u(mcx.Hash([]byte(v.String())))
	case reflect.Slice:
		if v.IsNil() && !h.nocap {
			h.u(7)
			return
		}
		h.u(uint64(v.Len()))
		if !h.nocap {
			h.u(uint64(v.Cap()))
		}
		for i := 0; i < v.Len(); i++ {
			h.val(v.Index(i))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			h.val(v.Index(i))
		}
	case reflect.Map:
		if v.IsNil() && !h.nocap {
			h.u(8)
			return
		}
		var ks []uint64
		for it := v.MapRange(); it.Next(); {
			e := hasher{nocap: h.nocap}
			e.val(it.Key())
			e.u(3)
			e.val(it.Value())
			ks = append(ks, e.h)
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
		h.u(uint64(len(ks)))
		for _, k := range ks {
			h.u(k)
		}
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			h.u(9)
			return
		}
		h.u(10)
		if v.Type() == ref.BigType {
			h.u(mcx.Hash([]byte(v.Interface().(fmt.Stringer).String())))
			return
		}
		if v.Kind() == reflect.Interface {
			h.u(mcx.Hash([]byte(v.Elem().Type().String())))
		}
		h.val(v.Elem())
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			h.val(v.Field(i))
		}
	}
}

func decEvents(t reflect.Type, vs []reflect.Value, cutsPer int) (evs []decEvent) {
	add := func(name string, b []byte) {
		v, d, err := ref.Dec(t, b)
		e := decEvent{name: name, data: b}
		if err == nil && !d.Loose && !d.Amb {
			e.ok, e.want = true, v
		} else if err == nil {
			return // accepted or rejected at will
		}
		evs = append(evs, e)
	}
	seen := map[string]bool{}
	for i, v := range vs {
		b := ref.MustEnc(v.Interface())
		if seen[string(b)] {
			continue
		}
		seen[string(b)] = true
		add(fmt.Sprintf("value %d", i), b)
		var cs []int
		for k := 1; k <= cutsPer; k++ {
			cs = append(cs, len(b)*k/(cutsPer+1))
		}
		cs = append(cs, len(b)-1)
		last := -1
		for _, c := range cs {
			if c > last && c >= 0 && c < len(b) {
				add(fmt.Sprintf("value %d cut at %d of %d", i, c, len(b)), b[:c])
				last = c
			}
		}
	}
	add("nothing", nil)
	add("ff garbage", bytes.Repeat([]byte{0xff}, 40))
	add("02 garbage", bytes.Repeat([]byte{2}, 9))
	return
}

// destSearch explores the states of one destination.
func destSearch(w *mcx.W, c codec, t reflect.Type, evs []decEvent, depth, limit int) {
	seen := map[uint64]bool{}
	frontier := [][]int{nil}
	seen[hashValue(reflect.Zero(t))] = true
	w.AddStates(1)
	for d := 0; d < depth && len(frontier) > 0; d++ {
		var next [][]int
		for _, h := range frontier {
			for e := range evs {
				p := reflect.New(t)
				for _, x := range h {
					c.decode(evs[x].data, p.Interface())
				}
				ev := &evs[e]
				n, err := c.decode(ev.data, p.Interface())
				w.Eval(1)
				w.Step(1)
				if ev.ok {
					if err != nil || n != len(ev.data) && len(h) >= 0 && !prefixOK(t, ev, n) {
						w.Fail("%s codec, type %s: after [%s] decoding %s (%s) fails: %v (%d bytes read)", c.name, t, evNames(evs, h), ev.name, hexs(ev.data), err, n)
					}
					if !ref.Eq(p.Elem(), ev.want) {
						w.Fail("%s codec, type %s: after [%s] decoding %s (%s) gives %s, into a fresh destination %s", c.name, t, evNames(evs, h), ev.name, hexs(ev.data), show(p.Elem()), show(ev.want))
					}
					w.Trace()
				}
				if len(h) > 0 {
					w.NonTrivial()
				}
				k := hashValue(p.Elem())
				if !seen[k] && len(seen) < limit {
					seen[k] = true
					w.AddStates(1)
					next = append(next, append(append([]int{}, h...), e))
				}
			}
		}
		frontier = next
	}
	w.Outcome(uint64(len(seen))<<32 | mcx.Hash([]byte(t.String()))>>32)
}

func prefixOK(t reflect.Type, ev *decEvent, n int) bool {
	_, d, err := ref.Dec(t, ev.data)
	return err == nil && d.Pos == n
}

func evNames(evs []decEvent, h []int) string {
	s := ""
	for i, x := range h {
		if i > 0 {
			s += ", "
		}
		s += evs[x].name
	}
	return s
}

func firstVals(t reflect.Type, n int) []reflect.Value {
	vs := vals(t)
	if len(vs) <= n {
		return vs
	}
	out := append([]reflect.Value{}, vs[:n-1]...)
	return append(out, vs[len(vs)-1])
}

func sweepDest(r *mcx.Run, name string, ts []reflect.Type, depth, limit int) {
	r.Sweep(fmt.Sprintf("%s (%d types)", name, len(ts)), uint64(len(ts)*len(codecs)), func(w *mcx.W, i uint64) {
		t := ts[i/uint64(len(codecs))]
		evs := decEvents(t, firstVals(t, 6), 3)
		destSearch(w, codecs[i%uint64(len(codecs))], t, evs, depth, limit)
		w.Sample(func() string { return fmt.Sprintf("%s, %d events", t, len(evs)) })
	})
}

func runC16(r *mcx.Run) {
	depth := mcx.Pick(r, 4, 6)
	limit := mcx.Pick(r, 300, 3000)
	var leaves []reflect.Type
	leaves = append(append(leaves, builtinLeaves...), chainLeaves...)
	sweepDest(r, "destinations: leaves and chain types", leaves, depth, limit)
	sweepDest(r, "destinations: named types", append(append([]reflect.Type{}, namedTypes...), extTypes...), depth, limit)
	sweepDest(r, "destinations: one constructor", closure(leaves, 1, allCtors), depth, limit)
	few := []reflect.Type{typeOf[uint16](), typeOf[string](), typeOf[chain.Name](), typeOf[inner](), typeOf[ext2]()}
	d2 := closure(few, 2, allCtors)
	if r.Thorough {
		d2 = closure(leavesC02(), 2, allCtors)
	}
	sweepDest(r, "destinations: two constructors", d2, mcx.Pick(r, 3, 5), limit)
	// list-bearing chain values
	lens := []int{0, 1, 2, 5, 40}
	lists := map[reflect.Type][]reflect.Value{}
	for _, a := range lens {
		for _, b := range []int{0, 1, 4} {
			lists[typeOf[chain.Action]()] = append(lists[typeOf[chain.Action]()], reflect.ValueOf(mkAction(a, b*a)))
			lists[typeOf[chain.Transaction]()] = append(lists[typeOf[chain.Transaction]()], reflect.ValueOf(mkTx(a, b, a*b%3)), reflect.ValueOf(mkTx(b, a, b)))
			lists[typeOf[chain.Bytes]()] = append(lists[typeOf[chain.Bytes]()], reflect.ValueOf(chain.Bytes(pat(a*40+b, byte(a)))))
			lists[typeOf[chain.Blob]()] = append(lists[typeOf[chain.Blob]()], reflect.ValueOf(chain.Blob(pat(a*40+b, byte(a)))))
			lists[typeOf[chain.PublicKey]()] = append(lists[typeOf[chain.PublicKey]()], reflect.ValueOf(key(chain.KeyType(a%3), a*7)), reflect.ValueOf(key(chain.WA, a)))
			lists[typeOf[chain.Signature]()] = append(lists[typeOf[chain.Signature]()], reflect.ValueOf(sig(chain.KeyType(a%3), a, b)), reflect.ValueOf(sig(chain.WA, b, a)))
			if a == 5 && !r.Thorough {
				continue
			}
			lists[typeOf[chain.Abi]()] = append(lists[typeOf[chain.Abi]()], reflect.ValueOf(mkAbi([8]int{a, b, a, b, a, b, a, b})), reflect.ValueOf(mkAbi([8]int{b, a, b, a, b, a, b, a})))
		}
	}
	for _, t := range []reflect.Type{typeOf[chain.Action](), typeOf[chain.Transaction](), typeOf[chain.Abi](), typeOf[chain.Bytes](), typeOf[chain.Blob](), typeOf[chain.PublicKey](), typeOf[chain.Signature]()} {
		t := t
		evs := decEvents(t, lists[t], mcx.Pick(r, 3, 8))
		r.Sweep("destinations: lists in "+t.String(), uint64(len(codecs)*len(evs)), func(w *mcx.W, i uint64) {
			// every pair of events as history, then every event (a full tree, no state merging)
			c := codecs[i%3]
			e1 := int(i / 3)
			for e2 := range evs {
				p := reflect.New(t)
				c.decode(evs[e1].data, p.Interface())
				_, err := c.decode(evs[e2].data, p.Interface())
				if evs[e2].ok && (err != nil || !ref.Eq(p.Elem(), evs[e2].want)) {
					w.Fail("%s codec, type %s: after [%s] decoding %s gives %s, %v, into a fresh destination %s", c.name, t, evs[e1].name, evs[e2].name, show(p.Elem()), err, show(evs[e2].want))
				}
				w.Step(2)
				w.Trace()
				w.NonTrivial()
				if !evs[e2].ok { // one more, after two events the second of which failed
					for e3 := range evs {
						if !evs[e3].ok {
							continue
						}
						q := reflect.New(t)
						c.decode(evs[e1].data, q.Interface())
						c.decode(evs[e2].data, q.Interface())
						_, err := c.decode(evs[e3].data, q.Interface())
						if err != nil || !ref.Eq(q.Elem(), evs[e3].want) {
							w.Fail("%s codec, type %s: after [%s, %s] decoding %s gives %s, %v, into a fresh destination %s", c.name, t, evs[e1].name, evs[e2].name, evs[e3].name, show(q.Elem()), err, show(evs[e3].want))
						}
						w.Step(3)
						w.Trace()
						w.Eval(1)
					}
				}
			}
			w.AddStates(len(evs))
		})
	}
	// the other ways to decode into a destination: Action.DecodeInto, UnmarshalABI called directly
	dts := append(append([]reflect.Type{}, namedTypes...), chainLeaves...)
	r.Sweep("destinations: DecodeInto and UnmarshalABI", uint64(len(dts)), func(w *mcx.W, i uint64) {
		t := dts[i]
		evs := decEvents(t, firstVals(t, 5), 2)
		for e1 := range evs {
			for e2 := range evs {
				if !evs[e2].ok {
					continue
				}
				p := reflect.New(t)
				(chain.Action{Data: evs[e1].data}).DecodeInto(p.Interface())
				err := chain.Action{Data: evs[e2].data}.DecodeInto(p.Interface())
				if err != nil || !ref.Eq(p.Elem(), evs[e2].want) {
					w.Fail("DecodeInto, type %s: after [%s] decoding %s gives %s, %v", t, evs[e1].name, evs[e2].name, show(p.Elem()), err)
				}
				w.Step(2)
				w.Trace()
				w.NonTrivial()
				w.Eval(1)
				p = reflect.New(t)
				u, ok := p.Interface().(abi.Unmarshaler)
				if !ok {
					continue
				}
				u.UnmarshalABI(chain.NewDecoder(bytes.NewReader(evs[e1].data)))
				err = u.UnmarshalABI(chain.NewDecoder(bytes.NewReader(evs[e2].data)))
				if err != nil || !ref.Eq(p.Elem(), evs[e2].want) {
					w.Fail("UnmarshalABI of %s: after [%s] decoding %s gives %s, %v", t, evs[e1].name, evs[e2].name, show(p.Elem()), err)
				}
			}
		}
	})
	runStreams(r)
}

// nested is a value nested too deeply to be decoded.
func nestedBytes(n int) []byte {
	b := []byte{}
	for i := 0; i < n; i++ {
		b = append(b, 1)
	}
	return b
}

type recList []recList

// streamR hands out one value's bytes at a time.
type streamR struct{ b []byte }

func (s *streamR) Read(p []byte) (int, error) {
	if len(s.b) == 0 {
		return 0, io.EOF
	}
	n := copy(p, s.b)
	s.b = s.b[n:]
	return n, nil
}

func runStreams(r *mcx.Run) {
	type item struct {
		v    reflect.Value
		b    []byte
		fail bool // decoding b must fail
		bad  any  // or: encoding this must fail
	}
	var items []item
	for _, t := range append(append(append([]reflect.Type{}, builtinLeaves...), chainLeaves...), typeOf[inner](), typeOf[node](), typeOf[optMix](), typeOf[expr](), typeOf[[]string](), typeOf[map[string]uint16](), typeOf[[3]*inner](), typeOf[tree]()) {
		vs := vals(t)
		v := vs[len(vs)-1]
		if ref.BigMap(v) {
			v = vs[1]
		}
		items = append(items, item{v: v, b: ref.MustEnc(v.Interface())})
	}
	for _, n := range []int{900, 1024, 1025, 5000, 70000} { // longer than any buffer a decoder may read ahead with
		for _, v := range []any{string(pat(n, 1)), pat(n, 2), chain.Bytes(pat(n, 3)), chain.Action{Name: 1, Data: pat(n, 4)}} {
			if n != 5000 && (n+len(items))%2 == 0 {
				continue
			}
			items = append(items, item{v: reflect.ValueOf(v), b: ref.MustEnc(v)})
		}
	}
	failing := []item{
		{v: reflect.ValueOf("abcdef"), b: []byte{6, 'a', 'b'}, fail: true},
		{v: reflect.ValueOf(key(chain.K1, 0)), b: []byte{9}, fail: true},
		{v: reflect.ValueOf(uint(1)), b: []byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 1}, fail: true},
		{v: reflect.ValueOf(recList{}), b: nestedBytes(30000), fail: true},
		{v: reflect.ValueOf(expr{}), b: []byte{7, 1, 1}, fail: true},
		{v: reflect.ValueOf(mkTx(1, 2, 1)), b: layout(mkTx(1, 2, 1))[:30], fail: true},
		{v: reflect.ValueOf([]string{"a"}), b: []byte{2, 1, 'x'}, fail: true},
		{v: reflect.ValueOf(make(chan int)), b: []byte{1, 2}, fail: true},
	}
	badEnc := []any{uint(math.MaxUint32 + 1), int(math.MinInt64), make(chan int), myPtr{}, []*inner{{}, nil}, expr{}}
	pool := append(append([]item{}, items...), failing...)
	m := uint64(len(pool))
	for _, c := range codecs {
		c := c
		r.Sweep("streams: three decodes, "+c.name, m*m*m, func(w *mcx.W, i uint64) {
			ix := [3]uint64{i % m, i / m % m, i / m / m}
			s := &streamR{}
			dec := c.dec(s)
			fresh := true
			for k := 0; k < 3; k++ {
				it := pool[ix[k]]
				if fresh {
					// everything up to the next failing item is on the stream at once
					s.b = nil
					for j := k; j < 3; j++ {
						s.b = append(s.b, pool[ix[j]].b...)
						if pool[ix[j]].fail {
							break
						}
					}
					fresh = false
				}
				p := reflect.New(it.v.Type())
				err := dec.Decode(p.Interface())
				if it.fail {
					if err == nil {
						w.Fail("%s codec: decoding %s as %s succeeds", c.name, hexs(it.b), it.v.Type())
					}
					fresh = true
					continue
				}
				if err != nil || !ref.Eq(p.Elem(), it.v) {
					w.Fail("%s codec: value %d of a stream of %s, %s, %s is %s, %v, want %s", c.name, k, pool[ix[0]].v.Type(), pool[ix[1]].v.Type(), pool[ix[2]].v.Type(), show(p.Elem()), err, show(it.v))
				}
			}
			w.NonTrivial()
			w.Step(3)
			w.Trace()
			w.AddStates(1)
		})
		e := uint64(len(items) + len(badEnc))
		r.Sweep("streams: three encodes, "+c.name, e*e*e, func(w *mcx.W, i uint64) {
			ix := [3]uint64{i % e, i / e % e, i / e / e}
			var b bytes.Buffer
			enc := c.enc(&b)
			pos := 0
			for k := 0; k < 3; k++ {
				if ix[k] >= uint64(len(items)) {
					bad := badEnc[ix[k]-uint64(len(items))]
					enc.Encode(bad)
					pos = b.Len()
					continue
				}
				it := items[ix[k]]
				if err := enc.Encode(it.v.Interface()); err != nil || !bytes.Equal(b.Bytes()[pos:], it.b) {
					w.Fail("%s codec: value %d of three encoded in a row (%s) is %s, %v, want %s", c.name, k, show(it.v), hexs(b.Bytes()[pos:]), err, hexs(it.b))
				}
				pos = b.Len()
			}
			w.NonTrivial()
			w.Step(3)
			w.Trace()
			w.AddStates(1)
		})
	}
	// ABI-driven values one after the other on one reader and writer, and mixed with static ones
	var ats []*ref.AT
	for _, t := range abiBase() {
		if !zeroWidth(t) {
			ats = append(ats, t)
		}
	}
	def := ref.Abi(ats...)
	a := uint64(len(ats))
	r.Sweep("streams: ABI-driven", a*a*2, func(w *mcx.W, i uint64) {
		t1, t2 := ats[i/2%a], ats[i/2/a]
		v1s, v2s := abiVals(t1), abiVals(t2)
		v1, v2 := v1s[len(v1s)-1], v2s[len(v2s)-1]
		e1, _ := ref.AbiEnc(t1, v1)
		e2, _ := ref.AbiEnc(t2, v2)
		x1, d1, err1 := ref.AbiDec(t1, cat(e1, e2))
		if err1 != nil || d1.Pos != len(e1) {
			return // a trailing extension would take the next value's bytes
		}
		x2, _, _ := ref.AbiDec(t2, e2)
		var b bytes.Buffer
		rd := bytes.NewReader(cat(e1, binary.LittleEndian.AppendUint32(nil, 77), e2))
		check := func(t *ref.AT, v, x any, e []byte) {
			b.Reset()
			if err := def.Encode(&b, t.Expr(), v); err != nil || !bytes.Equal(b.Bytes(), e) {
				w.Fail("ABI type %s: %v encodes as %s, %v, want %s", t.Expr(), v, hexs(b.Bytes()), err, hexs(e))
			}
			if got, err := def.Decode(rd, t.Expr()); err != nil || !ref.EqAny(got, x) {
				w.Fail("ABI type %s on a stream after %s: %v, %v, want %v", t.Expr(), t1.Expr(), got, err, x)
			}
		}
		check(t1, v1, x1, e1)
		var mid uint32
		if err := chain.NewDecoder(rd).Decode(&mid); err != nil || mid != 77 {
			w.Fail("value between two ABI-driven values is %d, %v", mid, err)
		}
		if i%2 == 1 { // a failing call in between
			if _, err := def.Decode(bytes.NewReader(nil), t1.Expr()); err == nil && len(e1) > 0 && !zeroWidth(t1) {
				w.Fail("ABI type %s decodes from nothing", t1.Expr())
			}
		}
		check(t2, v2, x2, e2)
		if rd.Len() != 0 {
			w.Fail("%d bytes left over", rd.Len())
		}
		w.NonTrivial()
		w.Step(5)
		w.Trace()
		w.AddStates(1)
	})
}
