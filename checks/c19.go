package checks

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"reflect"
	"strings"

	"verif/mcx"
	"verif/ref"

	"github.com/greymass/go-eosio/pkg/chain"
)

func init() {
	register(&Check{
		ID: "C19", Level: "model_checking",
		Rule:   "model: a map is its set of entries, so no history of insertions and deletions that leads to the same set may change its encoding. For every map type and entry set, maps are built by every insertion order (all permutations of up to 5 / 6 entries; rotations, reversals, strides of larger ones), with and without size hints, with deletions and overwrites in between, in every container position, and each is encoded repeatedly on every codec and several writers; all outputs must be identical, must decode to the value, and must be reproduced when the decoded value is encoded again, also in fresh processes with other hash seeds. Every other value of the universe is encoded repeatedly, re-encoded after decoding, and with other capacities. A case is non-trivial if two constructions of the same value are compared.",
		Bounds: "22 key types x 6 value types x 0-9, 17 and 40 entries; 8 key types with 41-4097 (quick, one of them up to 140000) / 140000 (thorough) entries; pointer and interface keys; 6 key types with keys that agree in all but one position; all permutations to 5 (quick) / 6 (thorough) entries; 24 encodings per construction; universe: leaves, chain types, named types, constructor depth 2 (22 leaves) and 3 (3 leaves, thorough); actions with 0-12 authorisations; ABI-driven values with all insertion orders of up to 5 fields.",
		Run:    runC19,
	})
}

type mapKeyS struct {
	A uint8
	B string
}

var mapKeyTypes = []reflect.Type{
	typeOf[string](), typeOf[uint8](), typeOf[uint16](), typeOf[uint32](), typeOf[uint64](), typeOf[int8](), typeOf[int16](), typeOf[int32](), typeOf[int64](),
	typeOf[int](), typeOf[uint](), typeOf[float32](), typeOf[float64](), typeOf[[2]uint8](), typeOf[mapKeyS](), typeOf[myU64](),
	typeOf[chain.Name](), typeOf[chain.Checksum160](), typeOf[chain.Asset](), typeOf[chain.Uint128](), typeOf[chain.SymbolCode](), typeOf[chain.PermissionLevel](),
}

// nthKey gives distinct keys for distinct i < 100.
func nthKey(t reflect.Type, i int) reflect.Value {
	v := reflect.New(t).Elem()
	j := (i*37 + 11) % 101 // spread the order
	switch t.Kind() {
	case reflect.String:
		v.SetString(strings.Repeat("k", j%4) + fmt.Sprint(j))
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint:
		v.SetUint(uint64(j) << (uint(j%2) * (uint(t.Bits()) / 2 % 9)))
		if t.Bits() >= 16 {
			v.SetUint(uint64(j) | uint64(j%7)<<(uint(min(t.Bits(), 32))-9))
		} else {
			v.SetUint(uint64(j))
		}
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Int:
		v.SetInt(int64(j) - 50)
	case reflect.Float32, reflect.Float64:
		v.SetFloat(float64(j)*0.5 - 20)
	case reflect.Array:
		for k := 0; k < t.Len(); k++ {
			v.Index(k).SetUint(uint64(j >> (uint(k) % 2 * 3) & 0xff))
		}
		v.Index(t.Len() - 1).SetUint(uint64(j))
	case reflect.Struct:
		for k := 0; k < t.NumField(); k++ {
			v.Field(k).Set(nthKey(t.Field(k).Type, (i+k*3)%101))
		}
	default:
		panic(t.String())
	}
	return v
}

var mapValTypes = []reflect.Type{typeOf[uint8](), typeOf[string](), typeOf[[]byte](), typeOf[*inner](), typeOf[map[string]uint16](), typeOf[chain.Asset]()}

func nthVal(t reflect.Type, i int) reflect.Value {
	if t.Kind() == reflect.Map { // several entries in an inner map, built in an order depending on nothing
		m := reflect.MakeMap(t)
		for k := 0; k < 3+i%3; k++ {
			m.SetMapIndex(nthKey(t.Key(), k+i), reflect.ValueOf(uint16(k)).Convert(t.Elem()))
		}
		return m
	}
	vs := vals(t)
	return vs[i%len(vs)]
}

// buildMap makes the map of entries 0..n-1, inserting in the given order; mode varies the history.
func buildMap(t reflect.Type, order []int, mode int) reflect.Value {
	var m reflect.Value
	switch mode % 3 {
	case 0:
		m = reflect.MakeMap(t)
	case 1:
		m = reflect.MakeMapWithSize(t, len(order))
	case 2:
		m = reflect.MakeMapWithSize(t, 100)
	}
	n := len(order)
	if mode >= 3 { // foreign entries first
		for k := n; k < n+1+mode*3; k++ {
			m.SetMapIndex(nthKey(t.Key(), k%101), nthVal(t.Elem(), k))
		}
	}
	for i, k := range order {
		if mode == 4 && i%2 == 0 { // wrong value first, then overwritten
			m.SetMapIndex(nthKey(t.Key(), k), nthVal(t.Elem(), k+1))
		}
		m.SetMapIndex(nthKey(t.Key(), k), nthVal(t.Elem(), k))
		if mode == 5 { // out and in again
			m.SetMapIndex(nthKey(t.Key(), k), reflect.Value{})
			m.SetMapIndex(nthKey(t.Key(), k), nthVal(t.Elem(), k))
		}
	}
	if mode >= 3 {
		for k := n; k < n+1+mode*3; k++ {
			m.SetMapIndex(nthKey(t.Key(), k%101), reflect.Value{})
		}
	}
	return m
}

func orders(n, full int) (out [][]int) {
	id := make([]int, n)
	for i := range id {
		id[i] = i
	}
	if n <= full {
		var rec func(k int)
		rec = func(k int) {
			if k == n {
				out = append(out, append([]int{}, id...))
				return
			}
			for i := k; i < n; i++ {
				id[k], id[i] = id[i], id[k]
				rec(k + 1)
				id[k], id[i] = id[i], id[k]
			}
		}
		rec(0)
		return
	}
	for s := 0; s < 4; s++ { // rotations
		o := make([]int, n)
		for i := range o {
			o[i] = (i + s*n/4) % n
		}
		out = append(out, o)
		p := make([]int, n)
		for i := range p {
			p[i] = o[n-1-i]
		}
		out = append(out, p)
	}
	for _, st := range []int{3, 5, 7, 11} { // strides
		if n%st != 0 {
			o := make([]int, n)
			for i := range o {
				o[i] = i * st % n
			}
			out = append(out, o)
		}
	}
	return
}

// writers of different kinds
type sliceW struct{ b []byte }

func (s *sliceW) Write(p []byte) (int, error) { s.b = append(s.b, p...); return len(p), nil }

// encodeAll encodes v on every path and reports the first difference from want (nil: none yet).
func encodeAll(w *mcx.W, what func() string, v reflect.Value, want []byte, reps int) []byte {
	p := ptrTo(v)
	for k := 0; k < reps; k++ {
		c := codecs[k%3]
		var b []byte
		var err error
		switch k % 4 {
		case 0:
			b, err = c.encode(v.Interface())
		case 1:
			b, err = c.encode(p.Interface())
		case 2:
			s := &sliceW{}
			err = c.enc(s).Encode(v.Interface())
			b = s.b
		case 3:
			var x, y bytes.Buffer
			err = c.enc(io.MultiWriter(&x, &y)).Encode(p.Interface())
			b = y.Bytes()
		}
		if err != nil {
			w.Fail("%s: %s codec cannot encode %s: %v", what(), c.name, show(v), err)
		}
		if want == nil {
			want = append([]byte{}, b...)
		}
		if !bytes.Equal(want, b) {
			w.Fail("%s: %s encodes as %s and as %s (%s codec, call %d)", what(), show(v), hexs(want), hexs(b), c.name, k)
		}
		w.Eval(1)
	}
	return want
}

// reencode decodes canonical bytes and encodes the result again.
func reencode(w *mcx.W, t reflect.Type, b []byte) {
	for _, c := range codecs {
		v, n, err := c.decodeNew(t, b)
		if err != nil || n != len(b) {
			w.Fail("%s codec cannot decode %s from %s: %v", c.name, t, hexs(b), err)
		}
		again, err := c.encode(v.Interface())
		if err != nil || !bytes.Equal(again, b) {
			w.Fail("%s codec: %s decoded from %s encodes as %s, %v", c.name, show(v), hexs(b), hexs(again), err)
		}
	}
	w.Eval(3)
}

func mapSizes(t reflect.Type) []int {
	s := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 17, 40}
	return s
}

// mapUniverse is the hash of the encodings of all maps, for comparison between processes.
func MapUniverse() string {
	h := uint64(1)
	for _, kt := range mapKeyTypes {
		for _, vt := range mapValTypes {
			t := reflect.MapOf(kt, vt)
			for _, n := range []int{2, 9, 40} {
				b, err := codecs[0].encode(buildMap(t, orders(n, 0)[0], 0).Interface())
				if err != nil {
					return err.Error()
				}
				h = mcx.Hash(b, ref.LE(h, 8))
			}
		}
	}
	return fmt.Sprintf("%x", h)
}

func runC19(r *mcx.Run) {
	full := mcx.Pick(r, 5, 6)
	type mc struct {
		t reflect.Type
		n int
	}
	var cs []mc
	for _, kt := range mapKeyTypes {
		for _, vt := range mapValTypes {
			t := reflect.MapOf(kt, vt)
			for _, n := range mapSizes(t) {
				cs = append(cs, mc{t, n})
			}
		}
	}
	r.Sweep("construction histories of maps", uint64(len(cs)), func(w *mcx.W, i uint64) {
		c := cs[i]
		var want []byte
		os := orders(c.n, full)
		for k, o := range os {
			for mode := 0; mode < 6; mode++ {
				if len(os) > 30 && mode != k%6 && !(k%17 == 0) {
					continue
				}
				m := buildMap(c.t, o, mode)
				want = encodeAll(w, func() string { return fmt.Sprintf("%s with %d entries, order %v, history %d", c.t, c.n, o, mode) }, m, want, 12)
				w.AddStates(1)
				w.Step(len(o))
				w.Trace()
			}
		}
		m := buildMap(c.t, os[0], 0)
		if !ref.Encodes(want, m) {
			w.Fail("%s encodes as %s, which is not an encoding of it", show(m), hexs(want))
		}
		reencode(w, c.t, want)
		w.NonTrivial()
		w.Outcome(mcx.Hash(want))
		w.Sample(func() string { return fmt.Sprintf("%s, %d entries, %d orders", c.t, c.n, len(os)) })
	})
	// maps inside containers
	conts := []int{0, 1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 13}
	r.Sweep("maps inside containers", uint64(len(cs)*len(conts)), func(w *mcx.W, i uint64) {
		c := cs[i/uint64(len(conts))]
		ct, ok := construct(conts[i%uint64(len(conts))], c.t)
		if !ok || c.n > 17 || c.n == 1 {
			return
		}
		var want []byte
		for k, o := range orders(c.n, 3) {
			m := buildMap(c.t, o, k%6)
			v := reflect.New(ct).Elem()
			fill(v, c.t, m)
			want = encodeAll(w, func() string { return fmt.Sprintf("%s inside %s", c.t, ct) }, v, want, 6)
			w.AddStates(1)
			w.Step(len(o))
			w.Trace()
		}
		reencode(w, ct, want)
		w.NonTrivial()
	})
	largeMaps(r)
	oddKeys(r)
	nearKeys(r)
	// the whole universe: repeated encodings, other capacities, nil against empty, decoded values
	leaves := append(append([]reflect.Type{}, builtinLeaves...), chainLeaves...)
	ts := append(append(append([]reflect.Type{}, leaves...), namedTypes...), extTypes...)
	ts = append(ts, closure(leaves, 1, allCtors)...)
	ts = append(ts, closure(leavesC02(), 2, allCtors)...)
	if r.Thorough {
		ts = append(ts, closure([]reflect.Type{typeOf[uint8](), typeOf[string](), typeOf[chain.Name]()}, 3, allCtors)...)
	}
	sweepTypes(r, "equal values", ts, func(w *mcx.W, v reflect.Value) {
		want := encodeAll(w, func() string { return "repeated" }, v, nil, 6)
		encodeAll(w, func() string { return "copy with spare capacity" }, spare(v), want, 2)
		encodeAll(w, func() string { return "copy" }, ref.Clone(v), want, 2)
		reencode(w, v.Type(), want)
		w.AddStates(1)
		w.Step(10)
		w.Trace()
		if len(want) > 1 {
			w.NonTrivial()
		}
	})
	// actions
	r.Sweep("action digests", 13*20, func(w *mcx.W, i uint64) {
		a := mkAction(int(i%13), int(i/13))
		want := a.Digest()
		b := spare(reflect.ValueOf(a)).Interface().(chain.Action)
		c := chain.NewAction(a.Account, a.Name, append(make([]chain.PermissionLevel, 0, 30), a.Authorization...), append(make(chain.Bytes, 0, 99), a.Data...))
		var d chain.Action
		d.Authorization = []chain.PermissionLevel{{Actor: 1}}
		if err := chain.NewDecoder(bytes.NewReader(layout(a))).Decode(&d); err != nil {
			w.Fail("%v", err)
		}
		for k, x := range []chain.Action{a, b, *c, d, a} {
			if got := x.Digest(); got != want {
				w.Fail("digest of equal action %d is %v, want %v", k, got, want)
			}
		}
		w.NonTrivial()
		w.Step(5)
		w.Trace()
		w.AddStates(5)
	})
	// ABI-driven values: generic maps built in every order
	var ats []*ref.AT
	for _, t := range abiBase() {
		ats = append(ats, suffixed(t, 1)...)
	}
	sweepAbi(r, "ABI-driven values", ats, func(w *mcx.W, def *chain.Abi, t *ref.AT, v any) {
		want, err := abiEncode(def, t.Expr(), v)
		if err != nil {
			w.Fail("cannot encode %s %v: %v", t.Expr(), v, err)
		}
		m, isMap := v.(map[string]any)
		var keys []string
		for k := range m {
			keys = append(keys, k)
		}
		os := [][]int{nil}
		if isMap {
			os = orders(len(keys), 5)
		}
		for _, o := range os {
			x := v
			if isMap {
				y := map[string]any{}
				for _, k := range o {
					y[keys[k]] = m[keys[k]]
				}
				x = y
			}
			for k := 0; k < 3; k++ {
				got, err := abiEncode(def, t.Expr(), x)
				if err != nil || !bytes.Equal(got, want) {
					w.Fail("ABI type %s: %v encodes as %s and as %s, %v", t.Expr(), v, hexs(want), hexs(got), err)
				}
			}
			w.AddStates(1)
			w.Step(len(o))
			w.Trace()
		}
		got, _, err := abiDecode(def, t.Expr(), want)
		if err != nil {
			w.Fail("ABI type %s: cannot decode %s: %v", t.Expr(), hexs(want), err)
		}
		again, err := abiEncode(def, t.Expr(), got)
		if err != nil || !bytes.Equal(again, want) {
			w.Fail("ABI type %s: %v decoded from %s encodes as %s, %v", t.Expr(), got, hexs(want), hexs(again), err)
		}
		w.NonTrivial()
	})
	// other processes have other hash seeds
	exe, _ := os.Executable()
	here := MapUniverse()
	r.Sweep("fresh processes", uint64(mcx.Pick(r, 24, 100)), func(w *mcx.W, i uint64) {
		out, err := exec.Command(exe, "maps").Output()
		if err != nil {
			return // no new process could be started
		}
		if strings.TrimSpace(string(out)) != here {
			w.Fail("maps encode differently in another process: %s here, %s there", here, out)
		}
		w.NonTrivial()
	})
}

type mapKeyBig struct {
	A uint32
	B [2]uint16
}

// largeMaps compares constructions of maps of many entries.
func largeMaps(r *mcx.Run) {
	type lm struct {
		name string
		mk   func() reflect.Value
		add  func(m reflect.Value, i int)
	}
	mkSet := func(k func(i int) any, v any) lm {
		t := reflect.MapOf(reflect.TypeOf(k(0)), reflect.TypeOf(v))
		return lm{t.String(), func() reflect.Value { return reflect.MakeMap(t) }, func(m reflect.Value, i int) {
			e := reflect.ValueOf(v)
			switch e.Kind() {
			case reflect.Uint16:
				e = reflect.ValueOf(uint16(i))
			case reflect.String:
				e = reflect.ValueOf(fmt.Sprint("v", i))
			}
			m.SetMapIndex(reflect.ValueOf(k(i)), e)
		}}
	}
	kinds := []lm{
		mkSet(func(i int) any { return fmt.Sprint("key", i) }, uint16(0)),
		mkSet(func(i int) any { return uint32(i) * 2654435761 }, uint16(0)),
		mkSet(func(i int) any { return int64(i)*7919 - 50000 }, ""),
		mkSet(func(i int) any { return float64(i)/8 - 77 }, uint16(0)),
		mkSet(func(i int) any { return mapKeyBig{uint32(i) * 2654435761, [2]uint16{uint16(i), 1}} }, uint16(0)),
		mkSet(func(i int) any { return chain.Name(uint64(i) * 0x9e3779b97f4a7c15) }, ""),
		mkSet(func(i int) any { return chain.Uint128{Lo: uint64(i), Hi: uint64(i % 5)} }, uint16(0)),
		mkSet(func(i int) any { return chain.Checksum160{byte(i), byte(i >> 8), 3} }, uint16(0)),
	}
	sizes := []int{41, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2049, 4097}
	if r.Thorough {
		sizes = append(sizes, 16385, 65535, 65536, 65537, 140000)
	}
	if !r.Thorough {
		kinds, sizes = append(kinds, kinds[1]), append(sizes, 16385, 140000)
	}
	r.Sweep("maps of many entries", uint64(len(kinds)*len(sizes)), func(w *mcx.W, i uint64) {
		k, n := kinds[i%uint64(len(kinds))], sizes[i/uint64(len(kinds))]
		if !r.Thorough && n > 5000 && i%uint64(len(kinds)) < 8 {
			return // quick: the largest for one kind only
		}
		var want []byte
		for o := 0; o < 4; o++ {
			m := k.mk()
			for j := 0; j < n; j++ {
				x := []int{j, n - 1 - j, (j + n/2) % n, j ^ 1}[o]
				if x >= n {
					x = n - 1
				}
				k.add(m, x)
			}
			if m.Len() != n { // a key that collides or the last one for odd n
				for j := 0; j < n; j++ {
					k.add(m, j)
				}
			}
			if want == nil {
				for j := n; j < n+n/2; j++ {
					k.add(m, j)
				}
				big := m
				m = k.mk()
				for j := 0; j < n; j++ {
					k.add(m, j)
				}
				for _, x := range big.MapKeys() {
					if !m.MapIndex(x).IsValid() {
						big.SetMapIndex(x, reflect.Value{})
					}
				}
				want = encodeAll(w, func() string { return fmt.Sprintf("%s with %d entries after deletions", k.name, n) }, big, want, 2)
			}
			want = encodeAll(w, func() string { return fmt.Sprintf("%s with %d entries, order %d", k.name, n, o) }, m, want, 4)
			w.AddStates(1)
			w.Step(n)
			w.Trace()
		}
		reencode(w, k.mk().Type(), want)
		w.NonTrivial()
	})
}

// oddKeys are maps whose keys are pointers or interfaces.
func oddKeys(r *mcx.Run) {
	type odd struct {
		name string
		mk   func(order []int, junk int) any
	}
	var keep []any
	ptrs := func(junk int) []*uint16 { // addresses in another order each time
		var ps []*uint16
		for j := 0; j < junk%5; j++ {
			keep = append(keep, new(uint16))
		}
		block := make([]uint16, 64)
		for j := 0; j < 8; j++ {
			p := &block[(j*(2*junk+3))%64]
			ps = append(ps, p)
		}
		return ps
	}
	odds := []odd{
		{"map[*uint16]string", func(o []int, junk int) any {
			m := map[*uint16]string{}
			ps := ptrs(junk)
			for _, k := range o {
				*ps[k] = uint16(k * 700)
				m[ps[k]] = fmt.Sprint(k)
			}
			return m
		}},
		{"map[*uint16]string with equal keys", func(o []int, junk int) any {
			m := map[*uint16]string{}
			ps := ptrs(junk)
			for _, k := range o {
				*ps[k] = uint16(k / 3)
				m[ps[k]] = fmt.Sprint(k)
			}
			return m
		}},
		{"map[*string]uint8", func(o []int, junk int) any {
			m := map[*string]uint8{}
			ss := make([]string, 64)
			for _, k := range o {
				p := &ss[(k*(2*junk+3))%64]
				*p = fmt.Sprint(k)
				m[p] = uint8(k)
			}
			return m
		}},
		{"map[interface{}]uint8", func(o []int, junk int) any {
			m := map[interface{}]uint8{}
			for _, k := range o {
				m[[]any{uint8(k), fmt.Sprint("x", k), int16(k), true, float64(k), chain.Name(k), uint32(k), int8(-k)}[k]] = uint8(k)
			}
			return m
		}},
	}
	// orders of eight out of all 40320 by a fixed stride, all of the first five
	var os [][]int
	for i, o := range orders(8, 8) {
		if i%61 == 0 {
			os = append(os, o)
		}
	}
	os = append(os, orders(5, 5)...)
	for i := range odds {
		odd := odds[i]
		for _, part := range [][][]int{os[:len(os)-120], os[len(os)-120:]} {
			r.Sweep(fmt.Sprintf("%s, %d keys", odd.name, len(part[0])), 1, func(w *mcx.W, _ uint64) {
				var want []byte
				for j, o := range part {
					v := reflect.ValueOf(odd.mk(o, j))
					want = encodeAll(w, func() string { return fmt.Sprintf("%s, order %v", odd.name, o) }, v, want, 4)
					w.AddStates(1)
					w.Step(len(o))
					w.Trace()
				}
				w.NonTrivial()
			})
		}
	}
}

// fill sets every part of v that has type t to x (allocating on the way) and leaves the rest minimal.
func fill(v reflect.Value, t reflect.Type, x reflect.Value) {
	if v.Type() == t {
		v.Set(x)
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		v.Set(reflect.New(v.Type().Elem()))
		fill(v.Elem(), t, x)
	case reflect.Slice:
		s := reflect.MakeSlice(v.Type(), 2, 2)
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return
		}
		fill(s.Index(0), t, x)
		fill(s.Index(1), t, x)
		v.Set(s)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			fill(v.Index(i), t, x)
		}
	case reflect.Map:
		m := reflect.MakeMap(v.Type())
		for k := 0; k < 3; k++ {
			e := reflect.New(v.Type().Elem()).Elem()
			fill(e, t, x)
			m.SetMapIndex(nthKey(v.Type().Key(), k), e)
		}
		v.Set(m)
	case reflect.Struct:
		if isVariant(v.Type()) && v.NumField() == 2 && v.Type().Field(0).Name == "V0" {
			fill(v.Field(1), t, x)
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if k := v.Field(i).Kind(); k == reflect.Struct || k == reflect.Ptr || k == reflect.Slice || k == reflect.Map || k == reflect.Array {
				fill(v.Field(i), t, x)
			}
		}
	}
}

// nearKeys: keys that differ in one place only, at every place.
func nearKeys(r *mcx.Run) {
	type fam struct {
		name string
		keys []any
	}
	var fs []fam
	for _, n := range []int{1, 2, 4, 7, 8, 9, 12, 13, 15, 16, 17, 20, 24, 31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000} {
		for pos := 0; pos < n; pos++ {
			if n > 40 && pos > 2 && pos < n-2 && pos%31 != 0 && pos%32 != 0 {
				continue
			}
			var ks []any
			for _, c := range []byte{'b', 'a', 0xff, 0} {
				b := bytes.Repeat([]byte("q"), n)
				b[pos] = c
				ks = append(ks, string(b))
			}
			fs = append(fs, fam{fmt.Sprintf("strings of length %d differing at %d", n, pos), ks})
		}
		x := strings.Repeat("q", n)
		fs = append(fs, fam{fmt.Sprintf("prefixes of length %d", n), []any{x, x + "q", x + "\x00", x + "\x00\x00", x[:n-1]}})
		// two places, in opposite directions
		if n > 1 {
			fs = append(fs, fam{fmt.Sprintf("opposite ends of length %d", n), []any{"a" + x[1:n-1] + "b", "b" + x[1:n-1] + "a", "a" + x[1:n-1] + "a", "b" + x[1:n-1] + "b"}})
		}
	}
	for pos := 0; pos < 32; pos++ {
		var a, c, p, u, st, fl []any
		for _, x := range []byte{2, 1, 0x80, 0xff} {
			var k [32]uint8
			k[pos] = x
			a = append(a, k)
			c = append(c, chain.Checksum256(k))
			if pos < 20 {
				var d chain.Checksum160
				d[pos] = x
				p = append(p, d)
			}
			if pos < 16 {
				y := uint64(x) << (uint(pos) % 8 * 8)
				q := chain.Uint128{Lo: y}
				if pos >= 8 {
					q = chain.Uint128{Hi: y}
				}
				u = append(u, q)
				st = append(st, chain.PermissionLevel{Actor: chain.Name(q.Lo), Permission: chain.Name(q.Hi)})
				if pos < 8 {
					fl = append(fl, y)
				} else {
					fl = append(fl, int64(y))
				}
			}
		}
		for k, l := range [][]any{a, c, p, u, st, fl} {
			if l != nil {
				fs = append(fs, fam{fmt.Sprintf("byte keys (%d) differing at %d", k, pos), l})
			}
		}
	}
	r.Sweep("keys differing in one place", uint64(len(fs)), func(w *mcx.W, i uint64) {
		f := fs[i]
		t := reflect.MapOf(reflect.TypeOf(f.keys[0]), typeOf[uint16]())
		var want []byte
		for _, o := range orders(len(f.keys), 4) {
			m := reflect.MakeMap(t)
			for _, k := range o {
				m.SetMapIndex(reflect.ValueOf(f.keys[k]), reflect.ValueOf(uint16(k)))
			}
			want = encodeAll(w, func() string { return f.name }, m, want, 6)
			w.AddStates(1)
			w.Step(len(o))
			w.Trace()
			if len(want) > 0 && !ref.Encodes(want, m) {
				w.Fail("%s encodes as %s, which is not an encoding of it", show(m), hexs(want))
			}
		}
		reencode(w, t, want)
		w.NonTrivial()
		w.Outcome(mcx.Hash(want))
	})
}
