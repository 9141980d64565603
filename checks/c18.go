package checks

import (
	"bytes"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/mcx"
	"verif/ref"
	samea "verif/same/a/same"
	sameb "verif/same/b/same"
	samec "verif/same/c/same"
	samed "verif/same/d/same"

	"github.com/greymass/go-eosio/pkg/abi"
	"github.com/greymass/go-eosio/pkg/base58"
	"github.com/greymass/go-eosio/pkg/chain"
	"github.com/greymass/go-eosio/pkg/codegen"
	"github.com/greymass/go-eosio/pkg/ripemd160"
)

func init() {
	register(&Check{
		ID: "C18", Level: "model_checking",
		Rule:        "model: a call's result is a function of its arguments. (1) Interleavings: two or three calls run as goroutines under a controlled scheduler that switches only at their I/O points and hook calls (a writer yields before it takes the bytes); every schedule within the preemption bound is executed and every call must return what it returns alone. (2) Histories: for all ordered pairs (and triples of a subset) of operations the last one must return what it returns alone, also after 300 repetitions, after failing and panicking calls, and with ABIs that redefine the same type names or are edited in place. The pairs also run one after the other in a process with nothing else going on, where each operation is also repeated up to 12000 times and series of up to 140000 different arguments (arguments that differ in one place or in their tag, invalid ones beside valid ones, one argument changed in place) go through the same functions, forwards and backwards. (3) Each operation alone in a fresh process gives the same. (4) All pairs of operations run concurrently under the race detector; and each operation and each series of arguments is used for the first time in a process by two goroutines at once. A case is non-trivial if two calls overlap or one precedes the other.",
		Bounds:      "interleavings: all pairs of about 75 I/O operations with preemption bound 3 (quick) / 4 (thorough), all schedules of pairs of the short ones, triples of 26 operations with bound 2 / 3; histories: all pairs of about 650 operations, triples of a fifth / a third of them (those on redefined ABIs preferred); race detector: all pairs of about 650 operations, and eight goroutines on one shared ABI.",
		Assumptions: []string{"scheduling points inside a call are its reads, writes and hook calls; unsynchronised accesses between them are left to the happens-before race detector"},
		NoLimit:     true,
		Run:         runC18,
	})
}

// ---- controlled scheduler

type sched struct {
	ev      chan int // thread id: reached a scheduling point or finished
	threads []*thread
	c       *mcx.Chooser
	blocked bool
	points  int
}

type thread struct {
	id      int
	goCh    chan struct{}
	state   int // 0 waiting for its turn, 1 running, 2 finished, 3 blocked on something of its own
	done    atomic.Bool
	res     any
	panicMs string
}

var blockedCases atomic.Int64

// runThreads executes the given calls under the schedule chosen by c.
func runThreads(c *mcx.Chooser, fs []func(yield func()) any) (res []any, pan []string, blocked bool, points int) {
	s := &sched{ev: make(chan int, 64), c: c}
	for i, f := range fs {
		t := &thread{id: i, goCh: make(chan struct{}, 1)}
		s.threads = append(s.threads, t)
		go func(t *thread, f func(func()) any) {
			<-t.goCh
			defer func() {
				if e := recover(); e != nil {
					t.panicMs = fmt.Sprint(e)
				}
				t.done.Store(true)
				s.ev <- t.id
			}()
			t.res = f(func() {
				s.ev <- t.id
				<-t.goCh
			})
		}(t, f)
	}
	cur := -1
	for {
		var en []int
		if cur >= 0 && s.threads[cur].state == 0 {
			en = append(en, cur)
		}
		live := 0
		for _, t := range s.threads {
			if t.state == 0 && t.id != cur {
				en = append(en, t.id)
			}
			if t.state != 2 {
				live++
			}
		}
		if live == 0 {
			break
		}
		if len(en) > 0 {
			k := 0
			if len(en) > 1 {
				k = c.Choose(len(en))
				s.points++
			}
			cur = en[k]
			t := s.threads[cur]
			t.state = 1
			t.goCh <- struct{}{}
		}
		// wait until the running thread reaches its next point
		running := func() bool {
			for _, t := range s.threads {
				if t.state == 1 {
					return true
				}
			}
			return false
		}
		wait := 2 * time.Second
		if !running() {
			wait = 60 * time.Second // only blocked threads are left
		}
		select {
		case id := <-s.ev:
			s.note(id)
		case <-time.After(wait):
			if wait > 10*time.Second {
				panic("calls on separate objects block each other forever")
			}
			for _, t := range s.threads {
				if t.state == 1 {
					t.state = 3 // holds up on something another call holds; let the others go on
					s.blocked = true
				}
			}
		}
		for more := true; more; {
			select {
			case id := <-s.ev:
				s.note(id)
			default:
				more = false
			}
		}
	}
	for _, t := range s.threads {
		res = append(res, t.res)
		pan = append(pan, t.panicMs)
	}
	return res, pan, s.blocked, s.points
}

func (s *sched) note(id int) {
	t := s.threads[id]
	if t.done.Load() {
		t.state = 2
	} else {
		t.state = 0
	}
}

// ---- operations with I/O points

type ioOp struct {
	name string
	run  func(yield func()) any
}

type yieldW struct {
	b bytes.Buffer
	y func()
}

func (w *yieldW) Write(p []byte) (int, error) {
	w.y()
	return w.b.Write(p)
}

type yieldR struct {
	r io.Reader
	y func()
}

func (r *yieldR) Read(p []byte) (int, error) {
	r.y()
	return r.r.Read(p)
}

var errHook = errors.New("hook failed")

func ioOps() (ops []ioOp) {
	enc := func(c codec, v any) {
		ops = append(ops, ioOp{fmt.Sprintf("%s encode %T", c.name, v), func(y func()) any {
			w := &yieldW{y: y}
			err := c.enc(w).Encode(v)
			return res2{w.b.Bytes(), errText(err)}
		}})
	}
	dec := func(c codec, v any) {
		b := ref.MustEnc(v)
		t := reflect.TypeOf(v)
		ops = append(ops, ioOp{fmt.Sprintf("%s decode %T", c.name, v), func(y func()) any {
			p := reflect.New(t)
			err := c.dec(&yieldR{bytes.NewReader(b), y}).Decode(p.Interface())
			return res2{p.Elem().Interface(), errText(err)}
		}})
	}
	n64 := int64(-9)
	vs := []any{
		uint16(0x1234), "hello", []string{"a", "bc"}, map[string]uint8{"k": 1, "l": 2}, inner{3, "in"}, node{V: 1, Next: &node{V: 2}},
		expr{exprV{Num: &n64}}, int(-70000), uint(70000), float64(2.5), []uint64{1, 2, 3}, [2]int32{-1, 5}, ext2{1, 2, []string{"z"}},
		*chain.A("1.2345 EOS"), key(chain.K1, 1), key(chain.WA, 3), sig(chain.WA, 2, 3), chain.N("teamgreymass"), chain.Checksum256{1, 2, 3},
		chain.Uint128{Lo: 1, Hi: 2}, chain.Bytes("bytes"), mkAction(1, 3), chain.TransactionHeader{RefBlockNum: 3, DelaySec: 300},
		mkTx(0, 1, 1), mkAbi([8]int{1, 1, 1, 0, 0, 0, 0, 0}),
	}
	for i, v := range vs {
		enc(codecs[i%3], v)
		dec(codecs[(i+1)%3], v)
	}
	// ABI-driven calls on one shared definition, and on definitions that give the same names other meanings
	shared := ref.Abi(abiN.d2, abiN.v2, abiN.tree, abiN.dAlias)
	for _, t := range []*ref.AT{abiN.d1, abiN.v2, abiN.tree, abiN.dAlias} {
		t := t
		avs := abiVals(t)
		v := avs[len(avs)-1]
		b, _ := ref.AbiEnc(t, v)
		ops = append(ops, ioOp{"shared ABI encode " + t.Expr(), func(y func()) any {
			w := &yieldW{y: y}
			err := shared.Encode(w, t.Expr(), v)
			return res2{w.b.Bytes(), errText(err)}
		}}, ioOp{"shared ABI decode " + t.Expr(), func(y func()) any {
			x, err := shared.Decode(&yieldR{bytes.NewReader(b), y}, t.Expr())
			return res2{x, errText(err)}
		}})
	}
	for i := range redefs {
		i := i
		ops = append(ops, ioOp{fmt.Sprintf("redefined ABI %d decode", i), func(y func()) any {
			x, err := redefs[i].Decode(&yieldR{bytes.NewReader(redefData), y}, "rec")
			return res2{x, errText(err)}
		}})
	}
	// hooks are scheduling points, too
	ops = append(ops, ioOp{"custom encode with yielding hook", func(y func()) any {
		w := &yieldW{y: func() {}}
		e := chain.NewCustomEncoder(w, func(enc *abi.Encoder, v interface{}) (bool, error) { y(); return false, nil })
		err := e.Encode([]inner{{1, "x"}, {2, "y"}})
		return res2{w.b.Bytes(), errText(err)}
	}}, ioOp{"custom decode with claiming hook", func(y func()) any {
		var out []string
		d := chain.NewCustomDecoder(bytes.NewReader([]byte{2, 7, 8}), func(dec *abi.Decoder, v interface{}) (bool, error) {
			y()
			if s, ok := v.(*string); ok {
				b, err := dec.ReadByte()
				*s = fmt.Sprint(b)
				return true, err
			}
			return false, nil
		})
		err := d.Decode(&out)
		return res2{out, errText(err)}
	}}, ioOp{"custom decode with failing hook", func(y func()) any {
		var out inner
		d := chain.NewCustomDecoder(bytes.NewReader([]byte{2, 1, 8}), func(dec *abi.Decoder, v interface{}) (bool, error) {
			y()
			if _, ok := v.(*string); ok {
				return false, errHook
			}
			return false, nil
		})
		err := d.Decode(&out)
		return res2{nil, errText(err)}
	}}, ioOp{"failing encode", func(y func()) any {
		w := &yieldW{y: y}
		err := chain.NewEncoder(w).Encode([]*inner{{5, "q"}, nil})
		return res2{nil, fmt.Sprint(err != nil)}
	}}, ioOp{"truncated decode", func(y func()) any {
		var out []string
		err := chain.NewDecoder(&yieldR{bytes.NewReader([]byte{3, 1, 'a', 5, 'b'}), y}).Decode(&out)
		return res2{nil, fmt.Sprint(err != nil)}
	}}, ioOp{"hash", func(y func()) any {
		h := ripemd160.New()
		for i := 0; i < 4; i++ {
			h.Write(pat(40, byte(i)))
			y()
		}
		a := h.Sum(nil)
		y()
		return [][]byte{a, h.Sum(nil)}
	}}, ioOp{"several values on one stream", func(y func()) any {
		w := &yieldW{y: y}
		e := chain.NewEncoder(w)
		err := e.Encode(uint32(7))
		err2 := e.Encode("two")
		d := chain.NewDecoder(&yieldR{&w.b, y})
		var a uint32
		var s string
		err3 := d.Decode(&a)
		err4 := d.Decode(&s)
		return res2{[]any{a, s}, errText(err) + errText(err2) + errText(err3) + errText(err4)}
	}})
	return
}

var redefData = []byte{3, 'a', 'b', 'c', 1, 0, 2, 0, 9, 9, 9, 9, 9, 9, 9, 9}

// the same type names with different definitions
var redefs = func() (out []*chain.Abi) {
	mk := func(alias, variant, other string, fields ...chain.AbiField) {
		out = append(out, &chain.Abi{
			Version:  "eosio::abi/1.1",
			Types:    []chain.AbiType{{NewTypeName: "al", Type: alias}},
			Structs:  []chain.AbiStruct{{Name: "base", Fields: fields[:1]}, {Name: "rec", Base: "base", Fields: fields[1:]}},
			Variants: []chain.AbiVariant{{Name: "va", Types: []string{"uint8", variant}}},
			Actions:  []chain.AbiAction{{Name: chain.N("act"), Type: "rec"}, {Name: chain.N("other"), Type: other, RicardianContract: alias}},
			Tables:   []chain.AbiTable{{Name: chain.N("act"), Type: other, KeyNames: []string{alias}}},
		})
	}
	f := func(n, t string) chain.AbiField { return chain.AbiField{Name: n, Type: t} }
	mk("uint8", "uint16", "al", f("a", "string"), f("b", "va"), f("c", "al"))
	mk("uint16", "uint8", "va", f("a", "string"), f("b", "va"), f("c", "al"))
	mk("uint8", "uint16", "string", f("a", "string"), f("c", "al"), f("b", "al"))
	mk("uint8[]", "al?", "base", f("a", "al"), f("b", "va"), f("d", "uint8?"))
	mk("int8", "string", "al[]", f("x", "al"), f("b", "al[]"))
	return
}()

// values of the type rec in the form dynamic decoding gives them
var redefRef = []map[string]any{
	{"a": "abc", "b": []any{"uint16", uint16(2)}, "c": uint8(9)},
	{"a": "abc", "b": []any{"uint8", uint8(2)}, "c": uint16(9)},
	{"a": "abc", "b": uint8(1), "c": uint8(9)},
	{"a": []any{uint8(1), uint8(2)}, "b": []any{"al?", nil}, "d": nil},
	{"x": int8(-1), "b": []any{int8(3)}},
}

var editMu sync.Mutex

var editAbi = func() *chain.Abi {
	d := *redefs[0]
	d.Types = append([]chain.AbiType{}, d.Types...)
	d.Structs = append([]chain.AbiStruct{}, d.Structs...)
	d.Structs[1].Fields = append([]chain.AbiField{}, d.Structs[1].Fields...)
	d.Actions = append([]chain.AbiAction{}, d.Actions...)
	d.Variants = []chain.AbiVariant{{Name: "va", Types: []string{"uint8", "string"}}}
	return &d
}()

// sameNamed gives values of different types with one and the same name.
func sameNamed() (out []any) {
	func() {
		type local struct {
			A uint8
			B string
		}
		out = append(out, local{1, "x"})
	}()
	func() {
		type local struct {
			A uint16
			B *uint8 `eosio:"optional"`
		}
		out = append(out, local{A: 3})
	}()
	func() {
		type local struct {
			B string
			A []uint8 `eosio:"extension"`
		}
		out = append(out, local{"y", []uint8{1}})
	}()
	func() {
		type local []uint32
		out = append(out, local{7, 8})
	}()
	return
}

// histOps are the operations for histories: those of C17, the I/O operations, and some that fail or panic.
func histOps() (ops []op17) {
	ops = opUniverse()
	for _, o := range ioOps() {
		o := o
		ops = append(ops, op17{o.name, func(*arena) any { return o.run(func() {}) }})
	}
	pan := func(name string, f func()) {
		ops = append(ops, op17{name, func(*arena) any { return panics(f) }})
	}
	pan("A of a bad text", func() { chain.A("nonsense") })
	pan("FloatValue", func() { chain.A("1.5 EOS").FloatValue() })
	pan("legacy text of a WA key", func() { k := key(chain.WA, 1); k.LegacyString("EOS") })
	ops = append(ops, op17{"encode with a failing writer", func(*arena) any {
		err := chain.NewEncoder(&faultW{k: 2, kind: 0, err: errIO}).Encode(mkTx(1, 1, 1))
		return fmt.Sprint(err)
	}}, op17{"decode with a panicking hook", func(*arena) any {
		return panics(func() {
			d := chain.NewCustomDecoder(bytes.NewReader([]byte{1, 1}), func(dec *abi.Decoder, v interface{}) (bool, error) {
				if _, ok := v.(*uint8); ok {
					panic("hook")
				}
				return false, nil
			})
			var x []struct{ A []uint8 }
			var y struct{ B uint8 }
			d.Decode(&y)
			_ = x
		})
	}}, op17{"too deeply nested", func(*arena) any {
		var x recList
		return chain.NewDecoder(bytes.NewReader(nestedBytes(20000))).Decode(&x) != nil
	}})
	// definitions that give the same names other meanings: one call per operation, so that a fresh process is a clean reference
	for i := range redefs {
		i := i
		d := redefs[i]
		one := func(what string, f func() (any, error)) {
			ops = append(ops, op17{fmt.Sprintf("redefined ABI %d %s", i, what), func(*arena) any { x, err := f(); return res2{x, errText(err)} }})
		}
		one("DecodeAction", func() (any, error) { return d.DecodeAction(bytes.NewReader(redefData), chain.N("act")) })
		one("DecodeAction of the other action", func() (any, error) { return d.DecodeAction(bytes.NewReader(redefData), chain.N("other")) })
		one("Action.Decode of the other action", func() (any, error) {
			return chain.Action{Name: chain.N("other"), Data: redefData}.Decode(d)
		})
		one("EncodeAction of the other action", func() (any, error) {
			var b bytes.Buffer
			err := d.EncodeAction(&b, chain.N("other"), []any{uint8(1), int8(2), "x"}[i%3])
			return b.Bytes(), err
		})
		one("Action.Decode", func() (any, error) { return chain.Action{Name: chain.N("act"), Data: redefData}.Decode(d) })
		one("decode the base", func() (any, error) { return d.Decode(bytes.NewReader(redefData), "base") })
		one("decode the variant", func() (any, error) { return d.Decode(bytes.NewReader(redefData[4:]), "va") })
		one("decode an array of the alias", func() (any, error) { return d.Decode(bytes.NewReader(redefData), "al[]") })
		if v := redefRef[i]; v != nil {
			one("EncodeAction", func() (any, error) {
				var b bytes.Buffer
				err := d.EncodeAction(&b, chain.N("act"), v)
				return b.Bytes(), err
			})
			one("Encode", func() (any, error) {
				var b bytes.Buffer
				err := d.Encode(&b, "rec", v)
				return b.Bytes(), err
			})
		}
		one("get", func() (any, error) {
			return []any{d.GetAction(chain.N("act")), d.GetStruct("rec"), d.GetStruct("base"), d.GetType("al"), d.GetVariant("va"), d.GetTable(chain.N("act")), d.GetAction(chain.N("none")), d.GetAction(chain.N("other"))}, nil
		})
	}
	// one definition edited in place: the operation puts it into state k and uses it
	for k, t := range []string{"uint8", "uint16", "uint8?", "name"} {
		k, t := k, t
		ops = append(ops, op17{fmt.Sprintf("ABI edited in place to state %d", k), func(*arena) any {
			editMu.Lock()
			defer editMu.Unlock()
			d := editAbi
			d.Types[0].Type = t
			d.Structs[1].Fields[1].Name = fmt.Sprintf("c%d", k)
			d.Actions[1].Type = t
			d.Variants[0].Types[1] = t
			z, err0 := d.DecodeAction(bytes.NewReader(redefData), chain.N("other"))
			x, err := d.Decode(bytes.NewReader(redefData), "rec")
			y, err2 := d.DecodeAction(bytes.NewReader(redefData), chain.N("act"))
			var b bytes.Buffer
			err3 := d.EncodeAction(&b, chain.N("act"), y)
			return []any{z, errText(err0), x, errText(err), y, errText(err2), b.Bytes(), errText(err3)}
		}})
	}
	// different types that share their name
	for _, v := range sameNamed() {
		v := v
		c := codecs[len(ops)%3]
		ops = append(ops, encOp(c, reflect.ValueOf(v), false), decOp(c, 0, reflect.TypeOf(v), ref.MustEnc(v)))
		if reflect.TypeOf(v).Kind() == reflect.Struct && reflect.TypeOf(v).Field(0).Type.Kind() != reflect.Slice {
			ops = append(ops, op17{fmt.Sprintf("generated code for %T", v), func(*arena) any { return codegen.GenUnmarshalFn(v) }})
		}
	}
	// types of the same name in packages of the same name, with different methods
	for i, v := range []any{
		samea.T{A: 0x01020304}, sameb.T{A: 0x0506}, samec.T{A: 7}, samed.T{A: 8, C: []byte{1}},
		[]samea.T{{A: 1}, {A: 2}}, []sameb.T{{A: 3}}, []samec.T{{A: 4}}, []samed.T{{A: 5, C: []byte{2}}},
		[]samea.U{1, 2}, []sameb.U{3}, []samec.U{4}, []samed.U{5},
		map[samea.U]samea.T{1: {A: 1}}, map[sameb.U]sameb.T{1: {A: 1}}, map[samec.U]samec.T{1: {A: 1}}, map[samed.U]samed.T{1: {A: 1}},
	} {
		t := reflect.TypeOf(v)
		for k, c := range codecs {
			if i >= 8 && k != i%3 {
				continue
			}
			v, c, k := v, c, k
			ops = append(ops, op17{fmt.Sprintf("%s codec, %s %d", c.name, t, i), func(*arena) any {
				var e []byte
				var err error
				if k == 1 {
					p := reflect.New(t)
					p.Elem().Set(reflect.ValueOf(v))
					e, err = c.encode(p.Interface())
				} else {
					e, err = c.encode(v)
				}
				x, n, err2 := c.decodeNew(t, []byte{1, 2, 3, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0})
				return []any{e, errText(err), x.Interface(), n, errText(err2)}
			}})
		}
	}
	return
}

func resHash(v any) uint64 {
	h := hasher{h: 14695981039346656037, nocap: true}
	h.val(reflect.ValueOf(&v).Elem())
	return h.h
}

func sameRes(a, b any) bool { return ref.Eq(reflect.ValueOf(&a).Elem(), reflect.ValueOf(&b).Elem()) }

func runC18(r *mcx.Run) {
	ios := ioOps()
	alone := make([]any, len(ios))
	lens := make([]int, len(ios))
	for i, o := range ios {
		n := 0
		alone[i] = o.run(func() { n++ })
		lens[i] = n
	}
	interleave := func(w *mcx.W, dev int, ids ...int) {
		if blockedCases.Load() > 8 {
			return
		}
		fs := make([]func(func()) any, len(ids))
		for k, id := range ids {
			fs[k] = ios[id].run
		}
		outs := map[uint64]bool{}
		n := mcx.ExploreLocal(dev, func(c *mcx.Chooser) bool {
			res, pan, blocked, points := runThreads(c, fs)
			w.Step(points)
			w.Trace()
			for k, id := range ids {
				if pan[k] != "" {
					w.Fail("%s panics when interleaved with %s (schedule %v): %s", ios[id].name, others(ios, ids, k), c.Path(), pan[k])
				}
				if !sameRes(res[k], alone[id]) {
					w.Fail("%s interleaved with %s (schedule %v) gives %s, alone %s", ios[id].name, others(ios, ids, k), c.Path(), showAny(res[k]), showAny(alone[id]))
				}
			}
			outs[mcx.Hash([]byte(fmt.Sprint(c.Path())))] = true
			if blocked {
				blockedCases.Add(1)
				return false
			}
			return true
		})
		w.Eval(n)
		w.AddStates(len(outs))
		w.NonTrivial()
		w.Sample(func() string {
			return fmt.Sprintf("%s with %s: %d schedules", ios[ids[0]].name, others(ios, ids, 0), n)
		})
	}
	m := uint64(len(ios))
	dev := mcx.Pick(r, 3, 4)
	r.Sweep(fmt.Sprintf("interleavings of pairs of %d calls, %d preemptions", m, dev), m*m, func(w *mcx.W, i uint64) {
		a, b := int(i%m), int(i/m)
		if a > b {
			return
		}
		interleave(w, dev, a, b)
	})
	var short []int
	maxPts := mcx.Pick(r, 6, 8)
	for i, n := range lens {
		if n <= maxPts {
			short = append(short, i)
		}
	}
	s := uint64(len(short))
	r.Sweep(fmt.Sprintf("all interleavings of pairs of %d short calls", s), s*s, func(w *mcx.W, i uint64) {
		a, b := short[i%s], short[i/s]
		if a > b {
			return
		}
		interleave(w, -1, a, b)
	})
	var three []int
	for i := range ios {
		if lens[i] <= 12 && (i%4 == 0 || strings.Contains(ios[i].name, "ABI")) {
			three = append(three, i)
		}
	}
	t := uint64(len(three))
	r.Sweep(fmt.Sprintf("interleavings of triples of %d calls", t), t*t*t, func(w *mcx.W, i uint64) {
		a, b, c := three[i%t], three[i/t%t], three[i/t/t]
		if a > b || b > c {
			return
		}
		interleave(w, mcx.Pick(r, 2, 3), a, b, c)
	})
	r.Note("calls_that_blocked_each_other", blockedCases.Load())

	// histories
	ops := histOps()
	base := make([]any, len(ops))
	for i := range ops {
		base[i] = ops[i].run(&arena{})
	}
	hist := func(w *mcx.W, ids ...int) {
		for _, id := range ids[:len(ids)-1] {
			ops[id].run(&arena{})
		}
		l := ids[len(ids)-1]
		if got := ops[l].run(&arena{}); !sameRes(got, base[l]) {
			var h []string
			for _, id := range ids[:len(ids)-1] {
				h = append(h, ops[id].name)
			}
			w.Fail("after [%s] %s gives %s, alone %s", strings.Join(h, "; "), ops[l].name, showAny(got), showAny(base[l]))
		}
		w.NonTrivial()
		w.Step(len(ids))
		w.Trace()
		w.AddStates(1)
	}
	k := uint64(len(ops))
	r.Sweep(fmt.Sprintf("histories of two of %d operations", k), k*k, func(w *mcx.W, i uint64) { hist(w, int(i%k), int(i/k)) })
	sub := tripleOps(ops, r.Thorough)
	q := uint64(len(sub))
	r.Sweep(fmt.Sprintf("histories of three of %d operations", q), q*q*q, func(w *mcx.W, i uint64) {
		hist(w, sub[i%q], sub[i/q%q], sub[i/q/q])
	})
	// the same without anything else in the process: a sequential process per shard
	shards := uint64(8)
	self, _ := os.Executable()
	r.Sweep("undisturbed histories", shards, func(w *mcx.W, i uint64) {
		var eb bytes.Buffer
		cmd := exec.Command(self, "hist", fmt.Sprint(i), fmt.Sprint(shards), r.Tier)
		cmd.Stderr = &eb
		out, err := cmd.Output()
		if i := strings.Index(string(out), "MISMATCH "); i >= 0 {
			w.Fail("%s", strings.TrimSpace(string(out)[i+9:]))
		}
		var st, tr int
		if n, _ := fmt.Sscanf(string(out), "DONE %d %d", &st, &tr); n == 2 && err == nil {
			w.AddStates(st)
			w.Step(tr)
			w.Eval(tr)
			w.NonTrivial()
			return
		}
		if strings.Contains(eb.String(), "panic: ") || strings.Contains(eb.String(), "fatal error: ") {
			w.Fail("a history crashes the process: %s", clip(eb.String()))
		}
		r.Note("undisturbed_histories", fmt.Sprintf("not available: %v", err)) // no new process could be started
	})
	exe, _ := os.Executable()
	r.Sweep("operations alone in a fresh process", k, func(w *mcx.W, i uint64) {
		out, err := exec.Command(exe, "solo", fmt.Sprint(i)).Output()
		if err != nil {
			var ee *exec.ExitError
			if errors.As(err, &ee) && strings.Contains(string(ee.Stderr), "panic") {
				w.Fail("%s crashes in a fresh process: %s", ops[i].name, clip(string(ee.Stderr)))
			}
			return // no new process could be started
		}
		if want := fmt.Sprintf("%x", resHash(base[i])); strings.TrimSpace(string(out)) != want {
			w.Fail("%s gives another result in a fresh process: %s, here %s (%s)", ops[i].name, strings.TrimSpace(string(out)), want, showAny(base[i]))
		}
		w.NonTrivial()
	})
	if !r.Replaying() && !r.Stopped() {
		racePass(r)
	}
}

// tripleOps selects the operations of which all triples are run.
func tripleOps(ops []op17, thorough bool) (sub []int) {
	step, abis := 7, 0
	if thorough {
		step = 4
	}
	for i := range ops {
		isAbi := i >= len(opUniverse()) && strings.Contains(ops[i].name, "ABI")
		if isAbi {
			abis++
		}
		if i%step == 0 || isAbi && (thorough || abis%3 == 0) {
			sub = append(sub, i)
		}
	}
	return
}

// shortText gives all texts of two bytes, then all of three characters out of 40.
func shortText(x int) string {
	if x < 65536 {
		return string([]byte{byte(x >> 8), byte(x)})
	}
	x -= 65536
	const al = "ABCDEFGHIJKLabcdefghijkl0123456789 _-.!@"
	return string([]byte{al[x%40], al[x/40%40], al[x/1600]})
}

// family is an operation with many different arguments and its expected result.
type family struct {
	name string
	n    int
	f    func(x int) (got, want any)
}

// nearBytes gives, for every length below n, a byte string of zeros and those that differ from it in one place.
func nearBytes(x, n int) []byte {
	m := make([]byte, x%n)
	if k := x / n; k < len(m) {
		m[k] = byte(k%3 + 1)
	}
	return m
}

func refCheckText(b []byte, suffix string) string {
	h := ref.RIPEMD160(append(append([]byte{}, b...), suffix...))
	return ref.Base58(append(append([]byte{}, b...), h[:4]...))
}

// refLegacySum gives the checksum of a legacy key text.
func refLegacySum(b []byte) []byte {
	h := ref.RIPEMD160(b)
	return h[:4]
}

func families() []family {
	// arguments that are changed in place between calls
	sharedKey := &chain.PublicKey{Type: chain.P1, Data: make([]byte, 33)}
	sharedSig := &chain.Signature{Type: chain.K1, Data: make([]byte, 65)}
	sharedMsg := make([]byte, 100)
	sharedAct := &chain.Action{Data: make([]byte, 20), Authorization: []chain.PermissionLevel{{}, {}}}
	sharedTx := &chain.Transaction{Actions: []chain.Action{{Name: 1, Data: make([]byte, 3)}, {Name: 2, Data: make([]byte, 3)}}}
	sharedAbi := &chain.Abi{
		Types:   []chain.AbiType{{NewTypeName: "al", Type: "t"}},
		Structs: []chain.AbiStruct{{Name: "t", Fields: []chain.AbiField{{Name: "f", Type: "uint8"}}}},
		Actions: []chain.AbiAction{{Name: chain.N("one"), Type: "t"}, {Name: chain.N("two"), Type: "al"}},
	}
	enc := func(v any) any { b, err := codecs[0].encode(v); return res2{b, errText(err)} }
	return []family{
		{"encode string", 70000, func(x int) (any, any) {
			v := fmt.Sprintf("text %d", x)
			return enc(v), res2{ref.MustEnc(v), ""}
		}},
		{"decode string", 70000, func(x int) (any, any) {
			v := fmt.Sprintf("text %d", x)
			var s string
			err := chain.NewDecoder(bytes.NewReader(ref.MustEnc(v))).Decode(&s)
			return res2{s, errText(err)}, res2{v, ""}
		}},
		{"decode short strings", 65536 + 64000, func(x int) (any, any) {
			v := shortText(x)
			var s string
			err := chain.NewDecoder(bytes.NewReader(ref.MustEnc(v))).Decode(&s)
			return res2{s, errText(err)}, res2{v, ""}
		}},
		{"ABI decode short strings", 65536 + 64000, func(x int) (any, any) {
			v := shortText(x)
			s, err := new(chain.Abi).Decode(bytes.NewReader(ref.MustEnc(v)), "string")
			return res2{s, errText(err)}, res2{v, ""}
		}},
		{"encode short strings", 65536 + 64000, func(x int) (any, any) {
			v := shortText(x)
			return enc(v), res2{ref.MustEnc(v), ""}
		}},
		{"base58 of short strings", 65536 + 64000, func(x int) (any, any) {
			b := []byte(shortText(x))
			t := base58.Encode(b)
			return []any{t, base58.Decode(t)}, []any{ref.Base58(b), b}
		}},
		{"base58 of zeros and more", 20000, func(x int) (any, any) {
			b := append(make([]byte, 1+x%3), fmt.Sprint(x)...)
			t := base58.Encode(b)
			return []any{t, base58.Decode(t)}, []any{ref.Base58(b), b}
		}},
		{"checksums of short strings", 65536, func(x int) (any, any) {
			m := []byte(shortText(x))
			r := ref.RIPEMD160(m)
			return []any{chain.Checksum160Digest(m), chain.Checksum256Digest(m)}, []any{chain.Checksum160(r), chain.Checksum256(sha256.Sum256(m))}
		}},
		{"symbol codes", 26 * 26 * 26, func(x int) (any, any) {
			c := string([]byte{'A' + byte(x%26), 'A' + byte(x/26%26), 'A' + byte(x/676)})
			y, err := chain.NewSymbolFromString("4," + c)
			if err != nil {
				return errText(err), c
			}
			t, err := y.Code().MarshalText()
			return []any{string(t), errText(err), y.String()}, []any{c, "", "4," + c}
		}},
		{"ABI types of confusable names", 32 * 32 * 4, func(x int) (any, any) {
			const al = "ABCDEFGHIJKLMNOPabcdefghijklmnop"
			n := string([]byte{al[x%32], al[x/32%32]})
			k := x / 1024
			d := chain.Abi{Structs: []chain.AbiStruct{{Name: n, Fields: []chain.AbiField{{Name: n, Type: []string{"uint8", "int8", "uint8[]", "uint8?"}[k]}}}}}
			v, err := d.Decode(bytes.NewReader([]byte{1, 2}), n)
			return res2{v, errText(err)}, res2{map[string]any{n: []any{uint8(1), int8(1), []any{uint8(2)}, uint8(2)}[k]}, ""}
		}},
		{"decode slice of strings", 5000, func(x int) (any, any) {
			v := []string{fmt.Sprint(x), "a", fmt.Sprint(-x)}
			var s []string
			err := chain.NewDecoder(bytes.NewReader(ref.MustEnc(v))).Decode(&s)
			return res2{s, errText(err)}, res2{v, ""}
		}},
		{"decode bytes", 70000, func(x int) (any, any) {
			v := chain.Bytes(fmt.Sprintf("text %d", x))
			var s chain.Bytes
			err := chain.NewDecoder(bytes.NewReader(ref.MustEnc(v))).Decode(&s)
			return res2{s, errText(err)}, res2{v, ""}
		}},
		{"name to text", 140000, func(x int) (any, any) {
			v := uint64(x) * 0x9e3779b97f4a7c15
			return chain.Name(v).String(), refNameText(v)
		}},
		{"text to name", 140000, func(x int) (any, any) {
			s := refNameText(uint64(x) * 0x9e3779b97f4a7c15)
			return uint64(chain.N(s)), refNameValue(s)
		}},
		{"base58 round trip", 20000, func(x int) (any, any) {
			b := []byte(fmt.Sprintf("%d%d", x, x*x))
			return base58.Decode(base58.Encode(b)), b
		}},
		{"public key round trip", 5000, func(x int) (any, any) {
			b := append([]byte{2}, make([]byte, 32)...)
			copy(b[10:], fmt.Sprint(x))
			p, err := chain.NewPublicKeyFromString(chain.NewPublicKey(chain.K1, b).String())
			if err != nil {
				return errText(err), b
			}
			return p.Data, b
		}},
		{"asset round trip", 70000, func(x int) (any, any) {
			v := int64(x)*7919 - 100000
			a, err := chain.NewAssetFromString(fmt.Sprintf("%d %s", v, []string{"EOS", "A", "ABCDEFG"}[x%3]))
			if err != nil {
				return errText(err), v
			}
			return a.Value, v
		}},
		{"checksums", 20000, func(x int) (any, any) {
			m := []byte(fmt.Sprint(x))
			r := ref.RIPEMD160(m)
			return chain.Checksum160Digest(m).String(), fmt.Sprintf("%x", r[:])
		}},
		{"times", 70000, func(x int) (any, any) {
			t, err := chain.NewTimePointSecFromString(chain.TimePointSec(uint32(x) * 61357).String())
			return res2{uint32(t), errText(err)}, res2{uint32(x) * 61357, ""}
		}},
		{"128-bit integers", 20000, func(x int) (any, any) {
			v := chain.Uint128{Lo: uint64(x) * 0x9e3779b97f4a7c15, Hi: uint64(x)}
			u, err := chain.NewUint128FromString(v.String())
			return res2{u, errText(err)}, res2{v, ""}
		}},
		{"ABI types of many names", 5000, func(x int) (any, any) {
			n := fmt.Sprintf("t%d", x)
			d := chain.Abi{Structs: []chain.AbiStruct{{Name: n, Fields: []chain.AbiField{{Name: n, Type: []string{"uint8", "int8", "uint8[]", "uint8?"}[x%4]}}}}}
			v, err := d.Decode(bytes.NewReader([]byte{1, 2}), n)
			return res2{v, errText(err)}, res2{map[string]any{n: []any{uint8(1), int8(1), []any{uint8(2)}, uint8(2)}[x%4]}, ""}
		}},
		{"ABIs that redefine one name", 5000, func(x int) (any, any) {
			n := fmt.Sprintf("f%d", x)
			d := chain.Abi{Structs: []chain.AbiStruct{{Name: "t", Fields: []chain.AbiField{{Name: n, Type: []string{"uint8", "int8", "uint8[]", "uint8?"}[x%4]}}}}}
			v, err := d.Decode(bytes.NewReader([]byte{1, 2}), "t")
			return res2{v, errText(err)}, res2{map[string]any{n: []any{uint8(1), int8(1), []any{uint8(2)}, uint8(2)}[x%4]}, ""}
		}},
		{"action digests", 20000, func(x int) (any, any) {
			a := chain.Action{Name: chain.Name(x % 7), Data: chain.Bytes(fmt.Sprint(x))}
			return a.Digest(), chain.Checksum256(sha256.Sum256(ref.MustEnc(a)))
		}},
		{"maps", 5000, func(x int) (any, any) {
			v := map[uint32]string{uint32(x): "a", uint32(x) * 7: "b", 5: fmt.Sprint(x)}
			b, err := codecs[0].encode(v)
			if err != nil {
				return errText(err), v
			}
			var u map[uint32]string
			err = chain.NewDecoder(bytes.NewReader(b)).Decode(&u)
			return res2{u, errText(err)}, res2{v, ""}
		}},
		{"checksums of messages that differ in one byte", 90 * 91, func(x int) (any, any) {
			m := nearBytes(x, 90)
			r := ref.RIPEMD160(m)
			return []any{chain.Checksum160Digest(m), chain.Checksum256Digest(m), chain.Checksum512Digest(m)}, []any{chain.Checksum160(r), chain.Checksum256(sha256.Sum256(m)), chain.Checksum512(sha512.Sum512(m))}
		}},
		{"checksums of long messages that differ in one byte", 3 * 1100, func(x int) (any, any) {
			m := make([]byte, []int{256, 500, 1100}[x/1100])
			m[x%1100%len(m)] = 1
			r := ref.RIPEMD160(m)
			return []any{chain.Checksum160Digest(m), chain.Checksum256Digest(m), chain.Checksum512Digest(m)}, []any{chain.Checksum160(r), chain.Checksum256(sha256.Sum256(m)), chain.Checksum512(sha512.Sum512(m))}
		}},
		{"base58 of bytes that differ in one place", 60 * 61, func(x int) (any, any) {
			b := nearBytes(x, 60)
			t := base58.Encode(b)
			d, err := base58.CheckDecode(base58.CheckEncode(b))
			e, err2 := base58.CheckDecodeEosio(base58.CheckEncodeEosio(b, "K1"), "K1")
			f, err3 := base58.CheckDecodeEosio(base58.CheckEncodeEosio(b, "R1"), "R1")
			return []any{t, base58.Decode(t), d, errText(err), e, errText(err2), f, errText(err3)}, []any{ref.Base58(b), b, b, "", b, "", b, ""}
		}},
		{"assets of all precisions", 19 * 6 * 3, func(x int) (any, any) {
			prec, code, n := x%19, []string{"A", "AB", "EOS", "EOT", "EOSS", "ABCDEFG"}[x/19%6], []string{"1", "-7", "0"}[x/114]
			t := n
			if prec > 0 {
				t += "." + strings.Repeat("0", prec-1) + "3"
			}
			a, err := chain.NewAssetFromString(t + " " + code)
			if err != nil {
				return errText(err), t
			}
			sy, err := chain.NewSymbolFromString(fmt.Sprintf("%d,%s", prec, code))
			return []any{a.String(), int(a.Symbol.Decimals()), a.Symbol.Name(), a.Symbol == sy, sy.String(), errText(err)}, []any{t + " " + code, prec, code, true, fmt.Sprintf("%d,%s", prec, code), ""}
		}},
		{"names that differ in one letter", 13 * 32 * 3, func(x int) (any, any) {
			b := []byte([]string{"eosio.token11", "aaaaaaaaaaaa", "zzzzzzzz"}[x/416])
			b[x%13%len(b)] = ".12345abcdefghijklmnopqrstuvwxyz"[x/13%32]
			s := strings.TrimRight(string(b), ".")
			v := refNameValue(s)
			var n, m chain.Name
			err := n.UnmarshalText([]byte(s))
			err2 := json.Unmarshal([]byte("\""+s+"\""), &m)
			t, _ := chain.Name(v).MarshalText()
			return []any{uint64(chain.N(s)), uint64(chain.NewName(s)), uint64(n), errText(err), uint64(m), errText(err2), chain.Name(v).String(), string(t)},
				[]any{v, v, v, "", v, "", refNameText(v), refNameText(v)}
		}},
		{"keys under the wrong tag", 2 * 33, func(x int) (any, any) {
			b := append([]byte{2}, make([]byte, 32)...)
			b[x/2] ^= 4
			tag, other := [2]string{"K1", "P1"}[x%2], [2]string{"P1", "K1"}[x%2]
			p, err := chain.NewPublicKeyFromString("PUB_" + tag + "_" + refCheckText(b, tag))
			if err != nil {
				return errText(err), b
			}
			q, err := chain.NewPublicKeyFromString("PUB_" + other + "_" + refCheckText(b, tag))
			var l *chain.PublicKey
			var err2 error
			for _, pre := range []string{"EOS", "FIO"} {
				if l, err2 = chain.NewPublicKeyFromString(pre + refCheckText(b, "")); err2 != nil {
					return errText(err2), b
				}
			}
			bad := append([]byte{}, b...)
			bad[0] ^= 1
			w, err3 := chain.NewPublicKeyFromString("EOS" + ref.Base58(append(bad, refLegacySum(b)...)))
			return []any{p.Type.String(), p.Data, q == nil && err != nil, l.Type.String(), l.Data, w == nil && err3 != nil}, []any{tag, b, true, "K1", b, true}
		}},
		{"signatures under the wrong tag", 2 * 65, func(x int) (any, any) {
			b := make([]byte, 65)
			b[x/2] ^= 4
			tag, other := [2]string{"K1", "P1"}[x%2], [2]string{"P1", "K1"}[x%2]
			p, err := chain.NewSignatureString("SIG_" + tag + "_" + refCheckText(b, tag))
			if err != nil {
				return errText(err), b
			}
			q, err := chain.NewSignatureString("SIG_" + other + "_" + refCheckText(b, tag))
			return []any{p.Type.String(), p.Data, q == nil && err != nil}, []any{tag, b, true}
		}},
		{"symbols and codes of near texts", 7 * 26 * 19, func(x int) (any, any) {
			b := []byte("ABCDEFG"[:1+x%7])
			b[x%7] = 'A' + byte(x/7%26)
			prec := x / 182
			c := string(b)
			y, err := chain.NewSymbol(uint8(prec), c)
			var z chain.Symbol
			err2 := z.UnmarshalText([]byte(fmt.Sprintf("%d,%s", prec, c)))
			var k chain.SymbolCode
			err3 := k.UnmarshalText([]byte(c))
			t, err4 := k.MarshalText()
			_, err5 := chain.NewSymbol(uint8(prec), strings.ToLower(c))
			err6 := new(chain.SymbolCode).UnmarshalText([]byte(strings.ToLower(c)))
			return []any{y.String(), errText(err), z == y, errText(err2), y.Code() == k, errText(err3), string(t), errText(err4), err5 != nil, err6 != nil},
				[]any{fmt.Sprintf("%d,%s", prec, c), "", true, "", true, "", c, "", true, true}
		}},
		{"asset texts that differ in one digit", 10 * 9 * 2, func(x int) (any, any) {
			b := []byte("123456789")
			b[x/10%9] = '0' + byte(x%10)
			v, _ := strconv.ParseInt(string(b), 10, 64)
			sign := []string{"", "-"}[x/90]
			if x >= 90 {
				v = -v
			}
			t := sign + string(b[:5]) + "." + string(b[5:]) + " EOS"
			var a chain.Asset
			err := a.UnmarshalText([]byte(t))
			c := chain.A(t)
			_, err2 := chain.NewAssetFromString(sign + string(b[:5]) + "." + string(b[5:]) + " EOs")
			_, err3 := chain.NewAssetFromString(sign + string(b[:5]) + ".x" + string(b[6:]) + " EOS")
			return []any{a.Value, a.Symbol.String(), errText(err), c.Value, c.Symbol.String(), err2 != nil, err3 != nil}, []any{v, "4,EOS", "", v, "4,EOS", true, true}
		}},
		{"hexadecimal and base64 texts that differ in one place", 64 * 65, func(x int) (any, any) {
			m := nearBytes(x, 64)
			h := hex.EncodeToString(m)
			b64 := base64.StdEncoding.EncodeToString(m)
			var b chain.Bytes
			var l chain.Blob
			err := b.UnmarshalText([]byte(h))
			err2 := l.UnmarshalText([]byte(b64))
			var c chain.Checksum512
			f := make([]byte, 64)
			copy(f, m)
			err3 := c.UnmarshalText([]byte(hex.EncodeToString(f)))
			bad := new(chain.Bytes).UnmarshalText([]byte(h+"0")) != nil && new(chain.Bytes).UnmarshalText([]byte(h+"0g")) != nil && new(chain.Checksum512).UnmarshalText([]byte(h)) != nil
			return []any{[]byte(b), errText(err), []byte(l), errText(err2), c[:], errText(err3), bad, chain.Bytes(m).Hex(), chain.Blob(m).Base64()}, []any{m, "", m, "", f, "", true, h, b64}
		}},
		{"one ABI, changed in place", 4000, func(x int) (any, any) {
			d := sharedAbi
			k := x / 4 % 4
			switch x % 4 {
			case 0:
				d.Structs[0].Fields[0].Type = []string{"uint8", "int8", "uint8[]", "uint8?"}[k]
			case 1:
				d.Structs[0].Fields[0].Name = []string{"f", "g", "hh", "f1"}[k]
			case 2:
				d.Types[0].Type = []string{"t", "t[]", "t?", "t"}[k]
			case 3:
				d.Actions[0].Name, d.Actions[1].Name = d.Actions[1].Name, d.Actions[0].Name
			}
			var fv any
			f := d.Structs[0].Fields[0]
			switch f.Type {
			case "uint8":
				fv = uint8(1)
			case "int8":
				fv = int8(1)
			case "uint8[]":
				fv = []any{uint8(1)}
			case "uint8?":
				fv = uint8(1)
			}
			data, tv := []byte{1}, any(map[string]any{f.Name: fv})
			if len(f.Type) == 6 || f.Type == "uint8[]" {
				data = []byte{1, 1}
			}
			ad, av := data, tv
			switch d.Types[0].Type {
			case "t[]":
				ad, av = append([]byte{1}, data...), []any{tv}
			case "t?":
				ad = append([]byte{1}, data...)
			}
			v, err := d.Decode(bytes.NewReader(data), "t")
			u, err2 := d.Decode(bytes.NewReader(ad), "al")
			var eb bytes.Buffer
			err3 := d.Encode(&eb, "al", av)
			// action 0 is of type t, action 1 of type al
			a0, err4 := d.DecodeAction(bytes.NewReader(data), d.Actions[0].Name)
			a1, err5 := d.DecodeAction(bytes.NewReader(ad), d.Actions[1].Name)
			return []any{v, errText(err), u, errText(err2), eb.Bytes(), errText(err3), a0, errText(err4), a1, errText(err5)}, []any{tv, "", av, "", ad, "", tv, "", av, ""}
		}},
		{"keys that differ in one byte", 2 * 33 * 3, func(x int) (any, any) {
			b := append([]byte{2}, make([]byte, 32)...)
			b[x/2%33] ^= byte(x/66) + 4
			k := *chain.NewPublicKey(chain.KeyType(x%2), b)
			t := k.String()
			p, err := chain.NewPublicKeyFromString(t)
			if err != nil {
				return errText(err), b
			}
			return []any{t, int(p.Type), p.Data, p.String()}, []any{"PUB_" + k.Type.String() + "_" + refCheckText(b, k.Type.String()), x % 2, b, t}
		}},
		{"signatures that differ in one byte", 2 * 65 * 3, func(x int) (any, any) {
			b := make([]byte, 65)
			b[x/2%65] = byte(x/130) + 1
			k := *chain.NewSignature(chain.KeyType(x%2), b)
			t := k.String()
			p, err := chain.NewSignatureString(t)
			if err != nil {
				return errText(err), b
			}
			return []any{t, int(p.Type), p.Data, p.String()}, []any{"SIG_" + k.Type.String() + "_" + refCheckText(b, k.Type.String()), x % 2, b, t}
		}},
		{"one key, changed in place", 33 * 255, func(x int) (any, any) {
			sharedKey.Data[x%33] = byte(x / 33)
			return sharedKey.String(), "PUB_P1_" + refCheckText(sharedKey.Data, "P1")
		}},
		{"one signature, changed in place", 65 * 60, func(x int) (any, any) {
			sharedSig.Data[x%65] = byte(x / 65)
			return sharedSig.String(), "SIG_K1_" + refCheckText(sharedSig.Data, "K1")
		}},
		{"one message, changed in place", 100 * 60, func(x int) (any, any) {
			m := sharedMsg
			m[x%100] = byte(x / 100)
			r := ref.RIPEMD160(m)
			t := base58.Encode(m)
			return []any{chain.Checksum160Digest(m), chain.Checksum256Digest(m), chain.Checksum512Digest(m), t, base58.Decode(t), enc(m), enc(chain.Bytes(m))},
				[]any{chain.Checksum160(r), chain.Checksum256(sha256.Sum256(m)), chain.Checksum512(sha512.Sum512(m)), ref.Base58(m), m, res2{ref.MustEnc(m), ""}, res2{ref.MustEnc(m), ""}}
		}},
		{"one action, changed in place", 4000, func(x int) (any, any) {
			a := sharedAct
			switch x % 5 {
			case 0:
				a.Data[x/5%len(a.Data)]++
			case 1:
				a.Name++
			case 2:
				a.Account += 3
			case 3:
				a.Authorization[x/5%2].Actor++
			case 4:
				a.Authorization[x/5%2].Permission++
			}
			w := ref.MustEnc(*a)
			return []any{a.Digest(), enc(*a), enc(a)}, []any{chain.Checksum256(sha256.Sum256(w)), res2{w, ""}, res2{w, ""}}
		}},
		{"one transaction, changed in place", 4000, func(x int) (any, any) {
			t := sharedTx
			switch x % 7 {
			case 0:
				t.Expiration++
			case 1:
				t.RefBlockNum++
			case 2:
				t.RefBlockPrefix++
			case 3:
				t.Actions[x/7%2].Data[x/14%3]++
			case 4:
				t.Actions[x/7%2].Name++
			case 5:
				t.DelaySec++
			case 6:
				t.Actions[0], t.Actions[1] = t.Actions[1], t.Actions[0]
			}
			w := ref.MustEnc(*t)
			return []any{enc(*t), enc(t)}, []any{res2{w, ""}, res2{w, ""}}
		}},
		{"times that differ in one field", 6 * 60, func(x int) (any, any) {
			f := []int{2000, 1, 1, 0, 0, 0}
			f[x%6] += x / 6 % []int{60, 12, 28, 24, 60, 60}[x%6]
			t := fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02d", f[0], f[1], f[2], f[3], f[4], f[5])
			u := time.Date(f[0], time.Month(f[1]), f[2], f[3], f[4], f[5], 0, time.UTC).Unix()
			a, err := chain.NewTimePointSecFromString(t)
			b, err2 := chain.NewTimePointFromString(t + ".500")
			c, err3 := chain.NewBlockTimestampFromString(t + ".500")
			return []any{int64(a), errText(err), int64(b), errText(err2), int64(c), errText(err3), a.String(), b.String(), c.String()},
				[]any{u, "", u*1000000 + 500000, "", (u-946684800)*2 + 1, "", t, t + ".500", t + ".500"}
		}},
		{"128-bit integers that differ in one bit", 128 * 3, func(x int) (any, any) {
			v := chain.Uint128{Lo: []uint64{0, math.MaxUint64, 0x0123456789abcdef}[x/128], Hi: []uint64{0, math.MaxUint64, 0x0123456789abcdef}[x/128]}
			if x%128 < 64 {
				v.Lo ^= 1 << (x % 64)
			} else {
				v.Hi ^= 1 << (x % 64)
			}
			bi := new(big.Int).Add(new(big.Int).Lsh(new(big.Int).SetUint64(v.Hi), 64), new(big.Int).SetUint64(v.Lo))
			u, err := chain.NewUint128FromString(bi.String())
			return []any{u, errText(err), v.String(), v.BigInt().String()}, []any{v, "", bi.String(), bi.String()}
		}},
		{"JSON numbers", 20000, func(x int) (any, any) {
			v := chain.Uint64(uint64(x) * 0x9e3779b97f4a)
			var u chain.Uint64
			b, err := v.MarshalJSON()
			if err == nil {
				err = u.UnmarshalJSON(b)
			}
			return res2{u, errText(err)}, res2{v, ""}
		}},
	}
}

// Hist runs the histories of one shard in this process, one after the other, with nothing in between.
func Hist(shard, shards int, thorough bool) {
	ops := histOps()
	base := make([]any, len(ops))
	for i := range ops {
		base[i] = ops[i].run(&arena{})
	}
	states, steps := 0, 0
	run := func(what string, ids ...int) {
		for _, id := range ids[:len(ids)-1] {
			ops[id].run(&arena{})
		}
		l := ids[len(ids)-1]
		steps += len(ids)
		states++
		if got := ops[l].run(&arena{}); !sameRes(got, base[l]) {
			var h []string
			for _, id := range ids[:len(ids)-1] {
				h = append(h, ops[id].name)
			}
			fmt.Printf("MISMATCH after [%s%s] %s gives %s, alone %s\n", what, strings.Join(h, "; "), ops[l].name, showAny(got), showAny(base[l]))
			os.Exit(0)
		}
	}
	k := len(ops)
	for i := shard; i < k*k; i += shards {
		run("", i%k, i/k)
	}
	// one operation very often, then others
	for i := shard; i < k; i += shards {
		n := 0
		for start := time.Now(); n < 12000 && (n%64 != 0 || time.Since(start) < 60*time.Millisecond); n++ {
			run(fmt.Sprintf("%d times ", n), i)
		}
		for j := i % 5; j < k; j += 5 {
			run(fmt.Sprintf("%d times %s, then others", n, ops[i].name), j)
		}
	}
	// many different arguments
	fams := families()
	rounds := 3 // the last one backwards
	for i := shard; i < len(fams); i += shards {
		f := fams[i]
		for r := 0; r < rounds; r++ {
			for k := 0; k < f.n; k++ {
				x := k
				if r == 2 {
					x = f.n - 1 - k
				}
				got, want := f.f(x)
				steps++
				if !sameRes(got, want) {
					fmt.Printf("MISMATCH %s: argument %d of a series (round %d) gives %s, want %s\n", f.name, x, r+1, showAny(got), showAny(want))
					os.Exit(0)
				}
			}
		}
	}
	if thorough {
		sub := tripleOps(ops, false)
		q := len(sub)
		for i := shard; i < q*q*q; i += shards {
			run("", sub[i%q], sub[i/q%q], sub[i/q/q])
		}
	}
	fmt.Printf("DONE %d %d\n", states, steps)
}

// Solo runs one operation in a fresh process.
func Solo(i int) string { return fmt.Sprintf("%x", resHash(histOps()[i].run(&arena{}))) }

func others(ios []ioOp, ids []int, k int) string {
	var s []string
	for j, id := range ids {
		if j != k {
			s = append(s, ios[id].name)
		}
	}
	return strings.Join(s, " and ")
}

func showAny(v any) string {
	if v == nil {
		return "nil"
	}
	return show(reflect.ValueOf(v))
}

// buildRace builds this driver with the race detector.
func buildRace(r *mcx.Run) (bin string) {
	root := os.Getenv("VERIF_ROOT")
	tmp := os.Getenv("MC_TMP")
	if root == "" || tmp == "" {
		return ""
	}
	bin = filepath.Join(tmp, "mc-race")
	build := exec.Command("go", "build", "-race", "-o", bin, "./cmd/mc")
	build.Dir = root
	if out, err := build.CombinedOutput(); err != nil {
		r.Note("race_pass", "not available: "+clip(string(out)))
		return ""
	}
	return bin
}

// raceShared runs every operation in two goroutines that share its arguments, under the race detector.
func raceShared(r *mcx.Run) {
	bin := buildRace(r)
	if bin == "" {
		return
	}
	n := uint64(16)
	r.Sweep("race detector: shared arguments", n, func(w *mcx.W, i uint64) {
		cmd := exec.Command(bin, "raceshared", fmt.Sprint(i), fmt.Sprint(n))
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 history_size=3")
		var eb bytes.Buffer
		cmd.Stderr = &eb
		out, err := cmd.Output()
		if k := strings.Index(eb.String(), "WARNING: DATA RACE"); k >= 0 {
			t := eb.String()[k:]
			if len(t) > 1500 {
				t = t[:1500]
			}
			lines := strings.Split(strings.TrimSpace(string(out)), "\n")
			w.Fail("%s writes to its arguments (or to other shared memory) while another goroutine reads them: %s", lines[len(lines)-1], t)
		}
		if err != nil {
			r.Note("race_pass", "ended early: "+err.Error()+" "+clip(eb.String()))
			return
		}
		k := strings.Count(string(out), "\n")
		w.Step(2 * k)
		w.Eval(2 * k)
		w.NonTrivial()
	})
}

// RaceShared is the body of the process of raceShared.
func RaceShared(shard, n int) {
	ops := opUniverse()
	for _, b := range edgeBigs() {
		ops = append(ops, bigOps(b)...)
	}
	for _, k := range []int{0, 3, 20, 64, 65, 200} {
		ops = append(ops, byteOps(pat(k, byte(k)))...)
	}
	for i := shard; i < len(ops); i += n {
		fmt.Println(ops[i].name)
		rec := &arena{record: true}
		ops[i].run(rec)
		var wg sync.WaitGroup
		for g := 0; g < 2; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				ops[i].run(&arena{replay: rec})
			}()
		}
		wg.Wait()
	}
}

// racePass runs all pairs of operations concurrently in a driver built with the race detector.
func racePass(r *mcx.Run) {
	bin := buildRace(r)
	if bin == "" {
		return
	}
	r.Sweep("race detector: all pairs of operations", 1, func(w *mcx.W, _ uint64) {
		cmd := exec.Command(bin, "racepass", r.Tier)
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 history_size=3")
		var eb bytes.Buffer
		cmd.Stderr = &eb
		out, err := cmd.Output()
		if i := strings.Index(eb.String(), "WARNING: DATA RACE"); i >= 0 {
			t := eb.String()[i:]
			if len(t) > 1500 {
				t = t[:1500]
			}
			w.Fail("data race between calls on separate objects: %s", t)
		}
		if strings.Contains(string(out), "MISMATCH") {
			w.Fail("concurrent calls disagree with the same calls alone: %s", clip(string(out)))
		}
		if err != nil {
			r.Note("race_pass", "ended early: "+err.Error()+" "+clip(eb.String()))
			return
		}
		r.Note("race_pass", strings.TrimSpace(string(out)))
		w.NonTrivial()
	})
	ops, fams := histOps(), families()
	name := func(i uint64) string {
		if i < uint64(len(ops)) {
			return ops[i].name + " (or one of the following 11 operations)"
		}
		return fams[i-uint64(len(ops))].name + " (a series of arguments)"
	}
	r.Sweep("race detector: first use in a process by two goroutines", uint64(len(ops)+len(fams)), func(w *mcx.W, i uint64) {
		cmd := exec.Command(bin, "racecold", fmt.Sprint(i))
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 history_size=3")
		var eb bytes.Buffer
		cmd.Stderr = &eb
		err := cmd.Run()
		if k := strings.Index(eb.String(), "WARNING: DATA RACE"); k >= 0 {
			t := eb.String()[k:]
			if len(t) > 1500 {
				t = t[:1500]
			}
			w.Fail("data race when %s is first used by two goroutines: %s", name(i), t)
		}
		if k := strings.Index(eb.String(), "fatal error: concurrent map"); k >= 0 {
			w.Fail("two goroutines crash when they first use %s: %s", name(i), clip(eb.String()[k:]))
		}
		if err != nil {
			return // no new process could be started
		}
		w.Step(24)
		w.Eval(24)
		w.NonTrivial()
	})
}

// RaceCold runs operation i and the ones after it for the first time in the process, in two goroutines
// at once and without any ordering between them.
func RaceCold(i int) {
	ops := histOps()
	var ready atomic.Int32
	var wg sync.WaitGroup
	for g := 0; g < 2; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			fams := families() // with arguments of its own
			ready.Add(1)
			for ready.Load() < 2 {
				runtime.Gosched()
			}
			if i >= len(ops) {
				for x := 0; x < 300; x++ {
					fams[i-len(ops)].f(x * fams[i-len(ops)].n / 300)
				}
				return
			}
			for j := 0; j < 12 && j < len(ops); j++ {
				ops[(i+j)%len(ops)].run(&arena{})
			}
		}()
	}
	wg.Wait()
}

// RacePass is the body of the race-detector process.
func RacePass(thorough bool) {
	ops := histOps()
	base := make([]any, len(ops))
	for i := range ops {
		base[i] = ops[i].run(&arena{})
	}
	k := len(ops)
	var next atomic.Int64
	var bad atomic.Bool
	var msg sync.Map
	var wg sync.WaitGroup
	run := func(i int) {
		if got := ops[i].run(&arena{}); !sameRes(got, base[i]) {
			bad.Store(true)
			msg.Store(ops[i].name, fmt.Sprintf("%s, alone %s", showAny(got), showAny(base[i])))
		}
	}
	deadline := time.Now().Add(150 * time.Second)
	if thorough {
		deadline = time.Now().Add(10 * time.Minute)
	}
	pairs := atomic.Int64{}
	for g := 0; g < runtime.GOMAXPROCS(0); g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for !bad.Load() && time.Now().Before(deadline) {
				i := int(next.Add(1)) - 1
				if i >= k*k {
					return
				}
				a, b := i%k, i/k
				if a > b {
					continue
				}
				// two goroutines with no ordering between them
				var in sync.WaitGroup
				in.Add(2)
				go func() { defer in.Done(); run(a) }()
				go func() { defer in.Done(); run(b) }()
				in.Wait()
				pairs.Add(1)
			}
		}()
	}
	wg.Wait()
	if bad.Load() {
		msg.Range(func(k, v any) bool { fmt.Printf("MISMATCH %v: %v\n", k, v); return false })
		return
	}
	fmt.Printf("%d concurrent pairs of %d operations, no data race\n", pairs.Load(), k)
}
