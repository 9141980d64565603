package checks

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/mcx"
	"verif/ref"

	"github.com/greymass/go-eosio/pkg/abi"
)

func init() {
	register(&Check{
		ID: "C22", Level: "exploration",
		Rule:        "the struct grammar is enumerated as Go source; the generator of the working tree is run on every struct, its output is compiled, and the compiled program runs every value of every struct through the generated methods and through the reflection codec on a twin type without methods: bytes, decoded values, bytes consumed, decoding into destinations holding every other value, all truncations, single-byte changes, failing writers and nil pointers must agree, and lengths that the input merely claims must not be allocated. A case is one struct; it is non-trivial if it has a field.",
		Bounds:      "one field: 52 field types x 8 shapes (plain, slice, arrays of 0, 1, 2 and 10, optional and plain pointer); two fields: all pairs of 19 (quick) / 44 (thorough) representative fields; three fields: all triples of 8 / 12; a struct with every representative field, the empty struct, nested generated structs; 21 array lengths to 4096; fields with other tags; embedded fields; up to 256 fields; claimed lengths of 2^26 and 2^31 at each of the first 40 bytes. All truncations and, at each byte, 4 replacement values of encodings up to 64 (quick) / 400 bytes.",
		Assumptions: []string{"byte slices only as a plain field; pointers to slices or arrays and maps are not in the supported grammar"},
		NoLimit:     true,
		Hang:        5 * time.Minute, // a case compiles and runs hundreds of structs
		Run:         runC22,
	})
}

// types with methods for the generated structs to hold
type (
	OwnVal ownStructBase
	OwnPtr ownStructBase
	OwnNum uint32

	ownStructBase struct {
		A uint8
		B string
	}
)

func (v OwnVal) MarshalABI(e *abi.Encoder) error {
	if err := e.WriteString(v.B); err != nil {
		return err
	}
	return e.WriteUint8(^v.A)
}

func (v *OwnVal) UnmarshalABI(d *abi.Decoder) (err error) {
	if v.B, err = d.ReadString(); err != nil {
		return err
	}
	v.A, err = d.ReadUint8()
	v.A = ^v.A
	return err
}

func (v *OwnPtr) MarshalABI(e *abi.Encoder) error {
	if err := e.WriteUint8(v.A + 1); err != nil {
		return err
	}
	return e.WriteString(v.B)
}

func (v *OwnPtr) UnmarshalABI(d *abi.Decoder) (err error) {
	if v.A, err = d.ReadUint8(); err != nil {
		return err
	}
	v.A--
	v.B, err = d.ReadString()
	return err
}

func (v OwnNum) MarshalABI(e *abi.Encoder) error { return e.WriteVaruint(uint(v)) }
func (v *OwnNum) UnmarshalABI(d *abi.Decoder) error {
	x, err := d.ReadVaruint()
	if err == nil {
		*v = OwnNum(x)
	}
	return err
}

// ---- the grammar

var genBases = []string{
	"bool", "string", "uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64", "int", "uint", "float32", "float64", "byte",
	"chain.Name", "chain.Symbol", "chain.SymbolCode", "chain.Asset", "chain.ExtendedAsset", "chain.Checksum160", "chain.Checksum256", "chain.Checksum512",
	"chain.Uint64", "chain.BlockNum", "chain.Uint128", "chain.Int128", "chain.Float128", "chain.TimePoint", "chain.TimePointSec", "chain.BlockTimestamp",
	"chain.Bytes", "chain.Blob", "chain.PublicKey", "chain.Signature", "chain.PermissionLevel", "chain.Action",
	"chain.TransactionHeader", "chain.TransactionExtension", "chain.Transaction",
	"checks.OwnVal", "checks.OwnPtr", "checks.OwnNum", "LVal", "LPtr", "LSlice", "LText", "Nest", "Nest2", "Chained", "NameX", "Stringer",
}

const genLocals = `
type LVal uint32

func (v LVal) MarshalABI(e *abi.Encoder) error { return e.WriteUint32(^uint32(v)) }
func (v *LVal) UnmarshalABI(d *abi.Decoder) error {
	x, err := d.ReadUint32()
	if err == nil {
		*v = LVal(^x)
	}
	return err
}

type LPtr struct {
	A uint8
	S string
}

func (v *LPtr) MarshalABI(e *abi.Encoder) error {
	if err := e.WriteString(v.S); err != nil {
		return err
	}
	return e.WriteUint8(v.A)
}
func (v *LPtr) UnmarshalABI(d *abi.Decoder) (err error) {
	if v.S, err = d.ReadString(); err != nil {
		return err
	}
	v.A, err = d.ReadUint8()
	return err
}

type LSlice []uint16

func (v LSlice) MarshalABI(e *abi.Encoder) error {
	if err := e.WriteUint8(uint8(len(v))); err != nil {
		return err
	}
	for _, x := range v {
		if err := e.WriteUint16(^x); err != nil {
			return err
		}
	}
	return nil
}
func (v *LSlice) UnmarshalABI(d *abi.Decoder) error {
	n, err := d.ReadUint8()
	if err != nil {
		return err
	}
	*v = LSlice{}
	for i := 0; i < int(n); i++ {
		x, err := d.ReadUint16()
		if err != nil {
			return err
		}
		*v = append(*v, ^x)
	}
	return nil
}

type LText string

func (v LText) MarshalABI(e *abi.Encoder) error { return e.WriteString("<" + string(v)) }
func (v *LText) UnmarshalABI(d *abi.Decoder) error {
	s, err := d.ReadString()
	if err != nil {
		return err
	}
	if s == "" {
		return io.ErrUnexpectedEOF
	}
	*v = LText(s[1:])
	return nil
}

// names that begin like builtin types or packages
type NameX uint64

func (v NameX) MarshalABI(e *abi.Encoder) error { return e.WriteUint64(uint64(v) + 1) }
func (v *NameX) UnmarshalABI(d *abi.Decoder) error {
	x, err := d.ReadUint64()
	if err == nil {
		*v = NameX(x - 1)
	}
	return err
}

type Stringer string

func (v Stringer) MarshalABI(e *abi.Encoder) error { return e.WriteString(string(v) + "!") }
func (v *Stringer) UnmarshalABI(d *abi.Decoder) error {
	s, err := d.ReadString()
	if err != nil {
		return err
	}
	if s == "" {
		return io.ErrUnexpectedEOF
	}
	*v = Stringer(s[:len(s)-1])
	return nil
}
`

// these get generated methods themselves
const genNested = `
type Nest struct {
	A uint8
	B []string
}
type Nest2 struct {
	N Nest
	O *Nest ` + "`eosio:\"optional\"`" + `
	L []Nest
}
type Chained struct {
	N [2]Nest2
	P *LPtr
	K chain.Name
}
`

var nestedNames = []string{"Nest", "Nest2", "Chained"}

const optTag = " `eosio:\"optional\"`"

func shape(k int, t string) string {
	switch k {
	case 1:
		return "[]" + t
	case 2:
		return "[2]" + t
	case 3:
		return "*" + t + optTag
	case 4:
		return "*" + t
	case 5:
		return "[1]" + t
	case 6:
		return "[0]" + t
	case 7:
		return "[10]" + t
	}
	return t
}

type genStruct struct {
	Name   string
	Fields []string
}

func (g genStruct) src() string {
	s := "type " + g.Name + " struct {\n"
	for i, f := range g.Fields {
		if e, ok := strings.CutPrefix(f, "embed "); ok {
			s += "\t" + e + "\n"
			continue
		}
		s += fmt.Sprintf("\t%s %s\n", fieldName(i), f)
	}
	return s + "}\n"
}

func (g genStruct) text() string { return g.Name + " struct{" + strings.Join(g.Fields, "; ") + "}" }

func fieldName(i int) string {
	return []string{"A", "Err", "V", "Length", "I"}[i%5] + strings.Repeat("x", i/5)
}

func genStructs(thorough bool) (out []genStruct) {
	add := func(fs ...string) {
		out = append(out, genStruct{fmt.Sprintf("T%d", len(out)), fs})
	}
	add()
	for _, b := range genBases {
		for k := 0; k < 8; k++ {
			if b == "byte" && k > 1 { // spelled uint8 by reflection, only the byte slice is new
				continue
			}
			add(shape(k, b))
		}
	}
	reps := []string{
		"bool", "string", "int", "float64", "[]byte", "[]uint16", "[2]int", "*uint64" + optTag, "*string",
		"chain.Asset", "[]chain.PublicKey", "[2]chain.Checksum256", "*chain.Name" + optTag, "*chain.Bytes",
		"LPtr", "[]Nest", "*LVal" + optTag, "[]string", "*checks.OwnPtr",
	}
	tri := []string{"uint8", "[]string", "[2]uint16", "*bool" + optTag, "*int", "chain.Name", "[]chain.Asset", "*LPtr" + optTag}
	if thorough {
		reps = append(reps, "uint", "uint32", "int64", "[]bool", "[]int", "[3]string", "*uint8", "*[]byte"[1:], "*int"+optTag, "*string"+optTag,
			"chain.Action", "[]chain.Name", "[]chain.Transaction", "[1]chain.Signature", "*chain.PublicKey"+optTag, "*chain.Uint128", "[]LPtr", "[2]LVal",
			"Nest2", "*Nest"+optTag, "*Nest", "[]checks.OwnVal", "[3]checks.OwnNum", "LSlice", "[0]string")
		tri = append(tri, "[2]chain.PublicKey", "*chain.Checksum160", "[]byte", "[]Nest")
	}
	for _, a := range reps {
		for _, b := range reps {
			add(a, b)
		}
	}
	for _, a := range tri {
		for _, b := range tri {
			for _, c := range tri {
				add(a, b, c)
			}
		}
	}
	add(reps...)
	var rev []string
	for i := range reps {
		rev = append(rev, reps[len(reps)-1-i])
	}
	add(rev...)
	// array lengths
	for _, b := range []string{"uint8", "string", "chain.Name", "LVal", "chain.PermissionLevel"} {
		for _, n := range []int{3, 9, 11, 12, 19, 20, 32, 33, 64, 99, 100, 101, 123, 128, 200, 255, 256, 999, 1000, 1024, 4096} {
			if n <= 256 || b == "uint8" || b == "LVal" {
				add(fmt.Sprintf("[%d]%s", n, b))
			}
		}
	}
	// other tags beside the one of the codec
	for _, b := range []string{"uint8", "string", "chain.Name", "LPtr", "Nest"} {
		add("*"+b+" `json:\"a,omitempty\" eosio:\"optional\"`", "uint8 `json:\"b\"`", "[]"+b+" `json:\"optional\"`", "*"+b+" `eosio:\"optional\" json:\"-\"`", "*"+b+" `json:\"optional\"`")
	}
	// embedded fields: two at a time where they have methods, so that none are promoted to the twin
	for _, b := range []string{"chain.Asset", "chain.Bytes", "chain.Action", "LVal", "LPtr", "LSlice", "checks.OwnVal", "checks.OwnNum"} {
		add("embed "+b, "embed chain.Name", "uint8")
		add("uint16", "embed chain.Name", "[]string", "embed "+b)
		if b != "chain.Bytes" && b != "LSlice" {
			add("uint16", "embed chain.Name", "embed *"+b, "uint8")
			add("uint16", "embed chain.Name", "embed *"+b+optTag, "uint8")
		}
	}
	add("embed Nest", "uint8")
	add("uint8", "embed *Nest", "[]Nest")
	add("embed *Nest"+optTag, "uint8")
	// many fields
	for _, n := range []int{10, 11, 31, 32, 33, 63, 64, 65, 127, 128, 129, 256} {
		var fs []string
		for i := 0; i < n; i++ {
			fs = append(fs, []string{"uint8", "string", "[]uint16", "*bool" + optTag, "chain.Name", "[2]uint8", "LVal"}[(i+n)%7])
		}
		add(fs...)
	}
	return
}

// ---- generating, compiling and running

func genImports(body string) string {
	s := "\n"
	for _, p := range [][2]string{{"errors.", "errors"}, {"io.", "io"}, {"chain.", "github.com/greymass/go-eosio/pkg/chain"}, {"checks.", "verif/checks"}, {"abi.", "github.com/greymass/go-eosio/pkg/abi"}} {
		if strings.Contains(body, p[0]) {
			s += fmt.Sprintf("import %q\n", p[1])
		}
	}
	return s
}

func runC22(r *mcx.Run) {
	all := genStructs(r.Thorough)
	r.Note("structs", len(all))
	nb := mcx.Pick(r, 8, 32)
	per := (len(all) + nb - 1) / nb
	r.Sweep("generate, compile, compare", uint64(nb), func(w *mcx.W, i uint64) {
		lo := int(i) * per
		hi := lo + per
		if hi > len(all) {
			hi = len(all)
		}
		res := genBatch(w, r, int(i), all[lo:hi])
		for k := 0; k < res.Types; k++ {
			w.NonTrivial()
		}
		w.Eval(res.Evals)
		for _, o := range res.Outcomes {
			w.Outcome(o)
		}
		w.Sample(func() string { return fmt.Sprintf("%s and %d more, %d values", all[lo].text(), hi-lo-1, res.Values) })
	})
}

type genResult struct {
	Types, Values, Evals int
	Outcomes             []uint64
	Failure              string
}

func harnessError(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "mc-harness-error: "+format+"\n", args...)
	os.Exit(2)
}

func genBatch(w *mcx.W, r *mcx.Run, no int, gs []genStruct) (res genResult) {
	root := os.Getenv("VERIF_ROOT")
	if root == "" {
		root = "/verif"
	}
	dir, err := os.MkdirTemp(os.Getenv("MC_TMP"), fmt.Sprintf("gen%d-", no))
	if err != nil {
		harnessError("%v", err)
	}
	defer os.RemoveAll(dir)
	write := func(name, s string) {
		p := filepath.Join(dir, name)
		os.MkdirAll(filepath.Dir(p), 0o755)
		if err := os.WriteFile(p, []byte(s), 0o644); err != nil {
			harnessError("%v", err)
		}
	}
	run := func(name string, args ...string) (string, string, error) {
		c := exec.Command(name, args...)
		c.Dir = dir
		c.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")
		var o, e bytes.Buffer
		c.Stdout, c.Stderr = &o, &e
		err := c.Run()
		return o.String(), e.String(), err
	}
	write("go.mod", fmt.Sprintf("module gen\n\ngo 1.23\n\nrequire github.com/greymass/go-eosio v0.0.0\nrequire verif v0.0.0\n\nreplace github.com/greymass/go-eosio => /repo\nreplace verif => %s\n", root))
	types := genNested
	for _, g := range gs {
		types += g.src()
	}
	write("plain/types.go", "package plain\n"+genImports(types)+types)
	write("plain/locals.go", "package plain\n"+genImports(genLocals)+genLocals)
	var names []string
	names = append(names, nestedNames...)
	for _, g := range gs {
		names = append(names, g.Name)
	}
	s1 := "package main\n\nimport (\n\t\"gen/plain\"\n\t\"verif/checks\"\n)\n\nfunc main() {\n\tchecks.GenEmit([]interface{}{\n"
	for _, n := range names {
		s1 += "\t\tplain." + n + "{},\n"
	}
	write("emit/main.go", s1+"\t})\n}\n")
	if _, e, err := run("go", "build", "-o", "emit.bin", "./emit"); err != nil {
		harnessError("cannot build the generator driver: %v\n%s", err, e)
	}
	out, e, err := run("./emit.bin")
	if err != nil {
		w.Fail("the generator ends with %v: %s", err, clip(e))
	}
	var code []string
	if err := json.Unmarshal([]byte(out), &code); err != nil {
		harnessError("output of the generator driver: %v %s", err, clip(out))
	}
	body := ""
	for i, c := range code {
		if strings.HasPrefix(c, "PANIC: ") {
			w.Fail("the generator panics on %s: %s", names[i], c)
		}
		body += fmt.Sprintf("\n// for %s\n%s", names[i], c)
	}
	write("gencode/types.go", "package gencode\n"+genImports(types)+types)
	write("gencode/locals.go", "package gencode\n"+genImports(genLocals)+genLocals)
	write("gencode/methods.go", "package gencode\n"+genImports(body)+body)
	s2 := "package main\n\nimport (\n\t\"gen/gencode\"\n\t\"gen/plain\"\n\t\"verif/checks\"\n)\n\nfunc main() {\n\tchecks.GenDriver([][2]interface{}{\n"
	for _, n := range names {
		s2 += fmt.Sprintf("\t\t{gencode.%s{}, plain.%s{}},\n", n, n)
	}
	write("drive/main.go", s2+"\t})\n}\n")
	if _, e, err := run("go", "build", "-gcflags=gen/...=-e", "-o", "drive.bin", "./drive"); err != nil {
		w.Fail("the generated code does not compile: %s", explain(e, body, names, gs))
	}
	tier := "quick"
	if r.Thorough {
		tier = "thorough"
	}
	out, e, err = run("./drive.bin", tier)
	if err != nil {
		w.Fail("the generated codec ends the process: %v %s", err, clip(e))
	}
	if err := json.Unmarshal([]byte(out), &res); err != nil {
		harnessError("output of the driver: %v %s", err, clip(out))
	}
	if res.Failure != "" {
		w.Fail("%s", res.Failure)
	}
	return
}

// explain finds the struct a compiler message is about.
func explain(msg, body string, names []string, gs []genStruct) string {
	for _, l := range strings.Split(msg, "\n") {
		var line int
		if i := strings.Index(l, "methods.go:"); i >= 0 {
			fmt.Sscanf(l[i+len("methods.go:"):], "%d", &line)
			off := strings.Count("package gencode\n"+genImports(body), "\n")
			ls := strings.Split(body, "\n")
			for k := line - off - 1; k >= 0 && k < len(ls); k-- {
				if n, ok := strings.CutPrefix(ls[k], "// for "); ok {
					for _, g := range gs {
						if g.Name == n {
							return g.text() + ": " + l
						}
					}
					return n + ": " + l
				}
			}
		}
	}
	return clip(msg)
}

// GenDriver runs in the compiled program: every pair is a struct with generated methods and its twin without.
func GenDriver(pairs [][2]interface{}) {
	thorough := len(os.Args) > 1 && os.Args[1] == "thorough"
	var res genResult
	var mu sync.Mutex
	var next atomic.Int64
	var wg sync.WaitGroup
	outs := map[uint64]bool{}
	for k := 0; k < (runtime.GOMAXPROCS(0)+3)/4; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= len(pairs) {
					return
				}
				g := &genCase{t: reflect.TypeOf(pairs[i][0]), p: reflect.TypeOf(pairs[i][1]), max: 64, outs: map[uint64]bool{}}
				if thorough {
					g.max = 400
				}
				msg := g.run()
				mu.Lock()
				res.Types++
				res.Values += g.values
				res.Evals += g.evals
				for h := range g.outs {
					outs[h] = true
				}
				if msg != "" && res.Failure == "" {
					res.Failure = msg
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	// lengths that the input merely claims, measured alone
	for i := range pairs {
		if res.Failure != "" {
			break
		}
		g := &genCase{t: reflect.TypeOf(pairs[i][0]), p: reflect.TypeOf(pairs[i][1])}
		res.Failure = g.claims()
		res.Evals += g.evals
	}
	for h := range outs {
		if len(res.Outcomes) < 2000 {
			res.Outcomes = append(res.Outcomes, h)
		}
	}
	json.NewEncoder(os.Stdout).Encode(res)
}

type genCase struct {
	t, p          reflect.Type
	values, evals int
	max           int
	outs          map[uint64]bool
}

type genFail string

func (g *genCase) fail(format string, args ...any) {
	fs := ""
	for i := 0; i < g.t.NumField() && i < 6; i++ {
		fs += " " + g.t.Field(i).Type.String()
		if g.t.Field(i).Tag != "" {
			fs += "(" + g.t.Field(i).Tag.Get("eosio") + ")"
		}
	}
	panic(genFail(fmt.Sprintf("struct {%s}: ", strings.TrimSpace(fs)) + fmt.Sprintf(format, args...)))
}

func (g *genCase) run() (msg string) {
	defer func() {
		if e := recover(); e != nil {
			if f, ok := e.(genFail); ok {
				msg = string(f)
				return
			}
			msg = fmt.Sprintf("struct %s: panic: %v\n%s", g.t, e, clip(string(debug.Stack())))
		}
	}()
	if !g.t.Implements(marshalerT) || !reflect.PointerTo(g.t).Implements(unmarshalerT) {
		g.fail("the generated code does not make it a Marshaler and an Unmarshaler")
	}
	gv, pv := vals(g.t), vals(g.p)
	if len(gv) != len(pv) {
		panic("twins differ")
	}
	c := codecs[0]
	var encs [][]byte
	for i := range gv {
		g.values++
		want, err := c.encode(pv[i].Interface())
		if err != nil {
			g.fail("the reflection codec cannot encode %s: %v", show(pv[i]), err)
		}
		for _, in := range []reflect.Value{gv[i], ptrTo(gv[i])} {
			b, err := c.encode(in.Interface())
			g.evals++
			if err != nil || !bytes.Equal(b, want) {
				g.fail("generated code encodes %s as %s, %v; the reflection codec as %s", show(gv[i]), hexs(b), err, hexs(want))
			}
		}
		g.outs[mcx.Hash(want)] = true
		encs = append(encs, want)
		g.writers(gv[i], want)
		// fresh and used destinations
		for j := -1; j < len(gv); j++ {
			d := reflect.New(g.t)
			if j >= 0 {
				d.Elem().Set(ref.Clone(gv[j]))
			}
			n, err := c.decode(withTail(want), d.Interface())
			g.evals++
			if err != nil || n != len(want) || !ref.Eq(d.Elem(), gv[i]) {
				prior := "a fresh destination"
				if j >= 0 {
					prior = "a destination holding " + show(gv[j])
				}
				g.fail("generated code decodes %s (%s) into %s as %s, %v, %d bytes", hexs(want), show(gv[i]), prior, show(d.Elem()), err, n)
			}
		}
	}
	for i, b := range encs {
		lim := len(b)
		if lim > g.max {
			lim = g.max
		}
		for k := 0; k < lim; k++ {
			g.same(b[:k], fmt.Sprintf("the first %d bytes of %s", k, show(gv[i])))
			g.same(b[:len(b)-1-k], fmt.Sprintf("all but the last %d bytes of %s", k+1, show(gv[i])))
		}
		for k := 0; k < lim; k++ {
			for _, x := range []byte{0, 1, 0x80, 0xff} {
				if b[k] == x {
					continue
				}
				m := append([]byte{}, b...)
				m[k] = x
				g.same(m, fmt.Sprintf("%s with byte %d set to %#x", show(gv[i]), k, x))
			}
		}
	}
	// nil in a pointer that is not optional
	for f := 0; f < g.t.NumField(); f++ {
		if g.t.Field(f).Type.Kind() == reflect.Ptr && g.t.Field(f).Tag.Get("eosio") == "" && len(gv) > 0 {
			v := ref.Clone(gv[len(gv)-1])
			v.Field(f).Set(reflect.Zero(g.t.Field(f).Type))
			if b, err := c.encode(v.Interface()); err == nil {
				g.fail("nil in field %d is encoded as %s without an error", f, hexs(b))
			}
		}
	}
	return ""
}

// claims decodes encodings in which a byte is replaced by a large length, and measures what is allocated.
func (g *genCase) claims() (msg string) {
	defer func() {
		if e := recover(); e != nil {
			msg = fmt.Sprint(e)
		}
	}()
	gv := vals(g.t)
	if len(gv) == 0 {
		return
	}
	b, err := codecs[0].encode(gv[len(gv)-1].Interface())
	if err != nil {
		return
	}
	base := uint64(g.t.Size())
	for k := 0; k < len(b) && k < 40; k++ {
		for _, n := range [][]byte{{0xff, 0xff, 0xff, 0x01}, {0xff, 0xff, 0xff, 0x07}, {0x80, 0x80, 0x80, 0x20}, {0xff, 0xff, 0xff, 0xff, 0x07}} {
			in := append(append([]byte{}, b[:k]...), n...)
			d := reflect.New(g.t)
			var m0, m1 runtime.MemStats
			runtime.ReadMemStats(&m0)
			func() {
				defer func() {
					if e := recover(); e != nil {
						g.fail("decoding %s panics: %v", hexs(in), e)
					}
				}()
				codecs[0].decode(in, d.Interface())
			}()
			runtime.ReadMemStats(&m1)
			g.evals++
			if used := m1.TotalAlloc - m0.TotalAlloc; used > 2<<20+base*64 {
				g.fail("generated code allocates %d bytes to decode the %d bytes %s", used, len(in), hexs(in))
			}
		}
	}
	return
}

var errGenWrite = errors.New("write fails")

type failWriter struct {
	room int
	b    []byte
}

func (f *failWriter) Write(p []byte) (int, error) {
	if len(p) > f.room {
		f.b = append(f.b, p[:f.room]...)
		n := f.room
		f.room = 0
		return n, errGenWrite
	}
	f.room -= len(p)
	f.b = append(f.b, p...)
	return len(p), nil
}

func (g *genCase) writers(v reflect.Value, want []byte) {
	for k := 0; k < len(want) && k < g.max; k++ {
		f := &failWriter{room: k}
		err := codecs[0].enc(f).Encode(v.Interface())
		g.evals++
		if !errors.Is(err, errGenWrite) {
			g.fail("writing %s fails after %d bytes, reported %v", show(v), k, err)
		}
		if !bytes.HasPrefix(want, f.b) {
			g.fail("writing %s fails after %d bytes, but %s was written", show(v), k, hexs(f.b))
		}
	}
}

// same decodes b with the generated code and with the reflection codec.
func (g *genCase) same(b []byte, what string) {
	c := codecs[0]
	gd, pd := reflect.New(g.t), reflect.New(g.p)
	gn, gerr := c.decode(b, gd.Interface())
	pn, perr := c.decode(b, pd.Interface())
	g.evals += 2
	if (gerr == nil) != (perr == nil) {
		g.fail("%s: generated code gives error %v, the reflection codec %v", what, gerr, perr)
	}
	if gerr != nil {
		return
	}
	if gn != pn {
		g.fail("%s: generated code consumes %d bytes, the reflection codec %d", what, gn, pn)
	}
	if !sameTwin(gd.Elem(), pd.Elem()) {
		g.fail("%s (%s): generated code decodes %s, the reflection codec %s", what, hexs(b), show(gd.Elem()), show(pd.Elem()))
	}
}

// sameTwin compares values of twin types by their structure.
func sameTwin(a, b reflect.Value) bool {
	if a.Type() == b.Type() {
		return ref.Eq(a, b)
	}
	switch a.Kind() {
	case reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return sameTwin(a.Elem(), b.Elem())
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !sameTwin(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !sameTwin(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	}
	return ref.Eq(a.Convert(b.Type()), b)
}
