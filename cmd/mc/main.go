// Command mc runs the model-checking driver of one property.
//
//	mc run ID TIER      explore, write evidence, print VIOLATION lines
//	mc replay FILE      re-execute the case stored in a violation file
//	mc child ID TIER PROG OUT   (internal)
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	"verif/checks"
	"verif/mcx"
)

func root() string {
	if d := os.Getenv("VERIF_ROOT"); d != "" {
		return d
	}
	exe, _ := os.Executable()
	return filepath.Dir(filepath.Dir(exe))
}

func die(code int, format string, args ...any) {
	fmt.Fprintf(os.Stderr, format+"\n", args...)
	os.Exit(code)
}

func main() {
	if len(os.Args) < 2 {
		die(2, "usage: mc run ID TIER | mc replay FILE | mc list")
	}
	switch os.Args[1] {
	case "list":
		for _, c := range checks.All {
			fmt.Println(c.ID, c.Level)
		}
	case "solo":
		i, _ := strconv.Atoi(os.Args[2])
		fmt.Println(checks.Solo(i))
	case "hist":
		i, _ := strconv.Atoi(os.Args[2])
		n, _ := strconv.Atoi(os.Args[3])
		runtime.GOMAXPROCS(1)
		checks.Hist(i, n, os.Args[4] == "thorough")
	case "maps":
		fmt.Println(checks.MapUniverse())
	case "raceshared":
		i, _ := strconv.Atoi(os.Args[2])
		n, _ := strconv.Atoi(os.Args[3])
		checks.RaceShared(i, n)
	case "racecold":
		i, _ := strconv.Atoi(os.Args[2])
		checks.RaceCold(i)
	case "racepass":
		checks.RacePass(os.Args[2] == "thorough")
	case "run":
		os.Exit(parent(os.Args[2], os.Args[3]))
	case "child":
		child(os.Args[2], os.Args[3], os.Args[4], os.Args[5], nil)
	case "replay":
		b, err := os.ReadFile(os.Args[2])
		if err != nil {
			die(2, "%v", err)
		}
		var v mcx.Violation
		if err := json.Unmarshal(b, &v); err != nil {
			die(2, "%v", err)
		}
		child(v.Property, v.Tier, "", "", &v)
	default:
		die(2, "unknown command")
	}
}

func limit(tier string) time.Duration {
	if s := os.Getenv("MC_LIMIT"); s != "" {
		if d, err := time.ParseDuration(s); err == nil {
			return d
		}
	}
	if tier == "thorough" {
		return 13 * time.Minute
	}
	return 6 * time.Minute
}

func child(id, tier, prog, out string, replay *mcx.Violation) {
	c := checks.Find(id)
	if c == nil {
		die(2, "unknown property %s", id)
	}
	// keep a runaway allocation from taking the sandbox down: it becomes a crash of this process only
	if c.NoLimit == false {
		syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 20 << 30, Max: 20 << 30})
	}
	r, err := mcx.NewRun(id, tier, prog, limit(tier))
	if err != nil {
		die(2, "%v", err)
	}
	r.SetReplay(replay)
	r.Out = out
	c.Run(r)
	if replay != nil {
		res := r.Result()
		if !r.Replayed() {
			die(2, "the sweep %q of the violation does not exist (any more)", replay.Sweep)
		}
		if len(res.Violations) > 0 {
			fmt.Printf("reproduced: %s\n%s\n", res.Violations[0].Detail, res.Violations[0].Stack)
			os.Exit(1)
		}
		fmt.Println("not reproduced: the case passes")
		return
	}
	if err := r.WriteResult(out); err != nil {
		die(2, "%v", err)
	}
}

func parent(id, tier string) int {
	c := checks.Find(id)
	if c == nil {
		die(2, "unknown property %s", id)
	}
	start := time.Now()
	rt := root()
	ev := filepath.Join(rt, "evidence")
	os.MkdirAll(filepath.Join(ev, "replay"), 0o755)
	if old, _ := filepath.Glob(filepath.Join(ev, "replay", id+"-*.json")); old != nil {
		for _, f := range old {
			os.Remove(f)
		}
	}
	tmp, err := os.MkdirTemp("", "mc-"+id+"-")
	if err != nil {
		die(2, "%v", err)
	}
	defer os.RemoveAll(tmp)
	prog := filepath.Join(tmp, "prog")
	if err := os.WriteFile(prog, make([]byte, mcx.ProgSize), 0o644); err != nil {
		die(2, "%v", err)
	}
	f, err := os.OpenFile(prog, os.O_RDWR, 0)
	if err != nil {
		die(2, "%v", err)
	}
	m, err := syscall.Mmap(int(f.Fd()), 0, mcx.ProgSize, syscall.PROT_READ, syscall.MAP_SHARED)
	if err != nil {
		die(2, "%v", err)
	}
	slots := unsafe.Slice((*uint64)(unsafe.Pointer(&m[0])), mcx.ProgSize/8)
	out := filepath.Join(tmp, "out.json")
	exe, _ := os.Executable()
	cmd := exec.Command(exe, "child", id, tier, prog, out)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Env = append(os.Environ(), "MC_TMP="+tmp, "VERIF_ROOT="+rt)
	logf, _ := os.Create(filepath.Join(tmp, "log"))
	cmd.Stdout = os.Stderr
	cmd.Stderr = logf
	if err := cmd.Start(); err != nil {
		die(2, "%v", err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	hangAfter := 120 * time.Second
	if c.Hang > 0 {
		hangAfter = c.Hang
	}
	type seen struct {
		seq uint64
		at  time.Time
	}
	last := map[int]seen{}
	hung := ""
	var werr error
loop:
	for {
		select {
		case werr = <-done:
			break loop
		case <-time.After(time.Second):
			for i := 0; i < mcx.MaxSlots; i++ {
				s := slots[i*mcx.SlotWords:]
				if atomic.LoadUint64(&s[1]) == 0 {
					delete(last, i)
					continue
				}
				q := atomic.LoadUint64(&s[0])
				if l, ok := last[i]; !ok || l.seq != q {
					last[i] = seen{q, time.Now()}
				} else if time.Since(l.at) > hangAfter && hung == "" {
					hung = fmt.Sprintf("a case did not terminate within %v (sweep #%d, case %d)", hangAfter, s[2], s[3])
					syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				}
			}
		}
	}
	var res mcx.Result
	b, rerr := os.ReadFile(out)
	if rerr == nil {
		rerr = json.Unmarshal(b, &res)
	}
	lg, _ := os.ReadFile(filepath.Join(tmp, "log"))
	if os.Getenv("MC_VERBOSE") != "" || rerr != nil {
		t := string(lg)
		if len(t) > 6000 {
			t = t[:3000] + "\n...\n" + t[len(t)-3000:]
		}
		fmt.Fprintln(os.Stderr, t)
	}
	if rerr != nil {
		if ee, ok := werr.(*exec.ExitError); ok && ee.ExitCode() == 2 && strings.Contains(string(lg), "mc-harness-error") {
			die(2, "harness error")
		}
		// the process died while running a case: that is a crash of the code under test
		d := hung
		if d == "" {
			var cur []string
			for i := 0; i < mcx.MaxSlots; i++ {
				s := slots[i*mcx.SlotWords:]
				if s[1] != 0 {
					cur = append(cur, fmt.Sprintf("sweep #%d case %d", s[2], s[3]))
				}
			}
			head := string(lg)
			if i := strings.Index(head, "\n"); i > 0 {
				head = head[:i]
			}
			d = fmt.Sprintf("process crashed (%v: %s) while running one of: %s", werr, head, strings.Join(cur, "; "))
		}
		res.Violations = []mcx.Violation{{Property: id, Tier: tier, Sweep: "crash", Detail: d, Stack: tail(string(lg), 4000)}}
		res.Exhaustive = false
	}
	code := 0
	known := loadKnown(filepath.Join(rt, "known_findings.txt"), id)
	nviol := 0
	for i, v := range res.Violations {
		if k := match(known, v.Detail); k != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
			continue
		}
		nviol++
		if code == 1 {
			continue
		}
		p := filepath.Join(ev, "replay", fmt.Sprintf("%s-%d.json", id, i))
		jb, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(p, jb, 0o644)
		fmt.Printf("%s: %s [case %d %v] %s\n", v.Sweep, v.Detail, v.Index, v.Choices, v.Repro)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, p)
		code = 1
	}
	writeEvidence(filepath.Join(ev, id+".json"), c, tier, res, nviol, time.Since(start))
	if code == 0 {
		fmt.Printf("OK property=%s tier=%s evaluations=%d exhaustive=%v %.1fs\n", id, tier, res.Evaluations, res.Exhaustive, time.Since(start).Seconds())
	}
	return code
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func loadKnown(path, id string) (out []string) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		if rest, ok := strings.CutPrefix(l, "known: property="+id+" "); ok {
			out = append(out, rest)
		}
	}
	return
}

// a known finding line is: known: property=ID "<exact detail prefix>" description
func match(known []string, detail string) string {
	for _, k := range known {
		if q, err := strconv.QuotedPrefix(k); err == nil {
			if p, err := strconv.Unquote(q); err == nil && strings.HasPrefix(detail, p) {
				return strings.TrimSpace(k[len(q):])
			}
		}
	}
	return ""
}

func writeEvidence(path string, c *checks.Check, tier string, res mcx.Result, nviol int, wall time.Duration) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	samples := res.Samples
	if samples == nil {
		samples = []string{}
	}
	if len(samples) > 40 {
		samples = samples[:40]
	}
	cov := map[string]any{
		"evaluations": res.Evaluations,
		"samples":     samples,
		"exhaustive":  res.Exhaustive,
		"spaces":      res.Sweeps,
		"rule":        c.Rule,
		"bounds":      c.Bounds,
	}
	if c.Level == "model_checking" {
		cov["states"] = res.States
		cov["transitions"] = res.Transitions
		cov["traces_validated_against_impl"] = res.Traces
	} else {
		cov["distinct_nontrivial"] = res.NonTrivial
		if res.States > 0 {
			cov["states"] = res.States
			cov["transitions"] = res.Transitions
		}
	}
	for k, v := range res.Notes {
		cov[k] = v
	}
	e := map[string]any{
		"property": c.ID, "tier": tier, "seed": seed, "level": c.Level,
		"coverage": cov, "wall_s": wall.Seconds(), "violations": nviol,
		"assumptions": c.Assumptions,
	}
	b, _ := json.MarshalIndent(e, "", " ")
	if err := os.WriteFile(path, b, 0o644); err != nil {
		die(2, "%v", err)
	}
}
