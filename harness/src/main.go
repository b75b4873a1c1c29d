//go:build go1.22

package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

func main() {
	if len(os.Args) > 1 {
		switch os.Args[1] {
		case "worker":
			runWorker(os.Args[2:])
			return
		case "run":
			os.Exit(runDriver(os.Args[2:]))
		case "list":
			ids := []string{}
			for id := range registry {
				ids = append(ids, id)
			}
			sort.Strings(ids)
			fmt.Println(strings.Join(ids, " "))
			return
		}
		if f, ok := helpers[os.Args[1]]; ok {
			f(os.Args[2:])
			return
		}
	}
	fmt.Fprintln(os.Stderr, "usage: vh run|worker|list ...")
	os.Exit(2)
}

// helpers are subprocess entry points of single properties.
var helpers = map[string]func(args []string){}

func runWorker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Int64("seed", 1, "")
	shard := fs.Int("shard", 0, "")
	of := fs.Int("of", 1, "")
	from := fs.Int("from", 0, "")
	to := fs.Int("to", 0, "")
	dir := fs.String("dir", "", "")
	mem := fs.Int("mem", 0, "")
	fs.Parse(args)
	if *mem > 0 {
		lim := uint64(*mem) << 20
		syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: lim, Max: lim})
	}
	workerMain(registry[*prop], *tier, *seed, *shard, *of, *from, *to, *dir)
}

type known struct {
	Status   string `json:"status"` // "known" or "fixed"
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
}

func loadKnown(path string) []known {
	out := []known{}
	f, err := os.Open(path)
	if err != nil {
		return out
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		line := strings.TrimSpace(sc.Text())
		if line == "" || strings.HasPrefix(line, "#") || strings.HasPrefix(line, "fixed:") {
			continue
		}
		var k known
		if json.Unmarshal([]byte(line), &k) == nil && k.Status == "known" {
			out = append(out, k)
		}
	}
	return out
}

func runDriver(args []string) int {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	propID := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Int64("seed", 1, "")
	verif := fs.String("verif", "/verif", "")
	only := fs.Int("case", -1, "run only this case (replay)")
	fs.Parse(args)
	prop := registry[*propID]
	if prop == nil {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", *propID)
		return 2
	}
	start := time.Now()
	base, err := os.MkdirTemp("", "vh-"+*propID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	os.Chmod(base, 0777)
	defer os.RemoveAll(base)
	n := prop.Cases(*tier)
	from, to := 0, n
	workers := prop.Workers
	if workers == 0 {
		workers = 8
	}
	if *only >= 0 {
		from, to, workers = *only, *only+1, 1
	}
	self, _ := os.Executable()
	type wk struct {
		cmd  *exec.Cmd
		dir  string
		done chan error
		out  string
	}
	viols := []Violation{}
	counters := map[string]int64{}
	samples := []string{}
	distinct := map[uint64]struct{}{}
	evaluations := int64(0)
	broken := ""
	collect := func(dir string) bool {
		b, err := os.ReadFile(filepath.Join(dir, "result"))
		if err != nil {
			return false
		}
		var r workerResult
		if json.Unmarshal(b, &r) != nil {
			return false
		}
		for k, v := range r.Counters {
			counters[k] += v
		}
		if len(samples) < 6 {
			samples = append(samples, r.Samples...)
		}
		viols = append(viols, r.Viol...)
		evaluations += r.Cases
		d, _ := os.ReadFile(filepath.Join(dir, "distinct"))
		for i := 0; i+8 <= len(d); i += 8 {
			distinct[binary.LittleEndian.Uint64(d[i:])] = struct{}{}
		}
		return true
	}
	list := []*wk{}
	for s := 0; s < workers; s++ {
		dir := filepath.Join(base, fmt.Sprintf("w%d", s))
		os.MkdirAll(dir, 0777)
		of := workers
		sh := s
		if *only >= 0 {
			of, sh = 1, 0
		}
		wargs := []string{"worker", "-prop", *propID, "-tier", *tier, "-seed", strconv.FormatInt(*seed, 10),
			"-shard", strconv.Itoa(sh), "-of", strconv.Itoa(of), "-from", strconv.Itoa(from), "-to", strconv.Itoa(to), "-dir", dir, "-mem", strconv.Itoa(prop.MemMB)}
		cmd := exec.Command(self, wargs...)
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=all", "TMPDIR="+dir, "GOMAXPROCS="+maxprocs(prop))
		op := filepath.Join(dir, "log")
		of2, _ := os.Create(op)
		cmd.Stdout = of2
		cmd.Stderr = of2
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
		w := &wk{cmd: cmd, dir: dir, done: make(chan error, 1), out: op}
		if err := cmd.Start(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		go func() { w.done <- cmd.Wait(); of2.Close() }()
		list = append(list, w)
	}
	// watch the workers: exits, crashes, hangs
	alive := len(list)
	finished := make([]bool, len(list))
	for alive > 0 {
		for i, w := range list {
			if finished[i] {
				continue
			}
			hung := false
			select {
			case err := <-w.done:
				finished[i] = true
				alive--
				ok := collect(w.dir)
				if err != nil || !ok {
					cs := statusCase(w.dir)
					log := tail(w.out, 12000)
					key := "crash:" + crashKind(log)
					viols = append(viols, Violation{Prop: *propID, Key: key, Case: cs, Seed: *seed, Tier: *tier,
						Detail: fmt.Sprintf("the process running the case ended with %v\n%s", err, log)})
					if strings.Contains(log, "harness:") {
						broken = log
					}
				}
				// reap leftovers of the group
				syscall.Kill(-w.cmd.Process.Pid, syscall.SIGKILL)
			default:
				cs, at := statusRead(w.dir)
				if cs >= 0 && time.Since(at) > prop.Hang {
					hung = true
				}
			}
			if hung {
				cs := statusCase(w.dir)
				syscall.Kill(w.cmd.Process.Pid, syscall.SIGQUIT)
				time.Sleep(1500 * time.Millisecond)
				syscall.Kill(-w.cmd.Process.Pid, syscall.SIGKILL)
				<-w.done
				finished[i] = true
				alive--
				collect(w.dir)
				viols = append(viols, Violation{Prop: *propID, Key: "hang", Case: cs, Seed: *seed, Tier: *tier,
					Detail: fmt.Sprintf("the case did not end within %v\n%s", prop.Hang, tail(w.out, 8000))})
			}
		}
		time.Sleep(20 * time.Millisecond)
	}
	if broken != "" {
		fmt.Fprintf(os.Stderr, "harness error:\n%s\n", broken)
		return 2
	}

	// known findings
	kn := loadKnown(filepath.Join(*verif, "known_findings.jsonl"))
	unknown := []Violation{}
	seenKnown := map[string]bool{}
	for _, v := range viols {
		match := false
		for _, k := range kn {
			if k.Property == v.Prop && k.Key == v.Key {
				match = true
				if !seenKnown[k.Key] {
					seenKnown[k.Key] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", v.Prop, k.What)
				}
			}
		}
		if !match {
			unknown = append(unknown, v)
		}
	}
	if len(samples) > 4 {
		samples = samples[:4]
	}
	if len(samples) == 0 {
		samples = []string{"(no sample recorded)"}
	}
	wall := time.Since(start).Seconds()
	ev := map[string]interface{}{
		"property": *propID, "tier": *tier, "seed": *seed, "level": prop.Level,
		"coverage": map[string]interface{}{
			"evaluations": evaluations, "distinct_nontrivial": len(distinct), "rule": prop.Rule,
			"samples": samples, "observed": counters,
		},
		"assumptions": prop.Assume,
		"wall_s":      wall, "violations": len(unknown),
	}
	if prop.Assume == nil {
		delete(ev, "assumptions")
	}
	if *only < 0 {
		js, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Join(*verif, "evidence"), 0777)
		if err := os.WriteFile(filepath.Join(*verif, "evidence", *propID+".json"), append(js, '\n'), 0666); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	fmt.Printf("%s %s: %d cases, %d distinct non-trivial, %.1fs, observed %s\n", *propID, *tier, evaluations, len(distinct), wall, fmtCounters(counters))
	if len(unknown) == 0 {
		return 0
	}
	seen := map[string]bool{}
	os.MkdirAll(filepath.Join(*verif, "out", "replay"), 0777)
	for i, v := range unknown {
		if seen[v.Key] || len(seen) >= 5 {
			continue
		}
		seen[v.Key] = true
		path := filepath.Join(*verif, "out", "replay", fmt.Sprintf("%s-%d-%d.json", v.Prop, v.Case, i))
		js, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(path, js, 0666)
		d := v.Detail
		if len(d) > 3000 {
			d = d[:3000] + "\n[cut, see replay file]"
		}
		fmt.Printf("[%s] case %d: %s\n", printable(v.Key), v.Case, printable(d))
		fmt.Printf("VIOLATION property=%s replay=%s\n", v.Prop, path)
	}
	return 1
}

// printable keeps the printable characters of a text, escapes the others.
func printable(s string) string {
	var b strings.Builder
	for _, r := range strings.ToValidUTF8(s, "?") {
		if r == '\n' || (r >= ' ' && r < 0x7f) {
			b.WriteRune(r)
			continue
		}
		b.WriteString(strings.Trim(strconv.QuoteRuneToASCII(r), "'"))
	}
	return b.String()
}

func maxprocs(p *Prop) string {
	if p.Workers == 0 || p.Workers > 4 {
		return "2"
	}
	return "8"
}

func fmtCounters(m map[string]int64) string {
	ks := []string{}
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	out := []string{}
	for _, k := range ks {
		out = append(out, fmt.Sprintf("%s=%d", k, m[k]))
	}
	return strings.Join(out, " ")
}

func statusRead(dir string) (int, time.Time) {
	b, err := os.ReadFile(filepath.Join(dir, "status"))
	if err != nil || len(b) < 16 {
		return -1, time.Time{}
	}
	return int(binary.LittleEndian.Uint64(b)), time.Unix(0, int64(binary.LittleEndian.Uint64(b[8:])))
}

func statusCase(dir string) int {
	c, _ := statusRead(dir)
	return c
}

func tail(path string, n int) string {
	b, _ := os.ReadFile(path)
	if len(b) > n {
		b = append(append([]byte{}, b[:n/2]...), append([]byte("\n[...]\n"), b[len(b)-n/2:]...)...)
	}
	return string(b)
}

func crashKind(log string) string {
	for _, s := range []string{"DATA RACE", "stack overflow", "out of memory", "cannot allocate memory", "concurrent map", "all goroutines are asleep", "fatal error", "panic:", "signal:"} {
		if strings.Contains(log, s) {
			return s
		}
	}
	return "exit"
}
