// vrun drives one property check: it spawns worker processes that execute
// generated cases against the code under test, shrinks failures, and writes
// the evidence file.
package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif/meta"
	"verif/pbt"
)

type worker struct {
	bin     string
	shm     string
	asMB    int
	maxProc int
	cmd     *exec.Cmd
	in      *json.Encoder
	inp     *os.File
	out     *bufio.Reader
	outp    *os.File
	stderr  *tail
}

// tail keeps the first and last part of a stream.
type tail struct {
	mu   sync.Mutex
	head []byte
	last []byte
}

func (s *tail) Write(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	n := len(p)
	if room := 64<<10 - len(s.head); room > 0 {
		k := min(room, len(p))
		s.head = append(s.head, p[:k]...)
		p = p[k:]
	}
	s.last = append(s.last, p...)
	if len(s.last) > 64<<10 {
		s.last = append([]byte(nil), s.last[len(s.last)-(32<<10):]...)
	}
	return n, nil
}
func (s *tail) String() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return string(s.head) + string(s.last)
}
func (s *tail) Reset() { s.mu.Lock(); s.head, s.last = nil, nil; s.mu.Unlock() }

func (w *worker) start() error {
	f, err := os.Create(w.shm)
	if err != nil {
		return err
	}
	f.Truncate(pbt.ShmBytes)
	f.Close()
	r, pw, err := os.Pipe()
	if err != nil {
		return err
	}
	ir, iw, err := os.Pipe()
	if err != nil {
		return err
	}
	w.stderr = &tail{}
	w.cmd = exec.Command(w.bin, w.shm)
	w.cmd.Stdin = ir
	w.cmd.Stdout = nil
	w.cmd.Stderr = w.stderr
	w.cmd.ExtraFiles = []*os.File{pw}
	w.cmd.Env = append(os.Environ(), fmt.Sprintf("VERIF_AS_MB=%d", w.asMB), fmt.Sprintf("GOMAXPROCS=%d", w.maxProc), "GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=all")
	w.cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	if err := w.cmd.Start(); err != nil {
		return err
	}
	pw.Close()
	ir.Close()
	w.inp, w.outp = iw, r
	w.in = json.NewEncoder(iw)
	w.out = bufio.NewReaderSize(r, 1<<20)
	return nil
}
func (w *worker) kill() {
	if w.cmd != nil {
		w.inp.Close()
		syscall.Kill(-w.cmd.Process.Pid, syscall.SIGKILL)
		w.cmd.Wait()
		w.outp.Close()
		w.cmd = nil
	}
}
func (w *worker) choices() []uint64 {
	b, err := os.ReadFile(w.shm)
	if err != nil || len(b) < 8 {
		return nil
	}
	n := int(binary.LittleEndian.Uint64(b))
	var c []uint64
	for i := 1; i <= n && (i+1)*8 <= len(b); i++ {
		c = append(c, binary.LittleEndian.Uint64(b[i*8:]))
	}
	return c
}

func cpuOf(pid int) (sec float64, ok bool) {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0, false
	}
	s := string(b)
	i := strings.LastIndex(s, ")")
	f := strings.Fields(s[i+1:])
	if len(f) < 14 {
		return 0, false
	}
	u, _ := strconv.ParseFloat(f[11], 64)
	k, _ := strconv.ParseFloat(f[12], 64)
	return (u + k) / 100, true
}
func allAsleep(pid int) bool {
	d, err := os.ReadDir(fmt.Sprintf("/proc/%d/task", pid))
	if err != nil {
		return false
	}
	for _, e := range d {
		b, err := os.ReadFile(fmt.Sprintf("/proc/%d/task/%s/stat", pid, e.Name()))
		if err != nil {
			return false
		}
		s := string(b)
		i := strings.LastIndex(s, ")")
		if i+2 >= len(s) || s[i+2] != 'S' {
			return false
		}
	}
	return true
}

// outcome of a request
type outcome struct {
	res   pbt.Result
	died  bool
	class string // "", "panic", "race", "hang", "oom", "killed"
	text  string
}

func (w *worker) do(rq pbt.Req, cpuLimit float64) outcome {
	if w.cmd == nil {
		if err := w.start(); err != nil {
			return outcome{died: true, class: "killed", text: err.Error()}
		}
	}
	w.stderr.Reset()
	type lr struct {
		b   []byte
		err error
	}
	ch := make(chan lr, 1)
	base, _ := cpuOf(w.cmd.Process.Pid)
	if err := w.in.Encode(rq); err != nil {
		w.kill()
		return outcome{died: true, class: "killed", text: "write: " + err.Error()}
	}
	go func() {
		b, err := w.out.ReadBytes('\n')
		ch <- lr{b, err}
	}()
	tick := time.NewTicker(200 * time.Millisecond)
	defer tick.Stop()
	lastCPU := base
	idleSince := time.Now()
	for {
		select {
		case r := <-ch:
			if r.err == nil {
				var res pbt.Result
				if err := json.Unmarshal(r.b, &res); err == nil {
					return outcome{res: res}
				}
			}
			// died: let Wait collect stderr fully
			err := w.cmd.Wait()
			text := w.stderr.String()
			w.outp.Close()
			w.inp.Close()
			w.cmd = nil
			o := outcome{died: true, text: text}
			o.class = classify(err, text)
			o.res.Choices = w.choices()
			return o
		case <-tick.C:
			c, ok := cpuOf(w.cmd.Process.Pid)
			if !ok {
				continue
			}
			if c > lastCPU+0.05 || !allAsleep(w.cmd.Process.Pid) {
				lastCPU = c
				idleSince = time.Now()
			}
			hang := ""
			if c-base > cpuLimit {
				hang = fmt.Sprintf("no answer after %.0f s of CPU time", c-base)
			} else if time.Since(idleSince) > 40*time.Second {
				hang = "every thread asleep for 40 s with no result (blocked forever)"
			}
			if hang != "" {
				chs := w.choices()
				syscall.Kill(w.cmd.Process.Pid, syscall.SIGQUIT)
				done := make(chan struct{})
				go func() { w.cmd.Wait(); close(done) }()
				select {
				case <-done:
				case <-time.After(3 * time.Second):
					syscall.Kill(-w.cmd.Process.Pid, syscall.SIGKILL)
					<-done
				}
				text := w.stderr.String()
				w.outp.Close()
				w.inp.Close()
				w.cmd = nil
				return outcome{died: true, class: "hang", text: hang + "\n" + text, res: pbt.Result{Choices: chs}}
			}
		}
	}
}

func classify(err error, text string) string {
	if strings.Contains(text, "WARNING: DATA RACE") {
		if strings.Contains(text, pbt.SubjectPrefix) {
			return "race"
		}
		return "internal"
	}
	if strings.Contains(text, "runtime: out of memory") || strings.Contains(text, "cannot allocate memory") || strings.Contains(text, "out of memory") ||
		strings.Contains(text, "failed to reserve") || strings.Contains(text, "runtime: cannot reserve") || strings.Contains(text, "pthread_create failed") || strings.Contains(text, "newosproc") ||
		strings.Contains(text, "makeslice: len out of range") && false {
		return "oom"
	}
	if strings.Contains(text, "all goroutines are asleep") {
		return "panic"
	}
	if strings.Contains(text, "fatal error: ") || strings.Contains(text, "panic: ") || strings.Contains(text, "goroutine stack exceeds") {
		if strings.Contains(text, "goroutine stack exceeds") || strings.Contains(text, "concurrent map") {
			return "panic"
		}
		st := firstGoroutine(text)
		if pbt.PanicInSubject(st) || strings.Contains(st, pbt.SubjectPrefix) {
			return "panic"
		}
		return "internal"
	}
	return "killed"
}

func firstGoroutine(text string) string {
	i := strings.Index(text, "panic: ")
	if j := strings.Index(text, "fatal error: "); j >= 0 && (i < 0 || j < i) {
		i = j
	}
	if i < 0 {
		return ""
	}
	text = text[i:]
	if k := strings.Index(text, "\ngoroutine "); k >= 0 {
		rest := text[k+1:]
		if e := strings.Index(rest, "\n\n"); e >= 0 {
			rest = rest[:e]
		}
		return rest
	}
	return text
}

type known struct{ prop, key, text string }

func loadKnown(path string) (ks []known) {
	b, _ := os.ReadFile(path)
	for _, l := range strings.Split(string(b), "\n") {
		// known: property=<id> key=<key> <text>
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		f := strings.Fields(l)
		if len(f) < 4 || !strings.HasPrefix(f[1], "property=") || !strings.HasPrefix(f[2], "key=") {
			continue
		}
		ks = append(ks, known{f[1][9:], f[2][4:], strings.Join(f[3:], " ")})
	}
	return
}

type replayFile struct {
	Property string            `json:"property"`
	Seed     uint64            `json:"seed"`
	Idx      uint64            `json:"idx"`
	Choices  []uint64          `json:"choices"`
	Message  string            `json:"message"`
	Sample   string            `json:"case"`
	Thorough bool              `json:"thorough,omitempty"`
	Attach   map[string][]byte `json:"attach,omitempty"`
}

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	bindir := flag.String("bindir", "", "directory with worker binaries")
	verif := flag.String("verif", "/verif", "verif directory")
	replay := flag.String("replay", "", "replay file")
	cases := flag.Int("cases", 0, "override the number of cases")
	nw := flag.Int("workers", 8, "workers")
	single := flag.Int64("case", -1, "run only this case index, verbosely")
	keep := flag.Bool("keep-going", false, "report every distinct failure message, no shrinking (development)")
	which := flag.Bool("which", false, "print the worker binary of the property and exit")
	flag.Parse()
	start := time.Now()
	seed := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseInt(s, 10, 64); err == nil {
			seed = uint64(v)
		} else {
			for _, c := range []byte(s) {
				seed = seed*131 + uint64(c)
			}
		}
	}
	p, ok := meta.Props[*prop]
	if !ok {
		fmt.Println("unknown property", *prop)
		os.Exit(2)
	}
	if *which {
		fmt.Println(p.Bin())
		return
	}
	thorough := *tier == "thorough"
	n := p.Quick
	wall := 240 * time.Second
	if thorough {
		n = p.Quick * 40
		if p.Thorough > 0 {
			n = p.Thorough
		}
		wall = 3600 * time.Second
	}
	if *cases > 0 {
		n = *cases
	}
	asMB := p.ASMB
	if asMB == 0 {
		asMB = 4500
	}
	if p.Race {
		asMB = 0
	}
	tmp, err := os.MkdirTemp("", "vrun")
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	exit := func(c int) {
		os.RemoveAll(tmp)
		os.Exit(c)
	}
	newWorker := func(i int) *worker {
		mp := p.MaxProcs
		if mp == 0 {
			mp = 2
		}
		return &worker{bin: filepath.Join(*bindir, p.Bin()), shm: filepath.Join(tmp, fmt.Sprintf("w%d", i)), asMB: asMB, maxProc: mp}
	}
	cpuLimit := 60.0
	if p.CPU > 0 {
		cpuLimit = p.CPU
	}
	ks := loadKnown(filepath.Join(*verif, "known_findings.txt"))
	isKnown := func(key string) *known {
		for i := range ks {
			if ks[i].prop == *prop && ks[i].key == key {
				return &ks[i]
			}
		}
		return nil
	}
	if *replay != "" || *single >= 0 {
		w := newWorker(0)
		rq := pbt.Req{Prop: *prop, Seed: seed, Idx: uint64(max(0, *single)), Full: true, Thorough: thorough}
		if *replay != "" {
			b, err := os.ReadFile(*replay)
			if err != nil {
				fmt.Println(err)
				exit(2)
			}
			var rf replayFile
			if err := json.Unmarshal(b, &rf); err != nil {
				fmt.Println(err)
				exit(2)
			}
			rq.Replay, rq.Choices, rq.Thorough = true, rf.Choices, rf.Thorough
		}
		o := w.do(rq, cpuLimit)
		w.kill()
		fmt.Println("status:", o.res.Status, "class:", o.class)
		fmt.Println("msg:", o.res.Msg)
		fmt.Println("labels:", pbt.LabelString(o.res.Labels), "nontrivial:", o.res.NonTrivial)
		fmt.Println("case:", o.res.Sample)
		if o.died {
			fmt.Println(clip(o.text, 6000))
		}
		for k, b := range o.res.Attach {
			fmt.Printf("attach %s: %d bytes\n", k, len(b))
		}
		if o.res.Status == "fail" || o.class == "panic" || o.class == "race" || o.class == "hang" {
			fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, *replay)
			exit(1)
		}
		exit(0)
	}

	var mu sync.Mutex
	var next int
	var stopAll bool
	labels := map[string]int{}
	sigs := map[uint64]bool{}
	evals, discards, internals, nontriv, ran, inconclusive := 0, 0, 0, 0, 0, 0
	knownHits := map[string]int{}
	var samples []string
	var internalMsgs []string
	type failure struct {
		idx uint64
		o   outcome
		msg string
	}
	var fails []failure
	distinctMsgs := map[string]int{}
	var wg sync.WaitGroup
	deadline := start.Add(wall)
	for i := 0; i < *nw; i++ {
		wg.Add(1)
		w := newWorker(i)
		go func() {
			defer wg.Done()
			defer w.kill()
			for {
				mu.Lock()
				if stopAll || next >= n || time.Now().After(deadline) {
					mu.Unlock()
					return
				}
				idx := uint64(next)
				next++
				mu.Unlock()
				rq := pbt.Req{Prop: *prop, Seed: seed, Idx: idx, Thorough: thorough}
				o := w.do(rq, cpuLimit)
				if o.died && (o.class == "hang") {
					// confirm with twice the budget on a fresh process
					o2 := w.do(rq, 2*cpuLimit)
					o = o2
				}
				if o.died && o.class == "killed" {
					o = w.do(rq, cpuLimit)
				}
				mu.Lock()
				ran++
				evals += max(o.res.Evals, 1)
				bad := ""
				if o.died {
					switch o.class {
					case "panic", "race", "hang":
						bad = o.class + ": " + firstPanicLine(o.text)
					case "internal":
						internals++
						internalMsgs = append(internalMsgs, clip(o.text, 3000))
					default:
						inconclusive++
						labels["resource-limit"]++
					}
				} else {
					for k, v := range o.res.Labels {
						labels[k] += v
					}
					switch o.res.Status {
					case "fail":
						bad = o.res.Msg
					case "internal":
						internals++
						internalMsgs = append(internalMsgs, fmt.Sprintf("case %d: %s", idx, clip(o.res.Msg, 3000)))
					case "discard":
						discards++
						labels["discard:"+o.res.Msg]++
					}
					if o.res.Status == "pass" && o.res.NonTrivial {
						nontriv++
						sigs[o.res.Sig] = true
						if len(samples) < 6 && len(o.res.Sample) > 0 && (idx%7 == 3 || n < 50 || idx > uint64(n/2)) {
							samples = append(samples, fmt.Sprintf("case %d: %s", idx, o.res.Sample))
						}
					}
				}
				if bad != "" {
					if o.res.Known != "" && isKnown(o.res.Known) != nil {
						knownHits[o.res.Known]++
					} else if *keep {
						k := clip(strings.SplitN(bad, "\n", 2)[0], 160)
						distinctMsgs[k]++
						if distinctMsgs[k] <= 2 {
							fmt.Printf("FAIL case %d: %s\n", idx, clip(bad, 900))
						}
					} else {
						fails = append(fails, failure{idx, o, bad})
						stopAll = true
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	if *keep {
		type kv struct {
			k string
			v int
		}
		var l []kv
		for k, v := range distinctMsgs {
			l = append(l, kv{k, v})
		}
		sort.Slice(l, func(i, j int) bool { return l[i].v > l[j].v })
		for _, x := range l {
			fmt.Printf("%6d %s\n", x.v, x.k)
		}
	}
	for _, k := range ks {
		if k.prop == *prop {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k.text)
		}
	}
	code := 0
	if len(fails) > 0 {
		sort.Slice(fails, func(i, j int) bool { return fails[i].idx < fails[j].idx })
		f := fails[0]
		best := f.o.res.Choices
		bestMsg, bestSample, bestAttach := f.msg, f.o.res.Sample, f.o.res.Attach
		w := newWorker(100)
		tries := 0
		failing := func(c []uint64) bool {
			tries++
			o := w.do(pbt.Req{Prop: *prop, Replay: true, Choices: c, Full: true, Thorough: thorough}, cpuLimit/2)
			bad := ""
			if o.died {
				if o.class == "panic" || o.class == "race" || o.class == "hang" {
					bad = o.class + ": " + clip(o.text, 8000)
				}
			} else if o.res.Status == "fail" {
				bad = o.res.Msg
			}
			if bad == "" || (o.res.Known != "" && isKnown(o.res.Known) != nil) {
				return false
			}
			if o.died && len(o.res.Choices) == 0 {
				return false
			}
			best, bestMsg, bestSample, bestAttach = o.res.Choices, bad, o.res.Sample, o.res.Attach
			return true
		}
		if f.o.died {
			bestMsg = f.o.class + ": " + clip(f.o.text, 8000)
		}
		if f.o.class != "hang" {
			shrink(best, failing, func() []uint64 { return best }, &tries, 500, time.Now().Add(40*time.Second))
		}
		w.kill()
		dir := filepath.Join(*verif, "replays")
		os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, fmt.Sprintf("%s-%d-%d.json", *prop, seed, f.idx))
		b, _ := json.MarshalIndent(replayFile{*prop, seed, f.idx, best, bestMsg, bestSample, thorough, bestAttach}, "", " ")
		os.WriteFile(path, b, 0o644)
		fmt.Printf("case %d failed: %s\n", f.idx, clip(f.msg, 1500))
		fmt.Printf("shrunk (%d runs, %d choices -> %d): %s\ncase: %s\n", tries, len(f.o.res.Choices), len(best), clip(bestMsg, 3000), bestSample)
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
		code = 1
	}
	if internals > 0 {
		fmt.Printf("harness self-check failures: %d; first:\n%s\n", internals, internalMsgs[0])
		if code == 0 {
			code = 2
		}
	}
	if len(samples) == 0 {
		samples = append(samples, "none")
	}
	ev := map[string]any{
		"property": *prop, "tier": *tier, "seed": int64(seed), "level": "exploration",
		"coverage": map[string]any{
			"evaluations": evals, "distinct_nontrivial": len(sigs), "rule": p.Rule, "samples": samples,
			"cases": ran, "nontrivial": nontriv, "discarded": discards, "resource_limited": inconclusive, "labels": labels, "known_finding_hits": knownHits,
		},
		"wall_s": time.Since(start).Seconds(),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(*verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(*verif, "evidence", *prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println(err)
		if code == 0 {
			code = 2
		}
	}
	fmt.Printf("%s %s seed=%d: cases=%d evaluations=%d nontrivial=%d distinct=%d discarded=%d resource-limited=%d wall=%.1fs\n", *prop, *tier, seed, ran, evals, nontriv, len(sigs), discards, inconclusive, time.Since(start).Seconds())
	for k := range labels {
		if strings.Contains(k, "nested-") {
			delete(labels, k)
		}
	}
	fmt.Println("labels:", pbt.LabelString(labels))
	exit(code)
}

func firstPanicLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "panic: ") || strings.HasPrefix(l, "fatal error: ") || strings.Contains(l, "DATA RACE") {
			return l + "\n" + clip(s, 6000)
		}
	}
	return clip(s, 6000)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func shrink(c []uint64, failing func([]uint64) bool, best func() []uint64, tries *int, budget int, until time.Time) {
	ok := func() bool { return *tries < budget && time.Now().Before(until) }
	if !failing(append([]uint64(nil), c...)) {
		return // not reproducible from its choices: keep the original
	}
	try := func(x []uint64) bool {
		prev := best()
		if !failing(x) {
			return false
		}
		if !shorter(best(), prev) {
			// keep anyway; sizes equal
			return !bytes.Equal(enc(best()), enc(prev))
		}
		return true
	}
	for improved := true; improved && ok(); {
		improved = false
		for size := max(1, len(best())/2); size >= 1 && ok(); size /= 2 {
			for i := 0; i+size <= len(best()) && ok(); {
				b := best()
				x := append(append([]uint64(nil), b[:i]...), b[i+size:]...)
				if len(b) > 0 && try(x) && len(best()) < len(b) {
					improved = true
				} else {
					i += size
				}
			}
			if size == 1 {
				break
			}
		}
		for size := 8; size >= 1 && ok(); size /= 2 {
			for i := 0; i < len(best()) && ok(); i += size {
				b := best()
				x := append([]uint64(nil), b...)
				z := true
				for k := i; k < i+size && k < len(x); k++ {
					if x[k] != 0 {
						z = false
					}
					x[k] = 0
				}
				if !z && try(x) {
					improved = true
				}
			}
		}
		for i := 0; i < len(best()) && ok(); i++ {
			for ok() && i < len(best()) && best()[i] > 1 {
				b := best()
				x := append([]uint64(nil), b...)
				x[i] /= 2
				if !try(x) {
					break
				}
				improved = true
			}
			if i < len(best()) && best()[i] > 0 && ok() {
				x := append([]uint64(nil), best()...)
				x[i]--
				if try(x) {
					improved = true
				}
			}
		}
	}
}
func enc(c []uint64) []byte {
	b := make([]byte, 0, len(c)*8)
	for _, v := range c {
		b = binary.LittleEndian.AppendUint64(b, v)
	}
	return b
}
func shorter(a, b []uint64) bool { return len(a) < len(b) }
