package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io/ioutil"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"
)

func sortStrings(s []string) { sort.Strings(s) }

var streamNames = []string{"work", "fault", "sched", "map"}

// Replay is the replay file.
type Replay struct {
	Property string              `json:"property"`
	Tier     string              `json:"tier"`
	Race     bool                `json:"race_build"`
	Class    string              `json:"violation"`
	Msg      string              `json:"message"`
	BaseSeed uint64              `json:"verif_seed"`
	Index    uint64              `json:"run_index"`
	Seed     uint64              `json:"run_seed"`
	Hash     uint64              `json:"event_log_hash"`
	Streams  map[string][]uint32 `json:"choices,omitempty"`
	Prefix   []uint64            `json:"prefix_runs,omitempty"` // run first, in the same process
	BySeed   bool                `json:"by_seed,omitempty"`     // choices come from run_seed
	Steps    uint64              `json:"library_steps"`
	Faults   map[string]int      `json:"faults_injected,omitempty"`
	Desc     []string            `json:"trace,omitempty"`
	Note     string              `json:"note,omitempty"`
}

type known struct {
	Property string `json:"property"`
	Class    string `json:"class"`
	What     string `json:"what"`
	Status   string `json:"status"` // "known" or "fixed: ..."
}

func fatalf(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "ERROR: "+f+"\n", a...)
	os.Exit(2)
}

func setupProcess() {
	runtime.GOMAXPROCS(1)
	runtime.MemProfileRate = 0
	debug.SetGCPercent(-1)
	log.SetOutput(ioutil.Discard)
	for i := 0; i < 50; i++ {
		runtime.Gosched()
	}
}

var lastGC uint64
var sinceGC int

func maybeGC() {
	sinceGC++
	if sinceGC%8 != 0 {
		return
	}
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	if ms.HeapAlloc > 256<<20 {
		runtime.GC()
		runtime.GC()
		for i := 0; i < 20; i++ {
			runtime.Gosched()
		}
	}
}

// quietStdout points fd 1 and 2 of library chatter away: several parts of the
// library print progress to stdout.
func splitStdout() *os.File {
	n, err := syscall.Dup(1)
	if err != nil {
		fatalf("dup: %v", err)
	}
	null, _ := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	syscall.Dup2(int(null.Fd()), 1)
	return os.NewFile(uintptr(n), "out")
}

func worker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	base := fs.Uint64("seed", 1, "")
	start := fs.Uint64("start", 0, "")
	stride := fs.Uint64("stride", 1, "")
	end := fs.Uint64("end", 1<<62, "")
	dur := fs.Duration("for", time.Second, "")
	scratch := fs.String("scratch", "", "")
	list := fs.String("list", "", "")
	twice := fs.Bool("twice", false, "") // repeat every run from its recorded choices, report the repetition
	fs.Parse(args)
	out := splitStdout()
	p := registry[*prop]
	setupProcess()
	deadline := time.Now().Add(*dur)
	var idx []uint64
	if *list != "" {
		for _, s := range strings.Split(*list, ",") {
			v, _ := strconv.ParseUint(s, 10, 64)
			idx = append(idx, v)
		}
	}
	emit := func(r *RunResult) {
		b, _ := json.Marshal(r)
		b = append(b, '\n')
		out.Write(b)
	}
	n := uint64(0)
	for i := *start; ; i += *stride {
		if idx != nil {
			if n >= uint64(len(idx)) {
				break
			}
			i = idx[n]
		} else if i >= *end || time.Now().After(deadline) {
			break
		}
		n++
		os.MkdirAll(*scratch, 0755)
		maybeGC()
		out.Write([]byte(fmt.Sprintf("S %d\n", i)))
		seed := mixSeed(*base, i+1)
		c := &runCfg{prop: p, tier: *tier, i: i, seed: seed, scratch: *scratch, keep: n <= 2 || *twice,
			emerg: func(r *RunResult) {
				b, _ := json.Marshal(r)
				b = append(b, '\n')
				syscall.Write(int(out.Fd()), b)
			}}
		r := runOne(c)
		if *twice && !r.Fatal {
			maybeGC()
			d := *c
			d.replay, d.keep = true, false
			for k, name := range streamNames {
				d.in[k] = r.Streams[name]
			}
			r = runOne(&d)
		}
		emit(r)
		if r.Fatal {
			os.Exit(0)
		}
	}
	out.Write([]byte("E\n"))
}

const mmWords = 1 << 18

// one runs a single replay in this process.
func one(args []string) {
	fs := flag.NewFlagSet("one", flag.ExitOnError)
	in := fs.String("in", "", "")
	mm := fs.String("mm", "", "")
	verbose := fs.Bool("v", false, "")
	scratch := fs.String("scratch", "", "")
	fs.Parse(args)
	out := splitStdout()
	b, err := ioutil.ReadFile(*in)
	if err != nil {
		fatalf("%v", err)
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		fatalf("%v", err)
	}
	p := registry[r.Property]
	if r.Seed == 0 && r.BySeed {
		r.Seed = mixSeed(r.BaseSeed, r.Index+1)
	}
	setupProcess()
	if *mm != "" {
		f, err := os.OpenFile(*mm, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
		if err != nil {
			fatalf("%v", err)
		}
		f.Truncate(4 * mmWords * 4)
		data, err := syscall.Mmap(int(f.Fd()), 0, 4*mmWords*4, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
		if err != nil {
			fatalf("mmap: %v", err)
		}
		words := unsafe.Slice((*uint32)(unsafe.Pointer(&data[0])), 4*mmWords)
		for i := 0; i < 4; i++ {
			runtime.VerifSetBuf(i, words[i*mmWords:i*mmWords:(i+1)*mmWords])
		}
	}
	os.MkdirAll(*scratch, 0755)
	emerg := func(r *RunResult) {
		b, _ := json.Marshal(r)
		b = append(b, '\n')
		syscall.Write(int(out.Fd()), b)
	}
	for _, i := range r.Prefix {
		res := runOne(&runCfg{prop: p, tier: r.Tier, i: i, seed: mixSeed(r.BaseSeed, i+1), scratch: *scratch, emerg: emerg})
		if res.Fatal {
			break
		}
	}
	c := &runCfg{prop: p, tier: r.Tier, i: r.Index, seed: r.Seed, scratch: *scratch, keep: true, verbose: *verbose, emerg: emerg}
	if !r.BySeed {
		c.replay = true
		for i, n := range streamNames {
			c.in[i] = r.Streams[n]
		}
	}
	res := runOne(c)
	emerg(res)
	os.Exit(0)
}

// runHash is what a repetition of a run must reproduce.
type runHash struct{ hash, log, sig, steps, picks uint64 }

func hashOf(r *RunResult) runHash { return runHash{r.Hash, r.Log, r.Sig, r.Steps, r.Picks} }

type orch struct {
	prop                    *Property
	tier                    string
	seed                    uint64
	self                    string
	tmp                     string
	mu                      sync.Mutex
	runs                    int
	results                 map[uint64]runHash // by index
	sigs                    map[uint64]bool
	shapes                  map[uint64]bool
	nt                      map[uint64]bool
	faults                  map[string]int
	probes                  map[string]int
	frate                   map[string]int
	steps                   uint64
	pre                     uint64
	picks                   uint64
	maps                    uint64
	perm                    uint64
	samples                 []interface{}
	viol                    []*RunResult
	hist                    map[uint64][]uint64 // violation index -> earlier runs of the process
	known                   []known
	knownN                  map[string]int
	stop                    bool
	errs                    []string
	fatalN                  int
	maxSteps, maxAt, maxUse uint64
}

func (o *orch) env() []string {
	e := []string{}
	for _, s := range os.Environ() {
		if strings.HasPrefix(s, "GODEBUG=") || strings.HasPrefix(s, "GORACE=") || strings.HasPrefix(s, "TMPDIR=") || strings.HasPrefix(s, "GOTRACEBACK=") || strings.HasPrefix(s, "GOMAXPROCS=") || strings.HasPrefix(s, "GOGC=") {
			continue
		}
		e = append(e, s)
	}
	return append(e, "GODEBUG=cgocheck=0,randseednop=0,asyncpreemptoff=1", "GORACE=atexit_sleep_ms=0 halt_on_error=0 history_size=3 exitcode=0", "GOTRACEBACK=all")
}

// crashClass classifies the death of a process from its stderr; ok is false
// when the harness is to blame.
func crashClass(stderr string) (class, msg string, ok bool) {
	if strings.Contains(stderr, "HARNESS-BUG") {
		return "", stderr, false
	}
	i := strings.Index(stderr, "panic: ")
	if j := strings.Index(stderr, "fatal error: "); j >= 0 && (i < 0 || j < i) {
		i = j
	}
	if j := strings.Index(stderr, "SIGSEGV"); i < 0 && j >= 0 {
		i = j
	}
	if j := strings.Index(stderr, "terminate called"); i < 0 && j >= 0 {
		return "crash:native", firstLine(stderr[j:]), true
	}
	if i < 0 {
		return "", stderr, false
	}
	first := firstLine(stderr[i:])
	// the crashing goroutine comes first
	rest := stderr[i:]
	if k := strings.Index(rest, "\ngoroutine "); k >= 0 {
		rest = rest[k+1:]
		if k := strings.Index(rest, "\n\n"); k >= 0 {
			rest = rest[:k]
		}
	}
	where, harness := blame(rest)
	if harness || where == "?" {
		return "", stderr, false
	}
	return "crash@" + where, "the process was killed: " + first + " (in " + where + ")", true
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func (o *orch) isKnown(class string) *known {
	for i := range o.known {
		k := &o.known[i]
		if k.Property == o.prop.ID && k.Class == class && k.Status == "known" {
			return k
		}
	}
	return nil
}

func (o *orch) absorb(r *RunResult, hist []uint64) {
	o.mu.Lock()
	defer o.mu.Unlock()
	o.runs++
	o.results[r.I] = hashOf(r)
	o.sigs[r.Sig] = true
	o.shapes[r.Shape] = true
	if r.Nontri {
		o.nt[r.Shape^r.Sig*0x9e3779b97f4a7c15] = true
	}
	for k, v := range r.Faults {
		o.faults[k] += v
	}
	for k, v := range r.Probes {
		o.probes[k] += v
	}
	o.steps += r.Steps
	if r.Limit > 0 && r.Steps*1000/r.Limit >= o.maxUse {
		o.maxUse, o.maxSteps, o.maxAt = r.Steps*1000/r.Limit, r.Steps, r.I
	}
	o.pre += r.Pre
	o.picks += r.Picks
	o.maps += r.Maps
	o.perm += r.Perm
	if len(r.Desc) > 0 && len(o.samples) < 4 && r.Class == "" {
		o.samples = append(o.samples, map[string]interface{}{"run_index": r.I, "run_seed": r.Seed, "case": r.Desc})
	}
	if r.Fatal {
		o.fatalN++
	}
	if r.Class != "" {
		if o.isKnown(r.Class) != nil {
			o.knownN[r.Class]++
			return
		}
		if len(o.viol) < 20 {
			o.viol = append(o.viol, r)
			o.hist[r.I] = append([]uint64{}, hist...)
		}
		o.stop = true
	}
}

// runWorker drives one worker process until it ends; returns the next index
// to run (or done).
func (o *orch) runWorker(w int, args []string, onRes func(*RunResult, []uint64)) (last int64, clean bool, err error) {
	sc := filepath.Join(o.tmp, fmt.Sprintf("w%02d", w), "s")
	os.MkdirAll(filepath.Join(sc, "tmp"), 0755)
	cmd := exec.Command(o.self, append([]string{"worker", "-scratch", sc}, args...)...)
	cmd.Env = append(o.env(), "TMPDIR="+filepath.Join(sc, "tmp"))
	cmd.Dir = filepath.Dir(sc)
	var se tailBuf
	cmd.Stderr = &se
	pipe, e := cmd.StdoutPipe()
	if e != nil {
		return -1, false, e
	}
	if e := cmd.Start(); e != nil {
		return -1, false, e
	}
	beat := make(chan bool, 1)
	quit := make(chan bool)
	hung := false
	go func() {
		tm := time.NewTimer(hangAfter)
		for {
			select {
			case <-beat:
				if !tm.Stop() {
					select {
					case <-tm.C:
					default:
					}
				}
				tm.Reset(hangAfter)
			case <-tm.C:
				hung = true
				cmd.Process.Kill()
				return
			case <-quit:
				return
			}
		}
	}()
	rd := bufio.NewReaderSize(pipe, 1<<20)
	cur := int64(-1)
	last = -1
	var hist []uint64
	for {
		line, e := rd.ReadString('\n')
		if e != nil {
			break
		}
		select {
		case beat <- true:
		default:
		}
		if strings.HasPrefix(line, "S ") {
			cur, _ = strconv.ParseInt(strings.TrimSpace(line[2:]), 10, 64)
			o.mu.Lock()
			st := o.stop
			o.mu.Unlock()
			if st {
				cmd.Process.Kill()
				cmd.Wait()
				close(quit)
				return cur, true, nil
			}
			continue
		}
		if strings.HasPrefix(line, "E") {
			clean = true
			continue
		}
		var r RunResult
		if json.Unmarshal([]byte(line), &r) != nil {
			continue
		}
		onRes(&r, hist)
		hist = append(hist, r.I)
		last = int64(r.I)
		cur = -1
	}
	werr := cmd.Wait()
	close(quit)
	if hung && cur < 0 {
		return last, false, fmt.Errorf("watchdog: worker made no progress for %v between runs", hangAfter)
	}
	if hung {
		r := &RunResult{I: uint64(cur), Seed: mixSeed(o.seed, uint64(cur)+1), Class: hangClass, Msg: hangMsg(hangAfter), Fatal: true}
		onRes(r, hist)
		return cur, false, nil
	}
	if cur >= 0 { // died inside a run
		class, msg, ok := crashClass(se.String())
		if !ok {
			return last, false, fmt.Errorf("worker died in run %d (%v): %s", cur, werr, msg)
		}
		r := &RunResult{I: uint64(cur), Seed: mixSeed(o.seed, uint64(cur)+1), Class: class, Msg: msg, Fatal: true}
		onRes(r, hist)
		return cur, false, nil
	}
	return last, clean, nil
}

// A run whose library steps do not end is stopped by its step budget; one that
// stays in a single step (in native code) is stopped after hangAfter, hundreds
// of times what a run takes.
const hangAfter = 60 * time.Second
const hangClass = "hang:no end of one step"

func hangMsg(d time.Duration) string {
	return fmt.Sprintf("the run did not end within %v: a call never returned", d)
}

type tailBuf struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 1<<20 {
		// keep the head (the panic message comes first in a crash) and the tail
		t.b = append(append([]byte{}, t.b[:1<<18]...), t.b[len(t.b)-(1<<18):]...)
	}
	return len(p), nil
}
func (t *tailBuf) String() string { t.mu.Lock(); defer t.mu.Unlock(); return string(t.b) }

// evalReplay runs a replay in a fresh process.
func (o *orch) evalReplay(r *Replay, slot int, verbose bool) (*RunResult, error) {
	dir := filepath.Join(o.tmp, fmt.Sprintf("e%02d", slot))
	sc := filepath.Join(dir, "s")
	os.RemoveAll(dir)
	os.MkdirAll(filepath.Join(sc, "tmp"), 0755)
	b, _ := json.Marshal(r)
	in := filepath.Join(dir, "in.json")
	ioutil.WriteFile(in, b, 0644)
	mm := filepath.Join(dir, "mm")
	args := []string{"one", "-in", in, "-mm", mm, "-scratch", sc}
	if verbose {
		args = append(args, "-v")
	}
	cmd := exec.Command(o.self, args...)
	cmd.Env = append(o.env(), "TMPDIR="+filepath.Join(sc, "tmp"))
	cmd.Dir = dir
	var se tailBuf
	cmd.Stderr = &se
	var so tailBuf
	cmd.Stdout = &so
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	hung := false
	limit := hangAfter
	if len(r.Prefix) > 0 {
		limit = 150 * time.Second
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(limit):
		cmd.Process.Kill()
		<-done
		if len(r.Prefix) > 0 {
			return nil, fmt.Errorf("replay watchdog")
		}
		hung = true
	}
	if verbose {
		fmt.Fprint(os.Stderr, se.String())
	}
	lines := strings.Split(strings.TrimSpace(so.String()), "\n")
	var res RunResult
	if len(lines) > 0 && json.Unmarshal([]byte(lines[len(lines)-1]), &res) == nil && res.Streams != nil {
		return &res, nil
	}
	class, msg, ok := hangClass, hangMsg(limit), true
	if !hung {
		class, msg, ok = crashClass(se.String())
	}
	if !ok {
		return nil, fmt.Errorf("replay process died: %s", msg)
	}
	res = RunResult{I: r.Index, Seed: r.Seed, Class: class, Msg: msg, Fatal: true, Streams: map[string][]uint32{}}
	for _, l := range strings.Split(se.String(), "\n") {
		if strings.HasPrefix(l, "DESC\t") {
			res.Desc = append(res.Desc, l[5:])
		}
	}
	if raw, err := ioutil.ReadFile(mm); err == nil && len(raw) == 4*mmWords*4 {
		words := unsafe.Slice((*uint32)(unsafe.Pointer(&raw[0])), 4*mmWords)
		for i, n := range streamNames {
			w := words[i*mmWords : (i+1)*mmWords]
			e := len(w)
			for e > 0 && w[e-1] == 0 {
				e--
			}
			res.Streams[n] = append([]uint32{}, w[:e]...)
		}
	}
	return &res, nil
}

func cloneStreams(s map[string][]uint32) map[string][]uint32 {
	c := map[string][]uint32{}
	for k, v := range s {
		c[k] = append([]uint32{}, v...)
	}
	return c
}

// settle turns a violating run into a replay file's content: the run is
// repeated in a fresh process, minimised and verified to fail the same way,
// identically, again. What does not is kept unminimised; nil means that the
// violation did not reproduce at all.
func (o *orch) settle(p *Property, v *RunResult, history bool) (*Replay, *RunResult, string) {
	fresh := func() *Replay {
		return &Replay{Property: p.ID, Tier: o.tier, Race: p.Race, Class: v.Class, Msg: v.Msg, BaseSeed: o.seed, Index: v.I, Seed: v.Seed, BySeed: true}
	}
	verify := func(r *Replay) (*RunResult, string) {
		var last *RunResult
		for k := 0; k < 2; k++ {
			res, err := o.evalReplay(r, 0, false)
			if err != nil {
				return nil, err.Error()
			}
			if res.Class != r.Class {
				return nil, "ended with " + strconv.Quote(res.Class)
			}
			if last != nil && last.Hash != res.Hash {
				return nil, "two replays differ"
			}
			last = res
		}
		return last, ""
	}
	r := fresh()
	res, err := o.evalReplay(r, 0, false)
	if err == nil && res.Class == v.Class {
		r.Streams = cloneStreams(res.Streams)
		r.BySeed = false
		mb := 25 * time.Second
		if o.tier == "thorough" {
			mb = 90 * time.Second
		}
		if v.Class == hangClass {
			r.Note = "not minimised: a replay of a run without end takes a minute"
		} else {
			n := o.minimise(r, mb)
			r.Note = fmt.Sprintf("minimised in %d replays", n)
		}
		last, why := verify(r)
		if last != nil {
			return r, last, ""
		}
		r = fresh()
		r.Note = "not minimised: the minimised run " + why
		if last, _ := verify(r); last != nil {
			return r, last, ""
		}
		return nil, nil, fmt.Sprintf("violation %q of run %d (seed %d): %s", v.Class, v.I, v.Seed, why)
	}
	got := fmt.Sprint(err)
	if res != nil {
		got = strconv.Quote(res.Class)
	}
	if history {
		// the failure may need earlier runs in the same process
		h := o.hist[v.I]
		began := time.Now()
		for k := 1; ; k *= 4 {
			if k > len(h) {
				k = len(h)
			}
			r.Prefix = h[len(h)-k:]
			res, err = o.evalReplay(r, 0, false)
			if err == nil && res.Class == v.Class {
				r.Note = "needs earlier runs in the same process"
				if last, _ := verify(r); last != nil {
					return r, last, ""
				}
			}
			if k >= len(h) || time.Since(began) > 5*time.Minute {
				break
			}
		}
	}
	return nil, nil, fmt.Sprintf("violation %q of run %d (seed %d) did not replay in a fresh process: %s", v.Class, v.I, v.Seed, got)
}

func (o *orch) minimise(r *Replay, budget time.Duration) (evals int) {
	deadline := time.Now().Add(budget)
	const par = 8
	// try returns the index of the first candidate that still fails the same way
	try := func(cands []map[string][]uint32) int {
		type rr struct {
			i  int
			ok bool
		}
		best := -1
		for s := 0; s < len(cands) && best < 0; s += par {
			if time.Now().After(deadline) {
				return -1
			}
			e := s + par
			if e > len(cands) {
				e = len(cands)
			}
			ch := make(chan rr, par)
			for i := s; i < e; i++ {
				go func(i int) {
					c := *r
					c.Streams = cands[i]
					c.BySeed, c.Prefix = false, nil
					res, err := o.evalReplay(&c, i-s, false)
					ch <- rr{i, err == nil && res.Class == r.Class}
				}(i)
			}
			for i := s; i < e; i++ {
				x := <-ch
				evals++
				if x.ok && (best < 0 || x.i < best) {
					best = x.i
				}
			}
		}
		return best
	}
	order := []string{"sched", "map", "fault", "work"}
	trim := func(v []uint32) []uint32 {
		e := len(v)
		for e > 0 && v[e-1] == 0 {
			e--
		}
		return v[:e]
	}
	for _, n := range order {
		r.Streams[n] = trim(r.Streams[n])
	}
	for round := 0; round < 4 && time.Now().Before(deadline); round++ {
		progress := false
		for _, n := range order {
			with := func(v []uint32) map[string][]uint32 {
				c := cloneStreams(r.Streams)
				c[n] = trim(v)
				return c
			}
			accept := func(cands []map[string][]uint32) bool {
				if len(cands) == 0 {
					return false
				}
				k := try(cands)
				if k < 0 {
					return false
				}
				r.Streams = cands[k]
				progress = true
				return true
			}
			if len(r.Streams[n]) == 0 {
				continue
			}
			if accept([]map[string][]uint32{with(nil)}) {
				continue
			}
			// truncate
			for accept([]map[string][]uint32{with(append([]uint32{}, r.Streams[n][:len(r.Streams[n])/4]...)), with(append([]uint32{}, r.Streams[n][:len(r.Streams[n])/2]...)), with(append([]uint32{}, r.Streams[n][:len(r.Streams[n])*7/8]...))}) {
			}
			// delete and zero chunks
			for size := len(r.Streams[n]) / 2; size >= 1 && time.Now().Before(deadline); size /= 2 {
				for pos := 0; pos < len(r.Streams[n]) && time.Now().Before(deadline); {
					var cands []map[string][]uint32
					var at []int
					for q := 0; q < 4 && pos+q*size < len(r.Streams[n]); q++ {
						v := r.Streams[n]
						b := pos + q*size
						e := b + size
						if e > len(v) {
							e = len(v)
						}
						cands = append(cands, with(append(append([]uint32{}, v[:b]...), v[e:]...)))
						at = append(at, b)
						allz := true
						for _, x := range v[b:e] {
							if x != 0 {
								allz = false
							}
						}
						if !allz {
							z := append([]uint32{}, v...)
							for i := b; i < e; i++ {
								z[i] = 0
							}
							cands = append(cands, with(z))
							at = append(at, b)
						}
					}
					if !accept(cands) {
						pos += 4 * size
					}
				}
			}
			// shrink values
			for i := 0; i < len(r.Streams[n]) && time.Now().Before(deadline); i++ {
				v := r.Streams[n][i]
				if v == 0 {
					continue
				}
				var cands []map[string][]uint32
				for _, nv := range []uint32{0, 1, v / 2, v - 1} {
					if nv < v {
						z := append([]uint32{}, r.Streams[n]...)
						z[i] = nv
						cands = append(cands, with(z))
					}
				}
				accept(cands)
			}
		}
		if !progress {
			break
		}
	}
	return evals
}

func check(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	budget := fs.Duration("budget", 30*time.Second, "")
	workers := fs.Int("workers", 8, "")
	maxRuns := fs.Uint64("maxruns", 1<<40, "")
	evFile := fs.String("evidence", "", "")
	repDir := fs.String("replays", "", "")
	knownFile := fs.String("known", "", "")
	all := fs.Bool("all", false, "keep going after violations and list their classes")
	fs.Parse(args)
	p := registry[*prop]
	if p == nil {
		fatalf("no such property %s", *prop)
	}
	if p.Race != raceBuild {
		fatalf("property %s needs race=%v build", p.ID, p.Race)
	}
	t0 := time.Now()
	fmt.Printf("check %s tier=%s VERIF_SEED=%d\n", p.ID, *tier, *seed)
	tmp, err := ioutil.TempDir("", "golearn-sim-")
	if err != nil {
		fatalf("%v", err)
	}
	defer os.RemoveAll(tmp)
	self, _ := os.Executable()
	o := &orch{prop: p, tier: *tier, seed: *seed, self: self, tmp: tmp,
		results: map[uint64]runHash{}, sigs: map[uint64]bool{}, shapes: map[uint64]bool{}, nt: map[uint64]bool{},
		faults: map[string]int{}, probes: map[string]int{}, frate: map[string]int{}, hist: map[uint64][]uint64{}, knownN: map[string]int{}}
	if *knownFile != "" {
		b, err := ioutil.ReadFile(*knownFile)
		if err != nil {
			fatalf("%v", err)
		}
		if err := json.Unmarshal(b, &o.known); err != nil {
			fatalf("known findings: %v", err)
		}
	}
	fail := func(f string, a ...interface{}) {
		os.RemoveAll(tmp)
		fatalf(f, a...)
	}
	absorb := o.absorb
	classes := map[string]*RunResult{}
	cn := map[string]int{}
	if *all {
		absorb = func(r *RunResult, h []uint64) {
			if r.Class != "" && o.isKnown(r.Class) == nil {
				o.mu.Lock()
				if classes[r.Class] == nil || len(r.Streams["work"]) < len(classes[r.Class].Streams["work"]) {
					classes[r.Class] = r
				}
				cn[r.Class]++
				o.mu.Unlock()
				c := *r
				c.Class = ""
				r = &c
			}
			o.absorb(r, h)
		}
	}
	W := *workers
	deadline := t0.Add(*budget)
	var wg sync.WaitGroup
	for w := 0; w < W; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			next := uint64(w)
			for {
				left := time.Until(deadline)
				o.mu.Lock()
				st := o.stop
				o.mu.Unlock()
				if left <= 0 || st || next >= *maxRuns {
					return
				}
				last, clean, err := o.runWorker(w, []string{"-prop", p.ID, "-tier", *tier, "-seed", fmt.Sprint(*seed), "-start", fmt.Sprint(next), "-stride", fmt.Sprint(W), "-end", fmt.Sprint(*maxRuns), "-for", left.String()}, absorb)
				if err != nil {
					o.mu.Lock()
					o.errs = append(o.errs, err.Error())
					o.stop = true
					o.mu.Unlock()
					return
				}
				if clean {
					return
				}
				if last < 0 {
					o.mu.Lock()
					o.errs = append(o.errs, "worker ended without a result")
					o.stop = true
					o.mu.Unlock()
					return
				}
				next = uint64(last) + uint64(W)
			}
		}(w)
	}
	wg.Wait()
	explored := time.Since(t0)
	if len(o.errs) > 0 && len(o.viol) == 0 {
		fail("%s", strings.Join(o.errs, "\n"))
	}
	if *all {
		var cl []string
		for c := range classes {
			cl = append(cl, c)
		}
		sort.Strings(cl)
		for _, c := range cl {
			fmt.Printf("CLASS %6d  %s\n        run %d: %s\n", cn[c], c, classes[c].I, classes[c].Msg)
			for _, d := range classes[c].Desc {
				fmt.Printf("          %s\n", d)
			}
		}
	}

	// determinism: re-run a sample in other processes with another grouping
	rechecked, mismatches := 0, 0
	if len(o.viol) == 0 {
		n := uint64(o.runs / 12)
		if n > 4000 {
			n = 4000
		}
		if n < 16 {
			n = 16
		}
		limit := time.Now().Add(*budget/8 + 3*time.Second)
		var rw sync.WaitGroup
		var mism []string
		for w := 0; w < W; w++ {
			rw.Add(1)
			go func(w int) {
				defer rw.Done()
				lo, hi := n*uint64(w)/uint64(W), n*uint64(w+1)/uint64(W)
				for lo < hi && time.Now().Before(limit) {
					last, clean, err := o.runWorker(50+w, []string{"-prop", p.ID, "-tier", *tier, "-seed", fmt.Sprint(*seed), "-start", fmt.Sprint(lo), "-stride", "1", "-end", fmt.Sprint(hi), "-for", time.Until(limit).String(), "-twice"},
						func(r *RunResult, h []uint64) {
							o.mu.Lock()
							defer o.mu.Unlock()
							if want, ok := o.results[r.I]; ok {
								rechecked++
								if got := hashOf(r); want != got {
									mismatches++
									if len(mism) < 5 {
										mism = append(mism, fmt.Sprintf("run %d: %x vs %x", r.I, want, got))
									}
								}
							}
						})
					if err != nil || clean || last < 0 {
						return
					}
					lo = uint64(last) + 1
				}
			}(w)
		}
		rw.Wait()
		if mismatches > 0 {
			fmt.Printf("%s: determinism: %d of %d repeated runs differ: %v\n", p.ID, mismatches, rechecked, mism)
		}
		if mismatches > 2+rechecked/100 {
			fail("determinism check: %d of %d repeated runs differ: %v", mismatches, rechecked, mism)
		}
	}

	exit := 0
	var replayPath string
	if len(o.viol) > 0 {
		sort.Slice(o.viol, func(i, j int) bool { return o.viol[i].I < o.viol[j].I })
		var r *Replay
		var last *RunResult
		var v *RunResult
		var why []string
		for k, x := range o.viol {
			if k >= 12 || k > 0 && time.Since(t0) > 8*time.Minute {
				break
			}
			var msg string
			if r, last, msg = o.settle(p, x, k == 0); r != nil {
				v = x
				break
			}
			why = append(why, msg)
		}
		if r == nil {
			fail("no violation could be reproduced: %s", strings.Join(why, "; "))
		}
		for _, m := range why {
			fmt.Printf("note: %s\n", m)
		}
		r.Hash, r.Desc, r.Msg, r.Faults, r.Steps = last.Hash, last.Desc, last.Msg, last.Faults, last.Steps
		b, _ := json.MarshalIndent(r, "", " ")
		os.MkdirAll(*repDir, 0755)
		replayPath = filepath.Join(*repDir, fmt.Sprintf("%s-%d-%d.json", p.ID, *seed, v.I))
		if err := ioutil.WriteFile(replayPath, b, 0644); err != nil {
			fail("%v", err)
		}
		fmt.Printf("violation class: %s\nmessage: %s\n", r.Class, r.Msg)
		for _, d := range r.Desc {
			fmt.Printf("  %s\n", d)
		}
		exit = 1
	}

	wall := time.Since(t0).Seconds()
	ev := map[string]interface{}{
		"property": p.ID, "tier": *tier, "seed": *seed, "level": p.Level,
		"wall_s": wall, "violations": len(o.viol), "assumptions": p.Assum,
		"coverage": map[string]interface{}{
			"evaluations":               o.runs,
			"distinct_nontrivial":       len(o.nt),
			"rule":                      p.Rule,
			"samples":                   o.samples,
			"runs_per_hour":             int(float64(o.runs) / explored.Seconds() * 3600),
			"exploration_wall_s":        explored.Seconds(),
			"simulated_time":            map[string]interface{}{"library_steps": o.steps, "note": "the library has no clock; logical time is counted in instrumented statements"},
			"faults_injected":           o.faults,
			"probes_hit":                o.probes,
			"distinct_schedules":        len(o.sigs),
			"distinct_workloads":        len(o.shapes),
			"longest_run":               map[string]interface{}{"library_steps": o.maxSteps, "budget_used": float64(o.maxUse) / 1000, "run_index": o.maxAt},
			"scheduler_choices":         o.picks,
			"preemptions":               o.pre,
			"map_walks":                 o.maps,
			"map_walks_permuted":        o.perm,
			"determinism_reruns":        rechecked,
			"determinism_mismatches":    mismatches,
			"workers":                   W,
			"real_components":           p.Real,
			"stub_components":           p.Stub,
			"race_detector_build":       p.Race,
			"known_finding_hits":        o.knownN,
			"processes_replaced":        o.fatalN,
			"distinct_schedule_measure": "hash over every scheduler pick among several runnable tasks and every preemption point",
		},
	}
	if *evFile != "" {
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Dir(*evFile), 0755)
		if err := ioutil.WriteFile(*evFile, append(b, '\n'), 0644); err != nil {
			fail("%v", err)
		}
	}
	for _, k := range o.known {
		if k.Property == p.ID && k.Status == "known" {
			fmt.Printf("KNOWN-FINDING: property=%s %s (hit %d times)\n", p.ID, k.What, o.knownN[k.Class])
		}
	}
	fmt.Printf("%s: %d runs in %.1f s (%.0f/h), %d distinct non-trivial, %d distinct schedules, faults %v, probes %v, determinism %d/%d\n",
		p.ID, o.runs, explored.Seconds(), float64(o.runs)/explored.Seconds()*3600, len(o.nt), len(o.sigs), o.faults, o.probes, rechecked-mismatches, rechecked)
	os.RemoveAll(tmp)
	if exit == 1 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, replayPath)
	}
	os.Exit(exit)
}

func replayCmd(args []string) {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	verbose := fs.Bool("v", false, "")
	fs.Parse(args)
	b, err := ioutil.ReadFile(fs.Arg(0))
	if err != nil {
		fatalf("%v", err)
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		fatalf("%v", err)
	}
	if r.Race != raceBuild {
		fatalf("replay needs race=%v build", r.Race)
	}
	tmp, _ := ioutil.TempDir("", "golearn-sim-")
	self, _ := os.Executable()
	o := &orch{prop: registry[r.Property], tier: r.Tier, seed: r.BaseSeed, self: self, tmp: tmp}
	res, err := o.evalReplay(&r, 0, *verbose)
	os.RemoveAll(tmp)
	if err != nil {
		fatalf("%v", err)
	}
	fmt.Printf("replay: class=%q hash=%d (recorded %q %d)\n  %s\n", res.Class, res.Hash, r.Class, r.Hash, res.Msg)
	for _, d := range res.Desc {
		fmt.Println("  ", d)
	}
	if res.Class == "" {
		os.Exit(0)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, fs.Arg(0))
	os.Exit(1)
}

func main() {
	if len(os.Args) < 2 {
		fatalf("usage: check|worker|one|replay|list")
	}
	switch os.Args[1] {
	case "check":
		check(os.Args[2:])
	case "worker":
		worker(os.Args[2:])
	case "one":
		one(os.Args[2:])
	case "replay":
		replayCmd(os.Args[2:])
	case "list":
		var ids []string
		for id, p := range registry {
			ids = append(ids, fmt.Sprintf("%s race=%v", id, p.Race))
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
	default:
		fatalf("unknown command")
	}
}
