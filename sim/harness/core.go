package main

import (
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
	"unsafe"

	"github.com/sjwhitworth/golearn/linear_models"
	"github.com/sjwhitworth/golearn/verifsim"
)

// Streams of choices.
const (
	sWork = iota
	sFault
	sSched
	sMap
)

// Property is one check.
type Property struct {
	ID    string
	Race  bool   // needs the race-detector build
	Limit uint64 // step budget of one run
	Run   func(t *T)
	Rule  string
	Real  string
	Stub  string
	Assum []string
	Level string
}

var registry = map[string]*Property{}

func register(p *Property) {
	if p.Limit == 0 {
		p.Limit = 30e6
	}
	if p.Level == "" {
		p.Level = "exploration"
	}
	registry[p.ID] = p
}

// T is one simulated run.
type T struct {
	prop     *Property
	tier     string
	seed     uint64
	verbose  bool
	keep     bool
	limit    uint64
	rawNames bool // models may be trained on text that is no valid UTF-8

	hash   uint64
	nlog   int
	desc   []string
	faults map[string]int
	probes map[string]int
	nontri bool
	shape  uint64 // hash of the case (workload), for distinctness

	class string // violation class, "" while fine
	msg   string

	scratch string
	disk    *Disk
	guard   int
}

type stopRun struct{}

// D draws from [0,n) on the workload stream.
func (t *T) D(n int) int {
	if n <= 1 {
		return 0
	}
	v := int(runtime.VerifDraw(sWork, uint32(n)))
	t.shape = (t.shape ^ uint64(v+1)) * 0x100000001b3
	return v
}

// F draws on the fault stream.
func (t *T) F(n int) int {
	if n <= 1 {
		return 0
	}
	return int(runtime.VerifDraw(sFault, uint32(n)))
}

// P is true with probability num/den; the simplest choice is false.
func (t *T) P(num, den int) bool { return t.D(den) >= den-num }

// FP is P on the fault stream.
func (t *T) FP(num, den int) bool { return t.F(den) >= den-num }

func (t *T) R(lo, hi int) int { return lo + t.D(hi-lo+1) }

// Logf adds to the event log (hash only, unless verbose).
func (t *T) Logf(f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	h := fnv.New64a()
	h.Write([]byte(s))
	t.hash = (t.hash*31 + h.Sum64()) ^ t.hash>>17
	t.nlog++
	if t.verbose {
		fmt.Fprintln(os.Stderr, "  |", s)
	}
}

// Descf describes the case (kept for samples and replay files).
func (t *T) Descf(f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	if len(t.desc) < 60 {
		d := s
		if len(d) > 700 {
			d = d[:600] + fmt.Sprintf("... (%d more)", len(d)-600)
		}
		t.desc = append(t.desc, d)
		if t.keep {
			fmt.Fprintf(os.Stderr, "DESC\t%s\n", strings.ReplaceAll(d, "\n", " "))
		}
	}
	t.Logf("%s", s)
}

func (t *T) Fault(kind string) { t.faults[kind]++; t.Logf("fault %s", kind) }
func (t *T) Probe(p string)    { t.probes[p]++ }
func (t *T) Nontrivial()       { t.nontri = true }

// Fail records a violation and ends the run.
func (t *T) Fail(class, f string, a ...interface{}) {
	t.Note(class, f, a...)
	panic(stopRun{})
}

// Note records a violation without ending the run.
func (t *T) Note(class, f string, a ...interface{}) {
	if t.class == "" {
		t.class = class
		t.msg = fmt.Sprintf(f, a...)
	}
	t.Logf("VIOLATION %s", class)
}

// PanicInfo describes a panic that came out of library code.
type PanicInfo struct {
	Val   interface{}
	Where string // innermost library function
	Stack string
}

func (p *PanicInfo) String() string {
	return fmt.Sprintf("panic %v in %s", p.Val, p.Where)
}

// Try runs library code. A panic raised by the library is returned; one raised
// by the harness itself is passed on.
func (t *T) Try(f func()) (pi *PanicInfo) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stopRun); ok {
				panic(r)
			}
			st := string(debug.Stack())
			where, harness := blame(st)
			if harness {
				fmt.Fprintf(os.Stderr, "harness panic: %v\n%s\n", r, st)
				panic(r)
			}
			pi = &PanicInfo{r, where, st}
			if t.verbose {
				fmt.Fprintf(os.Stderr, "library panic: %v\n%s\n", r, st)
			}
		}
	}()
	f()
	return nil
}

// Must runs library code that must not panic.
func (t *T) Must(what string, f func()) {
	if pi := t.Try(f); pi != nil {
		t.Fail("panic:"+what+"@"+pi.Where, "%s: library panicked: %v (in %s)", what, pi.Val, pi.Where)
	}
}

// blame finds the innermost non-standard-library frame below the panic.
func blame(stack string) (fn string, harness bool) {
	lines := strings.Split(stack, "\n")
	start := 0
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") || strings.HasPrefix(l, "runtime.panic") || strings.HasPrefix(l, "runtime.sigpanic") {
			start = i
			break
		}
	}
	for i := start; i+1 < len(lines); i++ {
		l := lines[i]
		if strings.HasPrefix(l, "\t") || l == "" {
			continue
		}
		file := strings.TrimSpace(lines[i+1])
		if strings.Contains(file, "/verifharness/") || strings.Contains(file, "/sim/harness/") {
			return l, true
		}
		if strings.Contains(l, "sjwhitworth/golearn") && !strings.Contains(l, "golearn/verifsim") {
			return shortFn(l), false
		}
	}
	return "?", false
}

func shortFn(l string) string {
	if i := strings.LastIndex(l, "("); i > 0 {
		l = l[:i]
	}
	l = strings.TrimPrefix(l, "github.com/sjwhitworth/golearn/")
	l = strings.TrimPrefix(l, "created by github.com/sjwhitworth/golearn/")
	for {
		i := strings.LastIndex(l, ".func")
		if i < 0 {
			break
		}
		l = l[:i]
	}
	return l
}

// outermost library function on a stack: the operation that never ended.
func outermost(stack string) string {
	best := "?"
	for _, l := range strings.Split(stack, "\n") {
		if strings.HasPrefix(l, "github.com/sjwhitworth/golearn/") && !strings.Contains(l, "golearn/verif") {
			best = shortFn(l)
		}
	}
	return best
}

// RunResult is what a worker reports for one run.
type RunResult struct {
	I       uint64              `json:"i"`
	Seed    uint64              `json:"seed"`
	Class   string              `json:"class,omitempty"`
	Msg     string              `json:"msg,omitempty"`
	Hash    uint64              `json:"hash"`
	Shape   uint64              `json:"shape"`
	Sig     uint64              `json:"sig"`
	Steps   uint64              `json:"steps"`
	Limit   uint64              `json:"limit,omitempty"`
	Log     uint64              `json:"log"`
	Pre     uint64              `json:"pre"`
	Picks   uint64              `json:"picks"`
	Draws   [4]int              `json:"draws"`
	Maps    uint64              `json:"maps"`
	Perm    uint64              `json:"perm"`
	Faults  map[string]int      `json:"faults,omitempty"`
	Probes  map[string]int      `json:"probes,omitempty"`
	Nontri  bool                `json:"nt"`
	Desc    []string            `json:"desc,omitempty"`
	Streams map[string][]uint32 `json:"streams,omitempty"`
	Fatal   bool                `json:"fatal,omitempty"` // worker must be replaced
}

type runCfg struct {
	prop    *Property
	tier    string
	i, seed uint64
	in      [runtime.VerifStreams][]uint32
	replay  bool
	verbose bool
	scratch string
	keep    bool // keep streams and description
	emerg   func(*RunResult)
}

func mixSeed(a, b uint64) uint64 {
	z := a*0x9e3779b97f4a7c15 ^ b*0xd1342543de82ef95
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

var raceSeen int

func runOne(c *runCfg) *RunResult {
	t := &T{prop: c.prop, tier: c.tier, seed: c.seed, verbose: c.verbose, keep: c.keep, limit: c.prop.Limit,
		faults: map[string]int{}, probes: map[string]int{}, scratch: c.scratch, shape: 14695981039346656037}
	base := runtime.NumGoroutine()
	m0, p0 := verifsim.MapRanges, verifsim.Permuted
	verifsim.NoPermute = false
	done := make(chan bool, 1)
	finish := func() *RunResult {
		r := &RunResult{I: c.i, Seed: c.seed, Class: t.class, Msg: t.msg, Shape: t.shape,
			Faults: t.faults, Probes: t.probes, Nontri: t.nontri}
		r.Steps, r.Pre, r.Picks, r.Sig = runtime.VerifStats()
		r.Limit = t.limit
		r.Maps, r.Perm = verifsim.MapRanges-m0, verifsim.Permuted-p0
		for i := range r.Draws {
			r.Draws[i] = len(runtime.VerifOut(i))
		}
		r.Log = t.hash
		r.Hash = t.hash ^ r.Sig ^ r.Steps*0x9e3779b97f4a7c15
		for i := range r.Draws {
			for _, v := range runtime.VerifOut(i) {
				r.Hash = (r.Hash ^ uint64(v)) * 0x100000001b3
			}
		}
		if c.keep || t.class != "" {
			r.Desc = t.desc
			r.Streams = map[string][]uint32{}
			for i, n := range []string{"work", "fault", "sched", "map"} {
				r.Streams[n] = append([]uint32{}, runtime.VerifOut(i)...)
			}
		}
		return r
	}
	limFn := func() {
		st := string(debug.Stack())
		if t.verbose {
			fmt.Fprintln(os.Stderr, st)
		}
		if t.class == "" {
			t.class = "hang:" + outermost(st)
			t.msg = fmt.Sprintf("no progress within %d library steps, in %s", t.limit, outermost(st))
		}
		r := finish()
		r.Fatal = true
		runtime.VerifEnd()
		c.emerg(r)
		syscall.Exit(0)
	}
	runtime.VerifBegin(&runtime.VerifConfig{Seed: c.seed, In: c.in, Replay: c.replay, Limit: c.prop.Limit, LimFn: limFn})
	rand.VerifFilter = nil
	rand.Seed(int64(runtime.VerifDraw(sWork, 1<<30)))
	linear_models.VerifC(uint32(c.seed), -1, -1, -1, 0)
	go func() {
		ok := false
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(stopRun); !is {
					st := string(debug.Stack())
					where, harness := blame(st)
					if harness {
						os.VerifDisk = nil
						runtime.VerifEnd()
						fmt.Fprintf(os.Stderr, "HARNESS-BUG run %d seed %d: %v\n%s\n", c.i, c.seed, r, st)
						syscall.Exit(4)
					}
					t.Note("panic@"+where, "library panicked: %v (in %s)", r, where)
				}
				ok = true
			}
			t.cleanup()
			done <- ok
		}()
		c.prop.Run(t)
		ok = true
	}()
	runtime.VerifWaitIdle()
	fatal := false
	for i := 0; ; i++ {
		select {
		case <-done:
		default:
			if i < 40 {
				// a thread that is just leaving a system call may not have
				// been seen; a task that is blocked stays blocked
				nap()
				runtime.Gosched()
				continue
			}
			t.dead()
			fatal = true
		}
		break
	}
	if !fatal && runtime.NumGoroutine() > base {
		fatal = true
		t.leaked()
	}
	if n := raceErrors(); n > raceSeen {
		raceSeen = n
		t.raced()
		fatal = true
	}
	r := finish()
	r.Fatal = fatal
	runtime.VerifEnd()
	os.VerifDisk = nil
	return r
}

func nap() {
	ts := syscall.Timespec{Nsec: 100000}
	syscall.RawSyscall(syscall.SYS_NANOSLEEP, uintptr(unsafe.Pointer(&ts)), 0, 0)
}

//go:norace
func (t *T) dead() {
	if t.class == "" {
		t.class = "deadlock:" + blockedIn()
		t.msg = "every task is blocked, " + blockedIn()
	}
}

//go:norace
func (t *T) leaked() {
	if t.class == "" {
		t.class = "leaked-task:" + blockedIn()
		t.msg = "the operation returned but left a blocked task behind, " + blockedIn()
	}
}

//go:norace
func (t *T) raced() {
	if t.class == "" {
		t.class = "data-race"
		t.msg = "the race detector reported unsynchronised access to shared memory"
	}
}

// blockedIn lists the library functions in which goroutines are blocked.
func blockedIn() string {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	seen := map[string]bool{}
	var out []string
	for _, g := range strings.Split(string(buf), "\n\n") {
		for _, l := range strings.Split(g, "\n") {
			if strings.HasPrefix(l, "github.com/sjwhitworth/golearn/") && !strings.Contains(l, "golearn/verif") {
				f := shortFn(l)
				if !seen[f] {
					seen[f] = true
					out = append(out, f)
				}
				break
			}
		}
	}
	if len(out) == 0 {
		return "(no library frame)"
	}
	sortStrings(out)
	return strings.Join(out, ",")
}

func (t *T) cleanup() {
	os.VerifDisk = nil
	t.disk = nil
}
