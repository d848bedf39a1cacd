// Package main: runtime monitors for webwire-go. See /verif/DESIGN.md.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

/* ---------- random numbers ---------- */

// Rng is a splitmix64 generator
type Rng struct{ s uint64 }

// NewRng derives a generator from a list of values
func NewRng(vals ...uint64) *Rng {
	r := &Rng{s: 0x9E3779B97F4A7C15}
	for _, v := range vals {
		r.s = mix(r.s ^ mix(v+0x632BE59BD9B4E019))
	}
	return r
}

func mix(z uint64) uint64 {
	z += 0x9E3779B97F4A7C15
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// U64 returns the next value
func (r *Rng) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	return mix(r.s)
}

// N returns a value in [0,n)
func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// Range returns a value in [a,b]
func (r *Rng) Range(a, b int) int { return a + r.N(b-a+1) }

// P is true with a probability of pct percent
func (r *Rng) P(pct int) bool { return r.N(100) < pct }

// Pick picks one of the given ints
func (r *Rng) Pick(v ...int) int { return v[r.N(len(v))] }

// Bytes returns n random bytes
func (r *Rng) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.U64() >> 13)
	}
	return b
}

// Name returns n printable characters
func (r *Rng) Name(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(32 + r.N(95))
	}
	return b
}

// Fork derives an independent generator
func (r *Rng) Fork() *Rng { return &Rng{s: mix(r.U64())} }

/* ---------- report ---------- */

// Violation is one refutation of the property with its witness
type Violation struct {
	Kind    string   `json:"kind"`
	Case    string   `json:"case"`
	Detail  string   `json:"detail"`
	Witness []string `json:"witness,omitempty"`
}

// Report is what a worker hands to the runner
type Report struct {
	Property     string           `json:"property"`
	Evaluations  int              `json:"evaluations"`
	Distinct     []string         `json:"distinct"`
	Counters     map[string]int64 `json:"counters"`
	Samples      []string         `json:"samples"`
	CaseSamples  []string         `json:"case_samples"`
	Violations   []Violation      `json:"violations"`
	Inconclusive []string         `json:"inconclusive"`
	Done         bool             `json:"done"`
	// names whose numbers are reported over all workers
	Sets map[string][]string `json:"sets,omitempty"`
}

// Ctx is the context of one worker
type Ctx struct {
	Seed     uint64
	Shard    int
	Shards   int
	Thorough bool
	Mult     int
	OnlyCase string
	OutDir   string
	Scratch  string

	mu       sync.Mutex
	rep      Report
	distinct map[uint64]struct{}
	curCase  string
	caseSigs []string
	violated int
}

var ctx *Ctx

// Count adds to a counter
func (c *Ctx) Count(name string, n int64) {
	c.mu.Lock()
	c.rep.Counters[name] += n
	c.mu.Unlock()
}

// Max keeps the maximum of a counter
func (c *Ctx) Max(name string, n int64) {
	c.mu.Lock()
	if n > c.rep.Counters[name] {
		c.rep.Counters[name] = n
	}
	c.mu.Unlock()
}

// Distinct adds a name to a set, the size of its union over all workers is
// reported
func (c *Ctx) Distinct(set, name string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.rep.Sets == nil {
		c.rep.Sets = map[string][]string{}
	}
	c.rep.Sets[set] = append(c.rep.Sets[set], name)
}

// Eval counts one evaluated case, sig identifies distinct non-trivial ones
// (empty: trivial)
func (c *Ctx) Eval(sig string) {
	c.mu.Lock()
	c.rep.Evaluations++
	if len(c.caseSigs) < 5 && sig != "" {
		c.caseSigs = append(c.caseSigs, sig)
	}
	if sig != "" && len(c.distinct) < 2000000 {
		h := fnv.New64a()
		h.Write([]byte(sig))
		c.distinct[h.Sum64()] = struct{}{}
	}
	c.mu.Unlock()
}

// Sample records an example case
func (c *Ctx) Sample(format string, a ...interface{}) {
	c.mu.Lock()
	if len(c.rep.Samples) < 3 {
		s := fmt.Sprintf(format, a...)
		if len(s) > 1500 {
			s = s[:1500] + "..."
		}
		c.rep.Samples = append(c.rep.Samples, s)
	}
	c.mu.Unlock()
}

// Case names the case being executed
func (c *Ctx) Case(format string, a ...interface{}) {
	c.mu.Lock()
	c.curCase = fmt.Sprintf(format, a...)
	c.mu.Unlock()
}

// Violate records a violation
func (c *Ctx) Violate(kind string, witness []string, format string, a ...interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.violated++
	same := 0
	for _, v := range c.rep.Violations {
		if v.Kind == kind {
			same++
		}
	}
	if len(c.rep.Violations) >= 30 || same >= 2 {
		return
	}
	if len(witness) > 400 {
		w := append([]string{}, witness[:100]...)
		w = append(w, fmt.Sprintf("... %d events omitted ...", len(witness)-400))
		witness = append(w, witness[len(witness)-300:]...)
	}
	d := fmt.Sprintf(format, a...)
	if len(d) > 6000 {
		d = d[:6000] + "..."
	}
	c.rep.Violations = append(c.rep.Violations, Violation{
		Kind: kind, Case: c.curCase, Detail: d, Witness: witness,
	})
}

// NumViolations returns the number of violations recorded so far
func (c *Ctx) NumViolations() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.rep.Violations)
}

// Enough tells whether going on is pointless
func (c *Ctx) Enough() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.rep.Violations) >= 12 || c.violated >= 60
}

// Inconclusive records that something could not be decided
func (c *Ctx) Inconclusive(format string, a ...interface{}) {
	c.mu.Lock()
	if len(c.rep.Inconclusive) < 10 {
		c.rep.Inconclusive = append(c.rep.Inconclusive,
			c.curCase+": "+fmt.Sprintf(format, a...))
	}
	c.mu.Unlock()
}

func (c *Ctx) flush(done bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.rep.Done = done
	c.rep.Distinct = c.rep.Distinct[:0]
	keys := make([]uint64, 0, len(c.distinct))
	for k := range c.distinct {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
	for _, k := range keys {
		c.rep.Distinct = append(c.rep.Distinct, fmt.Sprintf("%x", k))
	}
	b, err := json.Marshal(&c.rep)
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(c.OutDir+".tmp", b, 0644); err != nil {
		panic(err)
	}
	if err := os.Rename(c.OutDir+".tmp", c.OutDir); err != nil {
		panic(err)
	}
}

/* ---------- event log ---------- */

var eventSeq int64

// Tick returns the next global sequence number
func Tick() int64 { return atomic.AddInt64(&eventSeq, 1) }

// EventLog is a totally ordered list of events
type EventLog struct {
	mu  sync.Mutex
	evs []string
	off bool
}

// Add records an event and returns its sequence number
func (l *EventLog) Add(format string, a ...interface{}) int64 {
	if l.off {
		return Tick()
	}
	l.mu.Lock()
	n := Tick()
	if len(l.evs) < 20000 {
		l.evs = append(l.evs, fmt.Sprintf("%d ", n)+fmt.Sprintf(format, a...))
	}
	l.mu.Unlock()
	return n
}

// Dump returns all events
func (l *EventLog) Dump() []string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return append([]string(nil), l.evs...)
}

/* ---------- quiescence ---------- */

// blocked wait states: a goroutine in one of them runs again only if another
// goroutine (or an armed timer, which the workloads avoid) wakes it
var blockedStates = map[string]bool{
	"chan receive": true, "chan send": true, "select": true,
	"select (no cases)": true, "chan receive (nil chan)": true,
	"chan send (nil chan)": true, "sync.Mutex.Lock": true,
	"sync.RWMutex.Lock": true, "sync.RWMutex.RLock": true,
	"sync.WaitGroup.Wait": true, "sync.Cond.Wait": true,
	"finalizer wait": true, "cleanup wait": true,
}

// isBlocked tells whether a goroutine of a dump can't run on its own. A
// goroutine that triggers a garbage collection while the dump is taken waits
// for a semaphore of the runtime ("semacquire"), this one is running
func isBlocked(g string) bool {
	s := stateOf(g)
	if s == "semacquire" {
		return strings.Contains(g, "sync.runtime_Semacquire")
	}
	return blockedStates[s]
}

var dumpBuf = make([]byte, 1<<20)
var dumpLock sync.Mutex

// goroutines returns the dump of all goroutines of one instant
func goroutines() []string {
	dumpLock.Lock()
	defer dumpLock.Unlock()
	for {
		n := runtime.Stack(dumpBuf, true)
		if n < len(dumpBuf) {
			return strings.Split(string(dumpBuf[:n]), "\n\n")
		}
		dumpBuf = make([]byte, 2*len(dumpBuf))
	}
}

func stateOf(g string) string {
	a := strings.IndexByte(g, '[')
	b := strings.IndexByte(g, ']')
	if a < 0 || b < a {
		return "?"
	}
	s := g[a+1 : b]
	if i := strings.IndexByte(s, ','); i >= 0 {
		s = s[:i]
	}
	return strings.TrimSuffix(s, " (durable)")
}

// idleIgnore marks goroutines that are allowed not to be blocked
func idleIgnore(g string) bool {
	return strings.Contains(g, "os/signal.") || strings.Contains(g, "main.watchdog")
}

// quiescentOnce is true if no goroutine but the caller can run on its own.
// Goroutines that are held go on when everything else is quiet
func quiescentOnce() (bool, []string) {
	active, entries := holds()
	gs := goroutines()
	active2, entries2 := holds()
	if active > 0 || active2 > 0 || entries != entries2 {
		if othersQuiet(gs) {
			wakeHeld()
		}
		return false, gs
	}
	return othersQuiet(gs), gs
}

func othersQuiet(gs []string) bool {
	for i, g := range gs {
		if i == 0 || idleIgnore(g) {
			continue
		}
		if !isBlocked(g) {
			return false
		}
	}
	return true
}

const wallCap = 100 * time.Second

// outcome of waiting
const (
	awaitOK = iota
	awaitStuck
	awaitTimeout
)

// await waits until cond is true or nothing can change anymore
func await(cond func() bool) int {
	for i := 0; i < 50; i++ {
		if cond() {
			return awaitOK
		}
		runtime.Gosched()
	}
	start := time.Now()
	pause := 50 * time.Microsecond
	for {
		if cond() {
			return awaitOK
		}
		if q, _ := quiescentOnce(); q {
			// everything is blocked: the condition can't change anymore
			if cond() {
				return awaitOK
			}
			if q2, _ := quiescentOnce(); q2 && !cond() {
				return awaitStuck
			}
		}
		if time.Since(start) > wallCap {
			return awaitTimeout
		}
		time.Sleep(pause)
		if pause < 2*time.Millisecond {
			pause *= 2
		}
	}
}

// Await requires cond to become true; a violation is recorded if nothing can
// make it true anymore
func Await(log *EventLog, what string, cond func() bool) bool {
	switch await(cond) {
	case awaitOK:
		return true
	case awaitStuck:
		ctx.Violate("no-progress:"+what, witnessWithStacks(log),
			"never happened although nothing is running anymore: %s", what)
		return false
	}
	timedOut("wall-clock cap reached while waiting for: " + what)
	return false
}

// Settle waits until no goroutine can run anymore
func Settle() bool {
	r := await(func() bool { return false })
	if r == awaitTimeout {
		timedOut("wall-clock cap reached while settling")
		return false
	}
	return true
}

func interestingStacks() []string {
	var out []string
	for _, g := range goroutines() {
		if strings.Contains(g, "qbeon/webwire-go") || !isBlocked(g) {
			if len(g) > 1500 {
				g = g[:1500]
			}
			out = append(out, "goroutine: "+g)
			if len(out) > 30 {
				break
			}
		}
	}
	return out
}

func witnessWithStacks(log *EventLog) []string {
	var w []string
	if log != nil {
		w = log.Dump()
	}
	return append(w, interestingStacks()...)
}

/* ---------- main ---------- */

// CheckFn runs the workload of one property
type CheckFn func(c *Ctx)

var checks = map[string]CheckFn{}

// children are sub-programs that checks start as separate processes
var children = map[string]func(args []string){}

// hangs tells whether the main goroutine, and with it everything else, is
// blocked inside of the library
func hangs() string {
	quiet, gs := quiescentOnce()
	if !quiet {
		return ""
	}
	for _, g := range gs {
		if !strings.HasPrefix(g, "goroutine 1 [") || !isBlocked(g) {
			continue
		}
		if i := strings.Index(g, "github.com/qbeon/webwire-go"); i >= 0 {
			f := g[i:]
			if j := strings.IndexByte(f, '\n'); j >= 0 {
				f = f[:j]
			}
			if j := strings.LastIndexByte(f, '('); j >= 0 {
				f = f[:j]
			}
			return f
		}
	}
	return ""
}

// spins returns the function of the library that some goroutine has been
// executing in each of many samples, if there's any
func spins() string {
	var same map[string]string
	for i := 0; i < 20; i++ {
		cur := map[string]string{}
		for _, g := range goroutines() {
			s := stateOf(g)
			if s != "running" && s != "runnable" {
				continue
			}
			lines := strings.Split(g, "\n")
			for k := 1; k < len(lines); k += 2 {
				f := lines[k]
				if strings.HasPrefix(f, "main.") {
					break
				}
				if strings.Contains(f, "github.com/qbeon/webwire-go") && !strings.Contains(f, "/vpoint.") {
					if j := strings.LastIndexByte(f, '('); j >= 0 {
						f = f[:j]
					}
					id := strings.SplitN(lines[0], " [", 2)[0]
					if same == nil || same[id] == f {
						cur[id] = f
					}
					break
				}
			}
		}
		if same = cur; len(same) == 0 {
			return ""
		}
		time.Sleep(100 * time.Millisecond)
	}
	for _, f := range same {
		return f
	}
	return ""
}

// timedOut reports that the time is over: either something of the library
// has been running all the time or there's no verdict
func timedOut(what string) {
	if f := spins(); f != "" {
		ctx.Violate("no-progress:endless loop", witnessWithStacks(nil),
			"%s: %s never ends although it isn't blocked", what, f)
		return
	}
	ctx.Inconclusive("%s\n%s", what, strings.Join(interestingStacks(), "\n"))
}

func watchdog(limit time.Duration) {
	// A call of the main goroutine may hang. Armed timers could still end it,
	// so require it not to change for longer than all timers in use
	const period = 3 * time.Second
	end := time.Now().Add(limit)
	for since, last := 0, ""; time.Now().Before(end); {
		time.Sleep(period)
		f := hangs()
		if f == "" || f != last {
			since, last = 0, f
			continue
		}
		if since++; since >= 10 {
			ctx.Violate("no-progress:hanging call", witnessWithStacks(nil),
				"nothing is running anymore, but a call of %s doesn't return", f)
			ctx.flush(true)
			os.Exit(0)
		}
	}
	timedOut(fmt.Sprintf("worker exceeded its time limit of %s", limit))
	ctx.flush(false)
	os.Exit(3)
}

// zones are the local time zones of the workers, in minutes
var zones = []int{0, 345, -570, 840, 0, -720, 60, -1}

// setZone sets the local time zone, also of child processes
func setZone(n int) {
	off := zones[n%len(zones)]
	os.Setenv("VH_ZONE", strconv.Itoa(n))
	if off != 0 {
		time.Local = time.FixedZone("", off*60)
	} else {
		time.Local = time.UTC
	}
}

func main() {
	if n, err := strconv.Atoi(os.Getenv("VH_ZONE")); err == nil && n >= 0 {
		setZone(n)
	}
	if len(os.Args) > 2 && os.Args[1] == "-child" {
		f := children[os.Args[2]]
		if f == nil {
			panic("unknown child " + os.Args[2])
		}
		f(os.Args[3:])
		return
	}
	name := flag.String("check", "", "property id")
	seed := flag.Uint64("seed", 1, "seed")
	shard := flag.Int("shard", 0, "shard")
	shards := flag.Int("shards", 1, "number of shards")
	thorough := flag.Bool("thorough", false, "thorough tier")
	mult := flag.Int("mult", 1, "factor of the numbers of cases of the quick tier")
	out := flag.String("out", "/dev/stdout", "report file")
	only := flag.String("case", "", "run this case only")
	scratch := flag.String("scratch", "", "scratch directory")
	zone := flag.Int("zone", 0, "number of the local time zone")
	limit := flag.Int("limit", 600, "time limit in seconds")
	flag.Parse()
	setZone(*zone)
	fn := checks[*name]
	if fn == nil {
		fmt.Fprintln(os.Stderr, "unknown check", *name)
		os.Exit(4)
	}
	debug.SetTraceback("all")
	ctx = &Ctx{
		Seed: *seed, Shard: *shard, Shards: *shards, Thorough: *thorough, Mult: *mult,
		OnlyCase: *only, OutDir: *out, Scratch: *scratch,
		distinct: map[uint64]struct{}{},
	}
	ctx.rep.Property = *name
	ctx.rep.Counters = map[string]int64{}
	ctx.flush(false)
	go watchdog(time.Duration(*limit) * time.Second)
	fn(ctx)
	collectVpoints()
	ctx.flush(true)
}

// Cases runs fn for the cases of this shard out of n, each with its own
// generator that depends on the seed and the number of the case only
func (c *Ctx) Cases(group string, n int, fn func(i int, r *Rng)) {
	h := fnv.New64a()
	h.Write([]byte(group))
	for i := 0; i < n; i++ {
		if i%c.Shards != c.Shard && c.OnlyCase == "" {
			continue
		}
		name := fmt.Sprintf("%s/%d", group, i)
		if c.OnlyCase != "" && c.OnlyCase != name {
			continue
		}
		if c.Enough() {
			return
		}
		c.Case("%s", name)
		fmt.Fprintf(os.Stderr, "@case %s\n", name)
		c.mu.Lock()
		c.caseSigs = nil
		before := c.rep.Evaluations
		c.mu.Unlock()
		idSalt, nEnvs = mix(c.Seed^h.Sum64()^uint64(i)<<20), i
		fn(i, NewRng(c.Seed, h.Sum64(), uint64(i)))
		c.mu.Lock()
		if l := c.caseSigs; len(l) > 0 && i/c.Shards == c.Shard {
			// one per worker and group
			c.rep.CaseSamples = append(c.rep.CaseSamples, fmt.Sprintf("case %s: %d evaluations, the first ones: %.600q", name, c.rep.Evaluations-before, l))
		}
		c.mu.Unlock()
	}
}

// Scale returns a in the quick and b in the thorough tier
func (c *Ctx) Scale(a, b int) int {
	if c.Thorough {
		return b
	}
	return a * c.Mult
}
