// Package hook is the deterministic scheduler. Exactly one task runs at a
// time; at every yield point the schedule decides who continues.
//
// All scheduler state is touched only by the goroutine holding the (single)
// right to run. Functions are marked norace, and the hand-over between
// goroutines happens with race synchronisation events disabled, so that in
// race builds the scheduler adds no happens-before edges and unsynchronised
// accesses of the code under test remain visible to the detector.
package hook

import (
	"fmt"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"
)

func getg() uintptr

const (
	stRunnable = iota
	stBlocked
	stExt // inside a real blocking operation
	stDone
)

const (
	maxTasks    = 256
	maxSwitches = 1 << 16
)

// Switch is one scheduling decision: at global step Step/2, task To continues.
// Step is odd if the running task could not continue.
type Switch struct {
	Step int `json:"s"`
	To   int `json:"t"`
}

// Policy decides about preemption.
type Policy struct {
	Mode    string   `json:"mode"` // none, random, pct, quantum, sites, list
	Seed    uint64   `json:"seed"`
	P       float64  `json:"p,omitempty"`       // random, sites: switch probability
	Depth   int      `json:"depth,omitempty"`   // pct: change points
	Len     int      `json:"len,omitempty"`     // pct: assumed number of steps
	Quantum int      `json:"quantum,omitempty"` // quantum
	Frac    int      `json:"frac,omitempty"`    // sites: one site in Frac is hot
	List    []Switch `json:"list,omitempty"`    // list
	MapSeed uint64   `json:"map_seed"`          // order of map iterations
	PoolP   float64  `json:"pool_p,omitempty"`  // probability that a pool forgets an item
	Clock   int      `json:"clock,omitempty"`   // microseconds per step, less one
	Start   int64    `json:"start,omitempty"`   // milliseconds the clock starts at
	JumpAt  int      `json:"jump_at,omitempty"` // step at which the clock jumps
	Jump    int64    `json:"jump,omitempty"`    // by milliseconds
}

type task struct {
	id    int
	name  string
	g     uintptr
	wake  chan struct{}
	state int
	key   unsafe.Pointer
	prio  uint64
	killd bool
	dmn   bool
	goid  int64
	timer int   // step at which the sleeping task wakes, if not before
	due   int64 // what the clock shows then

	sel     []Case // the channel operations the task is parked at
	one     [1]Case
	pick    int
	handoff bool // let go to be the partner of another task's operation
	native  bool // let go to perform the operation as it is
}

// Result describes a finished run.
type Result struct {
	Steps      int
	Switches   []Switch
	Truncated  bool // more switches than recorded
	Overrun    bool // step bound hit
	Deadlock   bool
	Panic      string // panic that escaped a task
	PanicStack string
	Exited     bool // process exit requested
	ExitCode   int
	Hash       uint64 // hash of (step, site, task) at switches
	Tasks      int
	ExtBlocks  int
}

type sched struct {
	pol      Policy
	slept    int64
	rng      uint64
	mapRng   uint64
	poolRng  uint64
	randRng  uint64
	chanRng  uint64
	numSel   int
	tasks    [maxTasks]*task
	n        int
	steps    int
	limit    int
	abort    bool
	res      Result
	sw       []Switch
	nsw      int
	listPos  int
	change   [64]int
	nchange  int
	low      uint64
	next     int
	done     chan struct{}
	finished bool
	live     int // tasks not done, daemons excluded
	numExt   int
	qleft    int
	lastStep int
	killAt   int
	killCode int
	sleepers int // step of the next timer
}

var joinAddr int

var (
	active bool
	s      *sched
	cur    *task
	runMu  sync.Mutex

	// Epoch changes with every run; shims use it to reset their state.
	Epoch int
	swBuf = make([]Switch, maxSwitches)
	// SiteHits counts yields per site across runs (coverage measure).
	SiteHits [1 << 15]uint32
	// PairBits is a bitmap over (site of preempted, site resumed) pairs.
	PairBits [1 << 16]uint8
	lastSite [maxTasks]uint32
)

// Active reports whether a simulation is running.
//
//go:norace
func Active() bool { return active && !s.abort }

//go:norace
func mine() bool { return active && cur != nil && getg() == cur.g }

//go:norace
func splitmix(x *uint64) uint64 {
	*x += 0x9e3779b97f4a7c15
	z := *x
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:norace
func float01(x *uint64) float64 { return float64(splitmix(x)>>11) / (1 << 53) }

// Run executes the given tasks under the policy until all have finished.
// Bodies run as tasks 0..len-1; task 0 starts.
func Run(pol Policy, limit int, names []string, bodies []func()) Result {
	if len(bodies) == 0 {
		return Result{}
	}
	runMu.Lock()
	defer runMu.Unlock()
	if pol.Quantum < 1 {
		pol.Quantum = 1
	}
	if pol.Frac < 1 {
		pol.Frac = 1
	}
	sc := &sched{pol: pol, limit: limit, rng: pol.Seed*2 + 1, mapRng: pol.MapSeed, poolRng: pol.Seed ^ 0xabcdef, randRng: pol.MapSeed ^ 0x5eed, chanRng: pol.MapSeed ^ 0xc4a7, done: make(chan struct{}), sw: swBuf}
	if pol.Mode == "pct" {
		l := pol.Len
		if l < 1 {
			l = 1000
		}
		d := pol.Depth
		if d > len(sc.change) {
			d = len(sc.change)
		}
		for i := 0; i < d; i++ {
			sc.change[i] = 1 + int(splitmix(&sc.rng)%uint64(l))
		}
		sc.nchange = d
		sort.Ints(sc.change[:d])
		sc.low = 1 << 20
	}
	sc.qleft = pol.Quantum
	Epoch++
	s = sc
	for i := range bodies {
		t := newTask(names[i])
		body := bodies[i]
		go start(t, body)
	}
	stop := make(chan struct{})
	go monitor(sc, stop)
	begin()
	<-sc.done
	close(stop)
	RaceAcquire(unsafe.Pointer(&joinAddr))
	end()
	r := sc.res
	r.Steps = sc.steps
	r.Switches = append([]Switch(nil), sc.sw[:sc.nsw]...)
	r.Tasks = sc.n
	return r
}

//go:norace
func begin() {
	active = true
	i := 0
	if s.pol.Mode == "random" || s.pol.Mode == "sites" || s.pol.Mode == "quantum" {
		i = int(splitmix(&s.rng) % uint64(s.n))
	}
	if s.pol.Mode == "pct" {
		for j := 1; j < s.n; j++ {
			if s.tasks[j].prio > s.tasks[i].prio {
				i = j
			}
		}
	}
	if s.pol.Mode == "list" && len(s.pol.List) > 0 && s.pol.List[0].Step == 0 {
		if t := s.pol.List[0].To; t < s.n {
			i = t
		}
		s.listPos = 1
	}
	cur = s.tasks[i]
	record(0, i, 0)
	raceDisable()
	cur.wake <- struct{}{}
	raceEnable()
}

//go:norace
func end() {
	active = false
	cur = nil
}

//go:norace
func newTask(name string) *task {
	if s.n == maxTasks {
		panic("verifsim: too many tasks")
	}
	t := &task{id: s.n, name: name, wake: make(chan struct{}, 1)}
	t.prio = splitmix(&s.rng)>>1 | 1<<40
	lastSite[t.id] = 0
	s.tasks[s.n] = t
	s.n++
	s.live++
	return t
}

//go:norace
func start(t *task, body func()) {
	t.g = getg()
	t.goid = goid()
	raceDisable()
	<-t.wake
	raceEnable()
	defer finish(t)
	if s.abort {
		return
	}
	run(t, body)
}

func run(t *task, body func()) {
	ok := false
	defer func() {
		if ok {
			return
		}
		if r := recover(); r != nil {
			escaped(t, r, debug.Stack())
		}
	}()
	body()
	ok = true
}

//go:norace
func escaped(t *task, r interface{}, stack []byte) {
	if s.res.Panic == "" && !s.abort {
		s.res.Panic = fmt.Sprint(r)
		s.res.PanicStack = string(stack)
	}
	s.abort = true
}

// finish runs on the task's goroutine as its last action.
//
//go:norace
func finish(t *task) {
	if s.numExt > 0 && t.state == stExt {
		extReturn()
	}
	t.state = stDone
	if !t.dmn {
		s.live--
	}
	RaceRelease(unsafe.Pointer(&joinAddr))
	dispatch()
}

// dispatch hands control to another task when the current one cannot go on.
//
//go:norace
func dispatch() {
	if s.live == 0 || s.abort {
		s.abort = true
		// Unwind what is left, one at a time.
		for i := 0; i < s.n; i++ {
			t := s.tasks[i]
			if t.state != stDone && t.state != stExt {
				cur = t
				t.state = stRunnable
				raceDisable()
				t.wake <- struct{}{}
				raceEnable()
				return
			}
		}
		if !s.finished {
			s.finished = true
			close(s.done)
		}
		return
	}
	dirty = true
	settleExt()
	pollSel()
	timers(false)
	t := choose(0, true)
	if t == nil && timers(true) {
		t = choose(0, true)
	}
	if t == nil && s.numSel > 0 {
		if t = stuckSel(); t == nil {
			letGo()
			return
		}
	}
	for stuck := 0; t == nil && s.numExt > 0 && stuck < 5; {
		// Only tasks inside real blocking operations are left.
		if allBlocked() {
			stuck++
		} else {
			stuck = 0
		}
		time.Sleep(time.Millisecond)
		t = choose(0, true)
	}
	if t == nil {
		s.res.Deadlock = true
		s.abort = true
		dispatch()
		return
	}
	record(0, t.id, 1)
	cur = t
	raceDisable()
	t.wake <- struct{}{}
	raceEnable()
}

//go:norace
func record(site uint32, to int, forced int) {
	if s.nsw < len(s.sw) {
		s.sw[s.nsw] = Switch{s.steps*2 + forced, to}
		s.nsw++
	} else {
		s.res.Truncated = true
	}
	h := s.res.Hash
	h = (h ^ uint64(s.steps)) * 0x100000001b3
	h = (h ^ uint64(site)<<16 ^ uint64(to)) * 0x100000001b3
	s.res.Hash = h
	p := (lastSite[to]*2654435761 ^ site*40503) & 0xffff
	PairBits[p] = 1
}

// Y is the yield point inserted before every statement.
//
//go:norace
func Y(site uint32) {
	if !active {
		return
	}
	yield(site)
}

//go:norace
func yield(site uint32) {
	if s.numExt > 0 && !extReturn() {
		return
	}
	t := cur
	if getg() != t.g {
		return
	}
	if s.abort {
		if t.killd {
			return
		}
		kill(t)
	}
	s.steps++
	if site < uint32(len(SiteHits)) {
		SiteHits[site]++
	}
	if s.steps > s.limit {
		s.res.Overrun = true
		s.abort = true
		kill(t)
	}
	if s.killAt > 0 && s.steps >= s.killAt {
		Exit(s.killCode)
	}
	lastSite[t.id] = site
	if s.numExt > 0 {
		settleExt()
	}
	if s.sleepers > 0 {
		timers(false)
	}
	if s.numSel > 0 && s.steps%16 == 0 {
		pollSel()
	}
	if s.live < 2 && s.n < 2 {
		return
	}
	n := choose(site, false)
	if n == nil || n == t {
		return
	}
	record(site, n.id, 0)
	handover(t, n)
}

//go:norace
func kill(t *task) {
	t.killd = true
	runtime.Goexit()
}

//go:norace
func handover(t, n *task) {
	cur = n
	raceDisable()
	n.wake <- struct{}{}
	<-t.wake
	raceEnable()
	if s.abort && !t.killd {
		kill(t)
	}
}

// choose picks the next task; forced means the current one cannot continue.
// It returns nil if there is none (or, unforced, if the current continues).
//
//go:norace
func choose(site uint32, forced bool) *task {
	n := 0
	for i := 0; i < s.n; i++ {
		if s.tasks[i].state == stRunnable && (s.tasks[i] != cur || forced) {
			n++
		}
	}
	if n == 0 {
		return nil
	}
	switch s.pol.Mode {
	case "none":
		if !forced {
			return nil
		}
		return nth(0, forced)
	case "list":
		at := s.steps * 2
		if forced {
			at++
		}
		for s.listPos < len(s.pol.List) && s.pol.List[s.listPos].Step < at {
			s.listPos++
		}
		if s.listPos < len(s.pol.List) && s.pol.List[s.listPos].Step == at {
			to := s.pol.List[s.listPos].To
			s.listPos++
			if to < s.n && s.tasks[to].state == stRunnable && (forced || s.tasks[to] != cur) {
				return s.tasks[to]
			}
		}
		if !forced {
			return nil
		}
		return nth(0, forced)
	case "quantum":
		s.qleft--
		if !forced && s.qleft > 0 {
			return nil
		}
		s.qleft = s.pol.Quantum/2 + int(splitmix(&s.rng)%uint64(s.pol.Quantum+1))
		return nth(int(splitmix(&s.rng)%uint64(n)), forced)
	case "pct":
		for s.next < s.nchange && s.change[s.next] <= s.steps {
			s.next++
			s.low--
			cur.prio = s.low
		}
		var best *task
		for i := 0; i < s.n; i++ {
			t := s.tasks[i]
			if t.state == stRunnable && (best == nil || t.prio > best.prio) {
				best = t
			}
		}
		return best
	case "sites":
		if !forced {
			h := uint64(site) ^ s.pol.Seed
			if splitmix(&h)%uint64(s.pol.Frac) != 0 || float01(&s.rng) >= s.pol.P {
				return nil
			}
		}
		return nth(int(splitmix(&s.rng)%uint64(n)), forced)
	default: // random
		if !forced && float01(&s.rng) >= s.pol.P {
			return nil
		}
		return nth(int(splitmix(&s.rng)%uint64(n)), forced)
	}
}

//go:norace
func nth(k int, forced bool) *task {
	for i := 0; i < s.n; i++ {
		t := s.tasks[i]
		if t.state == stRunnable && (t != cur || forced) {
			if k == 0 {
				return t
			}
			k--
		}
	}
	return nil
}

// Block parks the current task until Wake(key). It returns at once when the
// run is being torn down.
//
//go:norace
func Block(key unsafe.Pointer) {
	t := cur
	if !active || getg() != t.g {
		runtime.Gosched()
		return
	}
	if s.abort {
		if t.killd {
			return
		}
		kill(t)
	}
	t.state = stBlocked
	t.key = key
	dispatch()
	raceDisable()
	<-t.wake
	raceEnable()
	if s.abort && !t.killd {
		kill(t)
	}
}

// Wake makes all tasks blocked on key runnable.
//
//go:norace
func Wake(key unsafe.Pointer) {
	if !active {
		return
	}
	for i := 0; i < s.n; i++ {
		t := s.tasks[i]
		if t.state == stBlocked && t.key == key {
			t.state = stRunnable
			t.key = nil
		}
	}
}

// Others reports whether another (non daemon) task could run now.
//
//go:norace
func Others() bool {
	if !active {
		return false
	}
	for i := 0; i < s.n; i++ {
		if t := s.tasks[i]; t != cur && t.state == stRunnable {
			return true
		}
	}
	return false
}

// Quiesce lets all other tasks run until none of them can.
//
//go:norace
func Quiesce() {
	for mine() && !s.abort {
		dirty = true
		settleExt()
		pollSel()
		if !Others() {
			return
		}
		t := cur
		s.steps++
		if s.steps > s.limit {
			s.res.Overrun = true
			s.abort = true
			kill(t)
		}
		n := quiesceNext()
		if n == nil {
			return
		}
		record(0, n.id, 1)
		handover(t, n)
	}
}

//go:norace
func quiesceNext() *task {
	if s.pol.Mode == "list" {
		if n := choose(0, true); n != nil && n != cur {
			return n
		}
		return nth(0, false)
	}
	return nth(int(splitmix(&s.rng)%64)%countOthers(), false)
}

//go:norace
func countOthers() int {
	n := 0
	for i := 0; i < s.n; i++ {
		if t := s.tasks[i]; t != cur && t.state == stRunnable {
			n++
		}
	}
	if n == 0 {
		n = 1
	}
	return n
}

// Daemon marks the current task as one whose end is not waited for.
//
//go:norace
func Daemon() {
	if mine() && !cur.dmn {
		cur.dmn = true
		s.live--
	}
}

var forever int

// Forever parks the current task until the run ends.
//
//go:norace
func Forever() {
	if !mine() {
		select {}
	}
	Daemon()
	for {
		Block(unsafe.Pointer(&forever))
		if s.abort {
			return
		}
	}
}

// Exit ends the simulated process. It does not return; deferred functions run
// but have no effect on the simulated world.
//
//go:norace
func Exit(code int) {
	t := cur
	if !s.abort {
		s.res.Exited = true
		s.res.ExitCode = code
		s.abort = true
	}
	kill(t)
}

// KillAt ends the simulated process at a step.
//
//go:norace
func KillAt(step, code int) {
	if step > 0 && active {
		s.killAt, s.killCode = step, code
	}
}

// Dead reports whether the simulated process has ended or the run is being
// torn down: effects must be suppressed.
//
//go:norace
func Dead() bool { return active && s.abort }

// Abort ends the run (all tasks are unwound).
//
//go:norace
func Abort() {
	if active {
		s.abort = true
	}
}

// Steps is the logical time of the run.
//
//go:norace
func Steps() int {
	if s == nil {
		return 0
	}
	return s.steps
}

// Clock is the time since some moment in microseconds, as the policy wants it.
//
//go:norace
func Clock() int64 {
	if s == nil {
		return 0
	}
	t := s.slept + s.pol.Start*1000 + int64(s.steps)*int64(s.pol.Clock+1)
	if s.pol.JumpAt > 0 && s.steps >= s.pol.JumpAt {
		t += s.pol.Jump * 1000
	}
	return t
}

// Elapse moves the clock by microseconds, as sleeping does.
//
//go:norace
func Elapse(us int64) {
	if s != nil && us > 0 {
		s.slept += us
	}
}

// Lapse parks the current task for some microseconds of the clock: until the
// clock gets there, or until it jumps there because the machine was slow (at a
// random step), or because nothing else can run.
//
//go:norace
func Lapse(us int64) {
	if !mine() || s.abort {
		Block(nil)
		return
	}
	t := cur
	t.due = Clock() + us
	gap := 1 + int64(1)<<(Rand()%18)
	if rate := int64(s.pol.Clock + 1); rate > 0 && us/rate < gap {
		gap = us/rate + 1
	}
	t.timer = s.steps + int(gap)
	if s.sleepers == 0 || t.timer < s.sleepers {
		s.sleepers = t.timer
	}
	Block(unsafe.Pointer(&t.timer))
	t.timer = 0
	Elapse(t.due - Clock())
}

// timers wakes the sleeping tasks whose step has come or, if the run would be
// stuck otherwise, the one that is due first.
//
//go:norace
func timers(stuck bool) bool {
	if s.sleepers == 0 {
		return false
	}
	var first *task
	s.sleepers = 0
	for i := 0; i < s.n; i++ {
		t := s.tasks[i]
		if t.timer == 0 || t.state != stBlocked {
			continue
		}
		if t.timer <= s.steps {
			t.timer = 0
			Wake(unsafe.Pointer(&t.timer))
			continue
		}
		if first == nil || t.due < first.due {
			first = t
		}
		if s.sleepers == 0 || t.timer < s.sleepers {
			s.sleepers = t.timer
		}
	}
	if stuck && first != nil {
		first.timer = 0
		Wake(unsafe.Pointer(&first.timer))
		if s.sleepers == 0 {
			s.sleepers = s.steps
		}
		return true
	}
	return false
}

// CurID is the id of the running task.
//
//go:norace
func CurID() int {
	if !active || cur == nil {
		return -1
	}
	return cur.id
}

// Go starts f as a task (or goroutine outside a simulation).
//
//go:norace
func Go(f func()) {
	if !mine() || s.abort {
		if active && s.abort {
			return
		}
		go f()
		return
	}
	t := newTask("go")
	go start(t, f)
}

// PoolDrop decides whether a simulated pool forgets an item.
//
//go:norace
func PoolDrop() bool { return s.pol.PoolP > 0 && float01(&s.poolRng) < s.pol.PoolP }

// --- real blocking operations -------------------------------------------
//
// Channel operations of the code under test are real. Before such a statement
// the task enters stExt but keeps the right to run; a helper passes that right
// on if the task turns out to be blocked. When the task reaches its next yield
// point it either still has the right to run or queues for it.

var (
	extMu spin // guards cur and task.state while numExt > 0
	dirty bool // an operation may have unblocked somebody
)

// Pre announces a statement that may really block.
//
//go:norace
func Pre() {
	if !mine() || s.abort {
		return
	}
	t := cur
	raceDisable()
	extMu.Lock()
	t.state = stExt
	s.numExt++
	s.res.ExtBlocks++
	dirty = true
	extMu.Unlock()
	go extHelper(s, t)
	raceEnable()
}

//go:norace
func extHelper(sc *sched, t *task) {
	raceDisable()
	defer raceEnable()
	for i := 0; ; i++ {
		extMu.Lock()
		if sc != s || sc.finished || t.state != stExt || cur != t {
			extMu.Unlock()
			return
		}
		if reallyBlocked(t.goid) {
			cur = &task{id: -1} // nobody; dispatch picks
			extMu.Unlock()
			dispatch()
			return
		}
		extMu.Unlock()
		if i < 20 {
			runtime.Gosched()
		} else {
			time.Sleep(20 * time.Microsecond)
		}
	}
}

// settleExt waits until every task inside a real operation is either blocked
// there or has come back to a yield point.
//
//go:norace
func settleExt() {
	if s.numExt == 0 || !dirty {
		return
	}
	dirty = false
	raceDisable()
	for i := 0; i < s.n; i++ {
		t := s.tasks[i]
		for n := 0; t != cur; n++ {
			extMu.Lock()
			ok := t.state != stExt || reallyBlocked(t.goid)
			extMu.Unlock()
			if ok {
				break
			}
			if n < 20 {
				runtime.Gosched()
			} else {
				time.Sleep(20 * time.Microsecond)
			}
		}
	}
	raceEnable()
}

//go:norace
func allBlocked() bool {
	raceDisable()
	defer raceEnable()
	extMu.Lock()
	defer extMu.Unlock()
	for i := 0; i < s.n; i++ {
		if t := s.tasks[i]; t.state == stExt && !reallyBlocked(t.goid) {
			return false
		}
	}
	return true
}

// extReturn is called at a yield point while some task is inside a real
// operation. It reports whether the caller has the right to run.
//
//go:norace
func extReturn() bool {
	g := getg()
	raceDisable()
	extMu.Lock()
	for i := 0; i < s.n; i++ {
		t := s.tasks[i]
		if t.state != stExt || t.g != g {
			continue
		}
		t.state = stRunnable
		s.numExt--
		dirty = true
		if cur == t {
			extMu.Unlock()
			raceEnable()
			return true
		}
		extMu.Unlock()
		<-t.wake
		raceEnable()
		if s.abort && !t.killd {
			kill(t)
		}
		return true
	}
	ok := cur != nil && cur.g == g
	extMu.Unlock()
	raceEnable()
	return ok
}

// monitor rescues runs whose running task blocks in an operation the
// instrumentation did not announce.
//
//go:norace
func monitor(sc *sched, stop chan struct{}) {
	raceDisable()
	defer raceEnable()
	tick := time.NewTicker(200 * time.Millisecond)
	defer tick.Stop()
	last, same := -1, 0
	for {
		select {
		case <-stop:
			return
		case <-tick.C:
		}
		if sc != s || sc.finished {
			return
		}
		if sc.steps != last {
			last, same = sc.steps, 0
			continue
		}
		if same++; same < 3 {
			continue
		}
		same = 0
		t := cur
		if t == nil || t.state != stRunnable || t.goid == 0 || !reallyBlocked(t.goid) {
			continue
		}
		extMu.Lock()
		if sc != s || sc.finished || sc.steps != last || cur != t || t.state != stRunnable || !reallyBlocked(t.goid) {
			extMu.Unlock()
			continue
		}
		t.state = stExt
		sc.numExt++
		sc.res.ExtBlocks++
		cur = &task{id: -1}
		extMu.Unlock()
		dispatch()
	}
}

// spin is a lock that never parks: a goroutine waiting for it must not look
// blocked.
type spin struct{ v int32 }

//go:norace
func (m *spin) Lock() {
	for !atomic.CompareAndSwapInt32(&m.v, 0, 1) {
		runtime.Gosched()
	}
}

//go:norace
func (m *spin) Unlock() { atomic.StoreInt32(&m.v, 0) }

//go:norace
func goid() int64 {
	var buf [64]byte
	n := runtime.Stack(buf[:], false)
	return parseGoid(buf[:n])
}

func parseGoid(b []byte) int64 {
	var id int64
	for _, c := range b[len("goroutine "):] {
		if c < '0' || c > '9' {
			break
		}
		id = id*10 + int64(c-'0')
	}
	return id
}

var (
	stackBuf = make([]byte, 1<<20)
	stackMu  spin
)

// reallyBlocked reports whether goroutine id waits for something. It must not
// allocate through sync.Pool users: race events are off when it runs.
//
//go:norace
func reallyBlocked(id int64) bool {
	stackMu.Lock()
	n := runtime.Stack(stackBuf, true)
	res := parseBlocked(stackBuf[:n], id)
	stackMu.Unlock()
	return res
}

//go:norace
func parseBlocked(b []byte, id int64) bool {
	const head = "goroutine "
	for i := 0; i+len(head) < len(b); {
		if string(b[i:i+len(head)]) == head {
			j := i + len(head)
			var got int64
			for j < len(b) && b[j] >= '0' && b[j] <= '9' {
				got = got*10 + int64(b[j]-'0')
				j++
			}
			if got == id {
				for j < len(b) && b[j] != '[' {
					j++
				}
				rest := b[min(j+1, len(b)):]
				for _, w := range []string{"chan ", "select", "sync.", "semacquire", "IO wait"} {
					if len(rest) >= len(w) && string(rest[:len(w)]) == w {
						return true
					}
				}
				return false
			}
		}
		for i+1 < len(b) && !(b[i] == '\n' && b[i+1] == '\n') {
			i++
		}
		i += 2
	}
	return false
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// --- map iteration --------------------------------------------------------

// Keys returns the keys of map m as a slice of its key type, in an order
// owned by the simulation (sorted outside of one).
func Keys(m interface{}) interface{} {
	rv := reflect.ValueOf(m)
	keys := orderedKeys(rv)
	out := reflect.MakeSlice(reflect.SliceOf(rv.Type().Key()), len(keys), len(keys))
	for i, k := range keys {
		out.Index(i).Set(k)
	}
	return out.Interface()
}

func orderedKeys(rv reflect.Value) []reflect.Value {
	keys := rv.MapKeys()
	if len(keys) < 2 {
		return keys
	}
	if keys[0].Kind() == reflect.String {
		sort.Slice(keys, func(i, j int) bool { return keys[i].String() < keys[j].String() })
	} else {
		names := make(map[int]string, len(keys))
		idx := make([]int, len(keys))
		for i, k := range keys {
			names[i] = fmt.Sprintf("%T:%v", k.Interface(), k.Interface())
			idx[i] = i
		}
		sort.Slice(idx, func(i, j int) bool { return names[idx[i]] < names[idx[j]] })
		sorted := make([]reflect.Value, len(keys))
		for i, j := range idx {
			sorted[i] = keys[j]
		}
		keys = sorted
	}
	permute(keys)
	return keys
}

//go:norace
func permute(keys []reflect.Value) {
	if !mine() {
		return
	}
	r := splitmix(&s.mapRng)
	n := len(keys)
	perm := make([]int, n)
	for i := range perm {
		perm[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := int(splitmix(&r) % uint64(i+1))
		perm[i], perm[j] = perm[j], perm[i]
	}
	apply(keys, perm)
}

func apply(keys []reflect.Value, perm []int) {
	c := append([]reflect.Value(nil), keys...)
	for i, p := range perm {
		keys[i] = c[p]
	}
}

// MapIter replaces reflect.MapIter.
type MapIter struct {
	m    reflect.Value
	keys []reflect.Value
	i    int
}

// MapRange replaces reflect.Value.MapRange.
func MapRange(rv reflect.Value) *MapIter { return &MapIter{m: rv, keys: orderedKeys(rv), i: -1} }

// MapKeys replaces reflect.Value.MapKeys.
func MapKeys(rv reflect.Value) []reflect.Value { return orderedKeys(rv) }

func (it *MapIter) Next() bool           { it.i++; return it.i < len(it.keys) }
func (it *MapIter) Key() reflect.Value   { return it.keys[it.i] }
func (it *MapIter) Value() reflect.Value { return it.m.MapIndex(it.keys[it.i]) }

// boot tells apart processes: what they draw and see before the first run,
// when package variables are initialised, depends on it.
var boot = func() uint64 {
	n, _ := strconv.ParseUint(os.Getenv("VERIFSIM_BOOT"), 10, 64)
	return n
}()

var (
	idleRand  = 1 + boot*0x9e3779b97f4a7c15
	idleClock = int64(boot * 0x9e3779b97f4a7c15 >> 14) // microseconds
	idleState [2]uint64
)

// idleSnapshot remembers what idle processes have drawn so far.
func idleSnapshot() { idleState = [2]uint64{idleRand, uint64(idleClock)} }

func idleRestore() { idleRand, idleClock = idleState[0], int64(idleState[1]) }

// IdleClock is the clock outside of runs. It advances with every look.
//
//go:norace
func IdleClock() int64 {
	idleClock++
	return idleClock
}

// IdleSleep moves it.
//
//go:norace
func IdleSleep(us int64) { idleClock += us }

// Pid is the number of the simulated process.
//
//go:norace
func Pid() int {
	x := boot + 77
	if s != nil {
		x += s.pol.MapSeed
	}
	return 2 + int(splitmix(&x)%32000)
}

// Live is the number of tasks that are not done.
//
//go:norace
func Live() int {
	if s == nil {
		return 1
	}
	n := 0
	for _, t := range s.tasks[:s.n] {
		if t != nil && t.state != stDone {
			n++
		}
	}
	return n
}

// Rand is the random number generator of the simulated process.
//
//go:norace
func Rand() uint64 {
	if mine() {
		return splitmix(&s.randRng)
	}
	return splitmix(&idleRand)
}
