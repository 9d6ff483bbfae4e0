// Package vsched is the run-time half of the monitors' instrumentation.
//
// cmd/instr writes an instrumented copy of the code under test (never touching
// /repo) in which a call to Point stands before every statement, the sync
// primitives are replaced by the ones of this package, and goroutines started
// by a function literal announce themselves. What a Point does depends on Mode:
//
//	ModeOff         nothing
//	ModeCover       counts that the statement was reached
//	ModePerturb     counts, and now and then yields or sleeps (real scheduling)
//	ModeControlled  counts, and hands control to a seeded scheduler that runs one
//	                goroutine at a time and chooses who continues at every Point
//
// Under ModeControlled a run is a function of its seed, blocked-forever is seen
// exactly (no task can run), and switches can fall between any two statements.
package vsched

import (
	"fmt"
	"math/rand/v2"
	"os"
	"runtime"
	"slices"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

const (
	ModeOff = iota
	ModeCover
	ModePerturb
	ModeControlled
)

// Mode is set once, before any goroutine is started.
var Mode int

// MaxPoints bounds the number of instrumentation points.
const MaxPoints = 1 << 15

// Cov counts, per point, how often it was reached (approximate under races).
var Cov [MaxPoints]uint32

func getg() uintptr

// Point is called before every statement of the instrumented code.
func Point(id int) {
	switch Mode {
	case ModeOff:
		return
	case ModeCover:
		cover(id)
	case ModePerturb:
		cover(id)
		perturb()
	case ModeControlled:
		cover(id)
		if s := active.Load(); s != nil {
			s.point(id)
		}
	}
}

//go:norace
func cover(id int) { Cov[id&(MaxPoints-1)]++ }

// perturb must not create happens-before edges: the global generator of
// math/rand/v2 is per-thread, and Gosched and Sleep are not synchronisation.
func perturb() {
	r := rand.Uint32()
	switch {
	case r&15 == 0:
		runtime.Gosched()
	case r&1023 == 1:
		time.Sleep(time.Duration(20+(r>>10)&63) * time.Microsecond)
	}
}

// Yield is a schedule point for harness code.
func Yield() { Point(0) }

// ---- controlled scheduling -------------------------------------------------

type state uint8

const (
	stReady state = iota
	stRunning
	stBlocked  // waits for a condition on a shimmed primitive
	stDetached // parked in something the scheduler does not know (channel, ...)
	stDone
)

type task struct {
	id      int
	client  bool
	started bool
	exiting bool
	adopted bool
	g       uintptr
	goid    string
	gate    chan struct{}
	state   state
	cond    func() bool
	what    string
	prio    uint64
}

// Options of a controlled run.
type Options struct {
	Seed      uint64
	PCT       bool    // priority-based schedule with Depth-1 change points
	Depth     int     // PCT
	Expect    int     // PCT: expected number of steps
	Stay      float64 // random walk: probability to let the current task go on
	MaxSteps  int     // give up (livelock) after so many steps
	FairAfter int     // uniform random choice after so many steps
}

// Result of a controlled run.
type Result struct {
	Steps        int
	Switches     int
	Hash         uint64 // identifies the schedule
	Deadlock     string // description of the tasks blocked with none able to run
	Panic        string // panic in a task, with its stack
	Fatal        string // misuse the real primitives abort on
	Livelock     bool
	Inconclusive string
	Leaked       int // tasks of the code under test still blocked when the clients were done
	Detached     int // times a task was found parked outside the scheduler's knowledge
}

// Bad reports whether the run itself (not what it computed) failed.
func (r *Result) Bad() string {
	switch {
	case r.Panic != "":
		return "panic: " + r.Panic
	case r.Fatal != "":
		return "fatal: " + r.Fatal
	case r.Deadlock != "":
		return "deadlock: " + r.Deadlock
	case r.Livelock:
		return "livelock: step limit reached"
	}
	return ""
}

type session struct {
	mu      sync.Mutex
	rng     *rand.Rand
	opt     Options
	tasks   []*task
	byG     map[uintptr]*task
	cur     *task
	change  map[int]bool
	low     uint64
	res     Result
	aborted bool
	ended   bool
	begun   bool
	done    chan struct{}
	// monitor's view
	lastSteps int
	idleTicks int
	nextLook  int
	deadLooks int // consecutive looks that found every goroutine parked
}

var active atomic.Pointer[session]

var monitorOnce sync.Once

// Poisoned is set when a run left goroutines behind that may still run.
var Poisoned atomic.Bool

// Run executes the bodies as concurrent clients under one seeded schedule.
func Run(opt Options, bodies ...func()) Result {
	if Mode != ModeControlled {
		panic("vsched.Run outside ModeControlled")
	}
	monitorOnce.Do(func() { go monitor() })
	if opt.MaxSteps == 0 {
		opt.MaxSteps = 3_000_000
	}
	if opt.FairAfter == 0 {
		opt.FairAfter = 200_000
	}
	s := &session{
		rng: rand.New(rand.NewPCG(opt.Seed, 0x9e3779b97f4a7c15)), opt: opt,
		byG: map[uintptr]*task{}, done: make(chan struct{}), change: map[int]bool{},
		low: 1 << 20,
	}
	if opt.PCT {
		e := opt.Expect
		if e < 8 {
			e = 8
		}
		for i := 1; i < opt.Depth; i++ {
			s.change[1+s.rng.IntN(e)] = true
		}
	}
	for range bodies {
		t := s.newTask()
		t.client = true
	}
	if !active.CompareAndSwap(nil, s) {
		panic("vsched: nested Run")
	}
	for i, b := range bodies {
		go func(t *task, b func()) {
			defer s.exit(t)
			s.enter(t)
			b()
		}(s.tasks[i], b)
	}
	s.mu.Lock()
	s.begun = true
	s.dispatch(nil)
	s.mu.Unlock()
	<-s.done
	// The session stays active until every task has run its deferred calls, in
	// which the shimmed primitives do nothing.
	for spin := 1; ; spin++ {
		s.mu.Lock()
		if spin%5000 == 0 {
			alive := map[string]bool{}
			for _, g := range dump() {
				alive[g.id] = true
			}
			for _, t := range s.tasks {
				if t.started && !alive[t.goid] {
					t.state = stDone
				}
			}
		}
		left := 0
		for _, t := range s.tasks {
			switch t.state {
			case stDone:
			case stDetached:
				strayMu.Lock()
				if !strays[t.goid] || len(strays) > 24 {
					Poisoned.Store(true)
				}
				strayMu.Unlock()
			default:
				left++
			}
		}
		if left == 0 {
			s.ended = true
			active.Store(nil)
			res := s.res
			s.mu.Unlock()
			return res
		}
		s.mu.Unlock()
		runtime.Gosched()
	}
}

func (s *session) newTask() *task {
	t := &task{id: len(s.tasks), gate: make(chan struct{}, 1), state: stReady}
	t.prio = s.low + 1 + uint64(s.rng.Uint32())
	s.tasks = append(s.tasks, t)
	return t
}

func goid() string {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	f := strings.Fields(string(b[:n]))
	if len(f) > 1 {
		return f[1]
	}
	return "?"
}

func (s *session) enter(t *task) {
	id := goid()
	s.mu.Lock()
	t.g, t.goid, t.started = getg(), id, true
	s.byG[t.g] = t
	s.mu.Unlock()
	<-t.gate
	s.mu.Lock()
	if s.aborted {
		s.leave(t)
	}
	s.mu.Unlock()
}

// exit is deferred directly, so that it can recover.
func (s *session) exit(t *task) {
	r := recover()
	s.mu.Lock()
	defer s.mu.Unlock()
	if r != nil && s.res.Panic == "" && !s.ended {
		buf := make([]byte, 16384)
		buf = buf[:runtime.Stack(buf, false)]
		s.res.Panic = fmt.Sprintf("%v\n%s", r, buf)
		s.abort()
	}
	delete(s.byG, t.g)
	was := t.state
	t.state = stDone
	if s.ended || s.aborted {
		return
	}
	if was == stRunning && s.cur == t {
		s.dispatch(nil)
	} else if s.cur == nil {
		s.dispatch(nil)
	}
}

// runnable collects the tasks able to run.
func (s *session) runnable(buf []*task) []*task {
	for _, t := range s.tasks {
		if t.state == stReady || (t.state == stBlocked && t.cond()) {
			buf = append(buf, t)
		}
	}
	return buf
}

func (s *session) pick(prev *task) *task {
	var arr [16]*task
	run := s.runnable(arr[:0])
	if len(run) == 0 {
		return nil
	}
	if len(run) == 1 {
		return run[0]
	}
	if s.res.Steps > s.opt.FairAfter {
		return run[s.rng.IntN(len(run))]
	}
	if s.opt.PCT {
		if s.change[s.res.Steps] && prev != nil {
			s.low--
			prev.prio = s.low
		}
		best := run[0]
		for _, t := range run[1:] {
			if t.prio > best.prio {
				best = t
			}
		}
		return best
	}
	if prev != nil && s.rng.Float64() < s.opt.Stay {
		for _, t := range run {
			if t == prev {
				return t
			}
		}
	}
	return run[s.rng.IntN(len(run))]
}

// dispatch hands the token to some runnable task; s.mu is held. It reports
// whether prev itself continues.
func (s *session) dispatch(prev *task) bool {
	n := s.pick(prev)
	if n == nil {
		s.cur = nil
		s.idle()
		return false
	}
	n.state = stRunning
	n.cond = nil
	if n == prev {
		s.cur = n
		return true
	}
	s.res.Switches++
	s.res.Hash = mix(s.res.Hash, uint64(n.id)+1)
	s.cur = n
	n.gate <- struct{}{}
	return false
}

func mix(h, v uint64) uint64 {
	h ^= v + 0x9e3779b97f4a7c15 + h<<6 + h>>2
	h *= 0xff51afd7ed558ccd
	return h ^ h>>33
}

// idle: nobody can run. Decide between finished, deadlocked and unknown.
func (s *session) idle() {
	if s.ended || s.aborted {
		return
	}
	clients, others, detached := 0, 0, 0
	for _, t := range s.tasks {
		switch {
		case t.state == stDone:
		case t.state == stDetached:
			detached++
			if t.client {
				clients++
			}
		case t.client:
			clients++
		default:
			others++
		}
	}
	if detached > 0 || s.unknownWork() {
		return // the monitor looks again
	}
	if clients == 0 {
		s.res.Leaked = others
		s.finish()
		return
	}
	s.deadlock()
}

// consistent: every task that is not done waits for something that is not so.
func (s *session) consistent() bool {
	for _, t := range s.tasks {
		switch t.state {
		case stReady, stRunning:
			return false
		case stBlocked:
			if t.cond == nil || t.cond() {
				return false
			}
		}
	}
	return true
}

func (s *session) deadlock() {
	if !s.consistent() {
		s.res.Inconclusive = "the scheduler lost track of a task"
		s.abort()
		return
	}
	var b strings.Builder
	for _, t := range s.tasks {
		if t.state != stDone {
			fmt.Fprintf(&b, "task %d (client=%v) waits in %s; ", t.id, t.client, t.what)
		}
	}
	s.res.Deadlock = b.String()
	if os.Getenv("VSCHED_STACKS") != "" {
		buf := make([]byte, 1<<16)
		s.res.Deadlock += "\n" + string(buf[:runtime.Stack(buf, true)])
	}
	s.abort()
}

func (s *session) finish() {
	if s.ended {
		return
	}
	// tasks left blocked are told to go
	s.abort()
}

// abort ends the session; every parked task leaves through Goexit.
func (s *session) abort() {
	if s.aborted {
		return
	}
	s.aborted = true
	for _, t := range s.tasks {
		if t.state == stReady || t.state == stBlocked {
			select {
			case t.gate <- struct{}{}:
			default:
			}
		}
	}
	close(s.done)
}

// self finds the calling task; s.mu is held on entry and on return. ok is false
// when the caller should do nothing (the session is over for it).
func (s *session) self() (t *task, ok bool) {
	if s.ended {
		return nil, false
	}
	g := getg()
	t = s.byG[g]
	if t == nil {
		if s.aborted {
			return nil, false
		}
		// a goroutine nobody announced: adopt it
		t = s.newTask()
		t.g, t.started, t.adopted = g, true, true
		s.byG[g] = t
		s.mu.Unlock()
		t.goid = goid()
		s.mu.Lock()
		s.await(t)
	}
	if t.exiting {
		return t, false
	}
	if s.aborted {
		s.leave(t)
	}
	if t.state == stDetached {
		t.state = stReady
		s.await(t)
	}
	return t, true
}

// await parks t (ready) until it is given the token; s.mu held before and after.
func (s *session) await(t *task) {
	if s.cur == nil {
		if s.dispatch(t) {
			return
		}
		if s.aborted {
			s.leave(t)
		}
	}
	s.mu.Unlock()
	<-t.gate
	s.mu.Lock()
	if s.aborted {
		s.leave(t)
	}
}

// leave ends the calling task; s.mu is held and released.
func (s *session) leave(t *task) {
	t.exiting = true
	if t.adopted { // nothing tells when it is gone
		t.state = stDone
		Poisoned.Store(true)
	}
	s.mu.Unlock()
	runtime.Goexit()
}

func (s *session) step(t *task) {
	s.res.Steps++
	if s.res.Steps > s.opt.MaxSteps {
		s.res.Livelock = true
		s.abort()
		s.leave(t)
	}
}

func (s *session) point(int) {
	s.mu.Lock()
	t, ok := s.self()
	if !ok {
		s.mu.Unlock()
		return
	}
	s.step(t)
	s.resched(t, stReady)
	s.mu.Unlock()
}

// resched gives the token away (or keeps it); s.mu held before and after.
func (s *session) resched(t *task, st state) {
	t.state = st
	if s.cur != t {
		// t lost the token (adopted or detached meanwhile)
		if s.cur != nil {
			s.park(t)
			return
		}
	}
	if s.dispatch(t) {
		return
	}
	s.park(t)
}

func (s *session) park(t *task) {
	if s.aborted {
		s.leave(t)
	}
	s.mu.Unlock()
	<-t.gate
	s.mu.Lock()
	if s.aborted {
		s.leave(t)
	}
}

// wait blocks the caller until cond holds, then runs take; with a schedule
// point before. Everything under s.mu.
func (s *session) wait(what string, pre bool, cond func() bool, take func()) {
	// No deferred unlock: the task may leave through Goexit with mu released.
	s.mu.Lock()
	t, ok := s.self()
	if !ok {
		s.mu.Unlock()
		return
	}
	s.step(t)
	if pre {
		s.resched(t, stReady)
	}
	for !cond() {
		t.cond, t.what = cond, what
		s.resched(t, stBlocked)
	}
	t.cond, t.what = nil, ""
	take()
	s.mu.Unlock()
}

// do runs f atomically and then offers a schedule point.
func (s *session) do(f func() string) {
	s.mu.Lock()
	t, ok := s.self()
	if !ok {
		s.mu.Unlock()
		return
	}
	s.step(t)
	if msg := f(); msg != "" {
		if s.res.Fatal == "" {
			buf := make([]byte, 8192)
			buf = buf[:runtime.Stack(buf, false)]
			s.res.Fatal = msg + "\n" + string(buf)
		}
		s.abort()
		s.leave(t)
	}
	s.resched(t, stReady)
	s.mu.Unlock()
}

// Leave is called right before a channel operation: the task gives the token
// away and is looked after by the runtime until its next Point.
func Leave() {
	if Mode != ModeControlled {
		return
	}
	s := active.Load()
	if s == nil {
		return
	}
	s.mu.Lock()
	t, ok := s.self()
	if !ok {
		s.mu.Unlock()
		return
	}
	s.step(t)
	t.state, t.what = stDetached, "[channel operation]"
	if s.cur == t {
		s.dispatch(nil)
	}
	s.mu.Unlock()
}

// LeaveV is Leave for a send whose value takes a call to compute.
func LeaveV[T any](v T) T {
	Leave()
	return v
}

// ---- goroutines started by the code under test ------------------------------

// Tok announces a goroutine about to be started.
type Tok struct {
	s *session
	t *task
}

// Spawn is called right before a go statement.
func Spawn() Tok {
	if Mode != ModeControlled {
		return Tok{}
	}
	s := active.Load()
	if s == nil {
		return Tok{}
	}
	s.mu.Lock()
	if _, ok := s.self(); !ok || s.aborted {
		s.mu.Unlock()
		return Tok{}
	}
	k := Tok{s, s.newTask()}
	s.mu.Unlock()
	return k
}

// Enter is called first thing in the new goroutine.
func Enter(k Tok) {
	if k.s != nil {
		k.s.enter(k.t)
	}
}

// Exit is deferred in the new goroutine.
func Exit(k Tok) {
	if k.s == nil {
		return
	}
	r := recover()
	s, t := k.s, k.t
	s.mu.Lock()
	if r != nil && s.res.Panic == "" && !s.ended {
		buf := make([]byte, 16384)
		buf = buf[:runtime.Stack(buf, false)]
		s.res.Panic = fmt.Sprintf("%v\n%s", r, buf)
		s.abort()
	}
	s.mu.Unlock()
	s.exit(t)
}

// ---- monitor ------------------------------------------------------------------

type gor struct {
	id, state, text string
}

var dumpBuf [1 << 20]byte // used under the session's lock

func dump() []gor {
	buf := dumpBuf[:runtime.Stack(dumpBuf[:], true)]
	var out []gor
	for _, part := range strings.Split(string(buf), "\n\n") {
		rest, ok := strings.CutPrefix(part, "goroutine ")
		if !ok {
			continue
		}
		id, rest, ok := strings.Cut(rest, " ")
		if !ok {
			continue
		}
		if _, err := strconv.Atoi(id); err != nil {
			continue
		}
		i := strings.Index(rest, "[")
		j := strings.Index(rest, "]")
		if i < 0 || j < i {
			continue
		}
		st := rest[i+1 : j]
		if k := strings.IndexByte(st, ','); k >= 0 {
			st = st[:k]
		}
		out = append(out, gor{id, st, part})
	}
	return out
}

// Target is the import path of the code under test.
const Target = "github.com/sonirico/visigoth."

func isTarget(g gor) bool {
	return strings.Contains(g.text, Target) || strings.Contains(g.text, "created by github.com/sonirico/visigoth")
}

// inside reports whether a goroutine is in the scheduler itself.
func inside(text string) bool {
	_, text, _ = strings.Cut(text, "\n")
	for _, l := range strings.Split(text, "\n") {
		if l == "" || l[0] == '\t' || strings.HasPrefix(l, "runtime.") || strings.HasPrefix(l, "sync.") || strings.HasPrefix(l, "internal/") {
			continue
		}
		return strings.HasPrefix(l, "verifharness/vsched.")
	}
	return false
}

func parked(st string) bool {
	switch st {
	case "chan receive", "chan send", "chan receive (nil chan)", "chan send (nil chan)", "select", "select (no cases)",
		"semacquire", "sync.Mutex.Lock", "sync.RWMutex.Lock", "sync.RWMutex.RLock", "sync.Cond.Wait", "sync.WaitGroup.Wait":
		return true
	}
	return false
}

// unknownWork: goroutines of the code under test that no session knows.
func (s *session) unknownWork() bool {
	strayMu.Lock()
	defer strayMu.Unlock()
	if len(strays) > 0 && strayAtWork(dump()) {
		return true
	}
	known := 2 // main and monitor
	if len(strays) > 0 {
		known = 0
	}
	for _, t := range s.tasks {
		if t.state != stDone {
			known++
		}
	}
	if runtime.NumGoroutine() <= known {
		return false
	}
	ids := map[string]bool{}
	for _, t := range s.tasks {
		ids[t.goid] = true
	}
	for _, g := range dump() {
		if isTarget(g) && !ids[g.id] && !inside(g.text) && !strays[g.id] {
			return true
		}
	}
	return false
}

// strays are goroutines that earlier sessions left behind.
var (
	strayMu sync.Mutex
	strays  = map[string]bool{}
)

// strayAtWork: is one of them doing something, perhaps for this session?
func strayAtWork(gs []gor) bool {
	for _, g := range gs {
		if strays[g.id] && !parked(g.state) && !inside(g.text) {
			return true
		}
	}
	return false
}

// patience is how many looks of the monitor a session is kept open for
// goroutines that do nothing when all clients are done.
const patience = 2500

func monitor() {
	var last *session
	for {
		time.Sleep(100 * time.Microsecond)
		s := active.Load()
		if s == nil {
			time.Sleep(400 * time.Microsecond)
			continue
		}
		s.mu.Lock()
		if s != last {
			last = s
			s.lastSteps, s.idleTicks, s.nextLook, s.deadLooks = -1, 0, 3, 0
		}
		if !s.begun || s.ended || s.aborted || s.res.Steps != s.lastSteps {
			s.lastSteps, s.idleTicks, s.nextLook, s.deadLooks = s.res.Steps, 0, 3, 0
			s.mu.Unlock()
			continue
		}
		s.idleTicks++
		if s.idleTicks < s.nextLook {
			s.mu.Unlock()
			continue
		}
		s.nextLook = s.idleTicks + min(s.idleTicks, 200)
		gs := dump()
		strayMu.Lock()
		busy := false
		if len(strays) > 0 {
			busy = strayAtWork(gs)
			gs = slices.DeleteFunc(gs, func(g gor) bool { return strays[g.id] })
		}
		strayMu.Unlock()
		byID := map[string]gor{}
		for _, g := range gs {
			byID[g.id] = g
		}
		if t := s.cur; t != nil {
			g, alive := byID[t.goid]
			switch {
			case !t.started || t.goid == "":
			case !alive: // ended without telling us
				delete(s.byG, t.g)
				t.state = stDone
				s.dispatch(nil)
			case parked(g.state) && !inside(g.text):
				t.state, t.what = stDetached, "["+g.state+"]"
				s.res.Detached++
				s.dispatch(nil)
			}
			s.mu.Unlock()
			continue
		}
		// nobody has the token
		alldead, live := !busy, 0
		for _, t := range s.tasks {
			if t.state == stDetached {
				g, ok := byID[t.goid]
				if !ok {
					delete(s.byG, t.g)
					t.state = stDone
					continue
				}
				live++
				if !parked(g.state) || g.state == "select" || inside(g.text) {
					alldead = false
				}
			}
		}
		for _, g := range gs {
			if isTarget(g) && !inside(g.text) && (!parked(g.state) || g.state == "select") {
				alldead = false
			}
		}
		clients := 0
		for _, t := range s.tasks {
			if t.client && t.state != stDone {
				clients++
			}
		}
		asleep := !busy // none of them is about to do something
		for _, g := range gs {
			if isTarget(g) && !inside(g.text) && !parked(g.state) && g.state != "sleep" {
				asleep = false
			}
		}
		leave := func() {
			strayMu.Lock()
			for _, t := range s.tasks {
				if t.state == stDetached {
					strays[t.goid] = true
				}
			}
			for _, g := range gs {
				if isTarget(g) && !inside(g.text) && !strays[g.id] {
					strays[g.id] = true
					live++
				}
			}
			strayMu.Unlock()
			s.res.Leaked = live
			s.finish()
		}
		if n := s.pick(nil); n != nil {
			s.dispatch(nil)
		} else if clients == 0 && s.idleTicks > patience && asleep {
			leave()
		} else if alldead && s.deadLooks < 3 {
			s.deadLooks++
			s.nextLook = s.idleTicks + 2
		} else if alldead {
			if clients == 0 {
				leave()
			} else {
				s.deadlock()
			}
		} else if s.deadLooks = 0; s.idleTicks > 100_000 {
			s.res.Inconclusive = "tasks parked outside the scheduler's knowledge"
			s.abort()
		}
		s.mu.Unlock()
	}
}
