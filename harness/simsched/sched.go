// Package zz_verif_simsched decides which of several caller threads runs.
//
// Exactly one registered thread holds the baton.  The instrumented code calls Y before
// every statement; after a number of calls given by the schedule, Y hands the baton to
// another thread.  All hand-offs happen with the race detector's view of
// synchronisation switched off, so that they do not order the threads' memory accesses.
// Nothing here uses maps, append, closures or allocation on the hand-off paths: those
// would be visible to the race detector.
package zz_verif_simsched

import (
	"reflect"
	"runtime"
)

const maxThreads = 256

const (
	stNone = iota
	stReady
	stRunning
	stBlocked // waiting for Wake(addr)
	stOutside // stuck in a primitive the scheduler does not know
	stDone
)

type thread struct {
	state int
	prim  bool // a caller of the harness, not a goroutine of the code under test
	goid  int64
	addr  uintptr
	ch    chan struct{}
}

type Switch struct{ Step, From, To, Site int }

var (
	on       bool
	threads  [maxThreads]thread
	n        int
	cur      int
	steps    int
	next     int
	meets    int // scheduling points in functions that touch what callers share
	nextMeet int
	bound    int
	points   []int // gap, pick, gap, pick, ...; a negative gap counts meets
	pi       int
	log      [4096]Switch
	logN     int
	switches int
	overrun  bool
	dead     bool
	finished chan struct{}
	live     int
	lastSite int
)

// Configure must be called before any thread is registered.
func Configure(p []int, stepBound int) {
	points, bound = p, stepBound
	finished = make(chan struct{})
	cur = -1
	pi = 0
	aim()
}

// aim sets the next hand-over.
//
//go:norace
func aim() {
	next, nextMeet = 1<<62, 1<<62
	if pi < len(points) {
		if points[pi] >= 0 {
			next = steps + points[pi]
		} else {
			nextMeet = meets - points[pi]
		}
	}
}

// H is a scheduling point where callers may meet.
//
//go:norace
func H(site int) {
	if !on {
		return
	}
	steps++
	meets++
	lastSite = site
	if steps < next && meets < nextMeet && steps < bound {
		return
	}
	slow(site)
}

func Meets() int { return meets }

func Finished() <-chan struct{} { return finished }
func Steps() int                { return steps }
func Overrun() bool             { return overrun }
func Deadlock() bool            { return dead }
func Switches() int             { return switches }
func Log() []Switch {
	out := make([]Switch, logN)
	copy(out, log[:logN])
	return out
}

// Register adds a thread, to be run by a goroutine that calls Begin first.
func Register() int { return register(true) }

//go:norace
func register(prim bool) int {
	if n >= maxThreads {
		panic("simsched: too many threads")
	}
	i := n
	n++
	if prim {
		live++
	}
	threads[i].prim = prim
	threads[i].state = stReady
	threads[i].ch = make(chan struct{}, 1)
	return i
}

//go:norace
func Begin(i int) {
	raceOff()
	threads[i].goid = goid()
	<-threads[i].ch
	raceOn()
}

// Start gives the baton to the first thread.
//
//go:norace
func Start(i int) {
	raceOff()
	on = true
	cur = i
	threads[i].state = stRunning
	threads[i].ch <- struct{}{}
	raceOn()
}

//go:norace
func End(i int) {
	raceOff()
	threads[i].state = stDone
	if threads[i].prim {
		live--
	}
	if live == 0 {
		cur = -1
		finish()
	} else if cur == i {
		pass(0)
	}
	raceOn()
}

// Y is a scheduling point.
//
//go:norace
func Y(site int) {
	if !on {
		return
	}
	steps++
	lastSite = site
	if steps < next && steps < bound {
		return
	}
	slow(site)
}

//go:norace
func slow(site int) {
	raceOff()
	me := goid()
	i := find(me)
	if i < 0 { // not one of ours
		raceOn()
		return
	}
	if i != cur { // it was stuck somewhere, and has come back
		if cur < 0 {
			cur = i
			threads[i].state = stRunning
		} else {
			threads[i].state = stReady
			<-threads[i].ch
		}
		raceOn()
		return
	}
	if steps >= bound {
		overrun = true
		finish()
		<-threads[i].ch // never
	}
	pick := 0
	if pi+1 < len(points) {
		pick = points[pi+1]
	}
	pi += 2
	aim()
	k := ready(pick)
	if k >= 0 {
		threads[i].state = stReady
		give(i, k, site)
		<-threads[i].ch
	}
	raceOn()
}

//go:norace
func find(id int64) int {
	for i := 0; i < n; i++ {
		if threads[i].state != stDone && threads[i].goid == id {
			return i
		}
	}
	return -1
}

//go:norace
func ready(pick int) int { // the pick-th ready thread, -1 if there is none
	c := 0
	for i := 0; i < n; i++ {
		if threads[i].state == stReady {
			c++
		}
	}
	if c == 0 {
		return -1
	}
	if pick < 0 {
		pick = -pick
	}
	pick %= c
	for i := 0; i < n; i++ {
		if threads[i].state == stReady {
			if pick == 0 {
				return i
			}
			pick--
		}
	}
	return -1
}

//go:norace
func give(from, to, site int) {
	switches++
	if logN < len(log) {
		log[logN] = Switch{steps, from, to, site}
		logN++
	}
	cur = to
	threads[to].state = stRunning
	threads[to].ch <- struct{}{}
}

// pass hands the baton on because its holder cannot use it.
//
//go:norace
func pass(pick int) {
	from := cur
	k := ready(pick)
	if k >= 0 {
		give(from, k, lastSite)
		return
	}
	cur = -1
	for i := 0; i < n; i++ {
		if threads[i].state == stOutside {
			return // it may come back
		}
	}
	dead = true
	finish()
}

//go:norace
func finish() {
	if finished != nil {
		select {
		case <-finished:
		default:
			close(finished)
		}
	}
}

// Block parks the calling thread until Wake(addr); false when it is not one of ours.
//
//go:norace
func Block(addr uintptr) bool {
	if !on {
		return false
	}
	raceOff()
	i := find(goid())
	if i < 0 || i != cur {
		raceOn()
		return false
	}
	threads[i].state = stBlocked
	threads[i].addr = addr
	pass(0)
	<-threads[i].ch
	raceOn()
	return true
}

// Wake makes every thread blocked on addr ready.
//
//go:norace
func Wake(addr uintptr) {
	if !on {
		return
	}
	for i := 0; i < n; i++ {
		if threads[i].state == stBlocked && threads[i].addr == addr {
			threads[i].state = stReady
		}
	}
}

// Kick is called when the whole process has come to rest although threads remain: the
// holder of the baton is stuck in a primitive the scheduler does not know.  It reports
// whether there was anything to do.
//
//go:norace
func Kick() bool {
	if cur >= 0 {
		raceOff()
		threads[cur].state = stOutside
		pass(0)
		raceOn()
		return true
	}
	if live > 0 && !dead { // everybody is stuck
		raceOff()
		k := ready(0)
		if k >= 0 {
			give(-1, k, lastSite)
			raceOn()
			return true
		}
		dead = true
		finish()
		raceOn()
	}
	return false
}

// Wrap turns the function of a go statement into one that runs as a registered thread.
func Wrap[F any](f F) F {
	if !on {
		return f
	}
	v := reflect.ValueOf(f)
	i := register(false)
	w := reflect.MakeFunc(v.Type(), func(args []reflect.Value) []reflect.Value {
		Begin(i)
		defer End(i)
		if v.Type().IsVariadic() {
			return v.CallSlice(args)
		}
		return v.Call(args)
	})
	return w.Interface().(F)
}

//go:norace
func Cur() int { return cur }

//go:norace
func CurGoid() int64 {
	if cur < 0 {
		return -1
	}
	return threads[cur].goid
}

//go:norace
func StepsNow() int { return steps }

//go:norace
func goid() int64 {
	var buf [64]byte
	k := runtime.Stack(buf[:], false)
	id := int64(0)
	for i := 10; i < k; i++ { // "goroutine 12 ["
		c := buf[i]
		if c < '0' || c > '9' {
			break
		}
		id = id*10 + int64(c-'0')
	}
	return id
}
