package hook

import (
	"reflect"
	"runtime"
	"time"
	"unsafe"
)

// --- channels --------------------------------------------------------------
//
// Channels of the code under test are real, and so are the operations on them,
// but a task performs one only when it cannot block: until then it is parked
// like any other task, and which of several ready operations comes next is up
// to the schedule. Every operation is announced (Sel, Send, Recv) and followed
// by After.
//
// An operation on an unbuffered channel needs a partner that is parked at the
// opposite operation. The partner is let go to perform its half at the same
// time and parks again right behind it.

// Case is one operation of a select statement.
type Case struct {
	v    reflect.Value
	p    uintptr
	n    int
	send bool
}

// R is a receive operation.
//
//go:norace
func R(c interface{}) Case { return mkCase(c, false) }

// S is a send operation.
//
//go:norace
func S(c interface{}) Case { return mkCase(c, true) }

//go:norace
func mkCase(c interface{}, send bool) Case {
	v := reflect.ValueOf(c)
	return Case{v: v, p: v.Pointer(), n: v.Cap(), send: send}
}

var never int

// Never parks the task for good: an empty select statement.
//
//go:norace
func Never() {
	if !mine() {
		select {}
	}
	for {
		if s.abort && cur.killd {
			runtime.Goexit()
		}
		Block(unsafe.Pointer(&never))
	}
}

// Recv returns when receiving from c will not block.
//
//go:norace
func Recv(c interface{}) { single(mkCase(c, false)) }

// Send returns when sending to c will not block.
//
//go:norace
func Send(c interface{}) { single(mkCase(c, true)) }

//go:norace
func single(c Case) {
	if !selTask() {
		return
	}
	t := cur
	t.one[0] = c
	sel(t, t.one[:], false)
}

// Sel chooses one of the operations once it will not block. The result is the
// number of operations for the default case, and -1 if the statement has to be
// executed as it is.
//
//go:norace
func Sel(def bool, cases ...Case) int {
	if !selTask() {
		return -1
	}
	return sel(cur, cases, def)
}

//go:norace
func selTask() bool {
	if !active {
		return false
	}
	if s.numExt > 0 && !extReturn() {
		return false
	}
	return getg() == cur.g
}

//go:norace
func sel(t *task, cases []Case, def bool) int {
	for {
		i, partner := pick(t, cases)
		if s.abort {
			if !t.killd {
				kill(t)
			}
			if i >= 0 && partner == nil {
				return i
			}
			if def {
				return len(cases)
			}
			runtime.Goexit()
		}
		if i >= 0 {
			if partner != nil {
				partner.handoff = true
				partner.state = stRunnable
				partner.sel = nil
				s.numSel--
				raceDisable()
				partner.wake <- struct{}{}
				raceEnable()
			}
			return i
		}
		if def {
			return len(cases)
		}
		t.sel = cases
		t.key = nil
		t.state = stBlocked
		s.numSel++
		dispatch()
		raceDisable()
		<-t.wake
		raceEnable()
		if t.handoff {
			return t.pick
		}
		if t.sel != nil {
			t.sel = nil
			s.numSel--
		}
		if s.abort && !t.killd {
			kill(t)
		}
		if t.native {
			t.native = false
			return -1
		}
	}
}

// pick chooses one of the operations that would not block, and the task that
// has to be at the other end.
//
//go:norace
func pick(t *task, cases []Case) (int, *task) {
	n, first := 0, -1
	for i := range cases {
		if ready(t, &cases[i]) {
			if n == 0 {
				first = i
			}
			n++
		}
	}
	if n == 0 {
		return -1, nil
	}
	if n > 1 {
		k := int(splitmix(&s.chanRng) % uint64(n))
		for i := first; ; i++ {
			if ready(t, &cases[i]) {
				if k == 0 {
					first = i
					break
				}
				k--
			}
		}
	}
	c := &cases[first]
	if c.n > 0 || closed(c) {
		return first, nil
	}
	p, j := opposite(t, c)
	if p != nil {
		p.pick = j
	}
	return first, p
}

//go:norace
func ready(t *task, c *Case) bool {
	if c.p == 0 {
		return false
	}
	if c.n > 0 {
		if n := c.v.Len(); c.send && n < c.n || !c.send && n > 0 {
			return true
		}
		return closed(c)
	}
	if p, _ := opposite(t, c); p != nil {
		return true
	}
	return closed(c)
}

// opposite finds a task parked at the other end of an unbuffered channel.
//
//go:norace
func opposite(t *task, c *Case) (*task, int) {
	if s.numSel == 0 {
		return nil, 0
	}
	for i := 0; i < s.n; i++ {
		p := s.tasks[i]
		if p == t || p.state != stBlocked || p.sel == nil {
			continue
		}
		for j := range p.sel {
			if d := &p.sel[j]; d.p == c.p && d.send != c.send {
				return p, j
			}
		}
	}
	return nil, 0
}

// closed reports whether the operation meets a closed channel: it returns, or
// panics, at once.
//
//go:norace
func closed(c *Case) bool {
	if closedOff == 0 {
		if c.send {
			return false
		}
		if c.v.Len() > 0 {
			return false
		}
		raceDisable()
		x, ok := c.v.TryRecv()
		raceEnable()
		return x.IsValid() && !ok
	}
	return *(*uint32)(unsafe.Add(c.v.UnsafePointer(), closedOff)) != 0 && (c.send || c.v.Len() == 0)
}

// closedOff is where the runtime notes that a channel is closed, found by
// closing some (0: not found, and one has to try). Nothing else tells for sure
// without taking part in the channel's traffic.
var closedOff = findClosed()

func findClosed() uintptr {
	const words = 12
	var off uintptr
	for i := 0; i < 3; i++ {
		c := make(chan int, 2*i)
		if i > 0 {
			c <- 1
		}
		p := reflect.ValueOf(c).UnsafePointer()
		var was [words]uint32
		for j := range was {
			was[j] = *(*uint32)(unsafe.Add(p, 4*j))
		}
		close(c)
		var found uintptr
		n := 0
		for j := range was {
			if x := *(*uint32)(unsafe.Add(p, 4*j)); x != was[j] {
				found = uintptr(4 * j)
				if was[j] == 0 && x == 1 {
					n++
				} else {
					n = 99
				}
			}
		}
		runtime.KeepAlive(c)
		if n != 1 || off != 0 && off != found {
			return 0
		}
		off = found
	}
	return off
}

// Close closes a channel.
//
//go:norace
func Close(c interface{}) {
	if active && s.numExt > 0 && extReturn() {
		dirty = true
	}
	closeChan(c)
	if active && s.numSel > 0 && getg() == cur.g {
		pollSel()
	}
}

func closeChan(c interface{}) { reflect.ValueOf(c).Close() }

// After follows an operation.
//
//go:norace
func After() {
	if !active {
		return
	}
	g := getg()
	for i := 0; i < s.n; i++ {
		if t := s.tasks[i]; t.handoff && t.g == g {
			t.handoff = false
			raceDisable()
			<-t.wake
			raceEnable()
			if s.abort && !t.killd {
				kill(t)
			}
			return
		}
	}
	if s.numExt > 0 && !extReturn() {
		return
	}
	if getg() == cur.g {
		pollSel()
	}
}

// pollSel makes the tasks runnable that are parked at an operation which would
// not block any more.
//
//go:norace
func pollSel() {
	if s.numSel == 0 {
		return
	}
	for i := 0; i < s.n; i++ {
		t := s.tasks[i]
		if t.state != stBlocked || t.sel == nil {
			continue
		}
		for j := range t.sel {
			if ready(t, &t.sel[j]) {
				t.state = stRunnable
				t.sel = nil
				s.numSel--
				break
			}
		}
	}
}

// stuckSel is called when nothing can run: it gives goroutines the simulator
// knows nothing about a moment to use a channel.
//
//go:norace
func stuckSel() *task {
	for i := 0; i < 5; i++ {
		pollSel()
		if t := choose(0, true); t != nil {
			return t
		}
		time.Sleep(200 * time.Microsecond)
	}
	return nil
}

// letGo lets the parked tasks execute their operations as they are, the last
// resort when nothing can run.
//
//go:norace
func letGo() {
	raceDisable()
	extMu.Lock()
	cur = &task{id: -1}
	dirty = true
	for i := 0; i < s.n; i++ {
		t := s.tasks[i]
		if t.state == stBlocked && t.sel != nil {
			t.native = true
			t.sel = nil
			s.numSel--
			t.state = stExt
			s.numExt++
			s.res.ExtBlocks++
			t.wake <- struct{}{}
		}
	}
	extMu.Unlock()
	go func() {
		raceDisable()
		dispatch()
		raceEnable()
	}()
	raceEnable()
}
