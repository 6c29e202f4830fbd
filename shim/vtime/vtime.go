// Package vtime stands in for package time in the instrumented build.
// By default it is a pass-through. After Start it is a virtual clock that only
// moves in Advance, which wakes sleepers in deadline order and waits until the
// code they run has come to rest (is asleep again) before it moves on.
package vtime

import (
	"bytes"
	"github.com/crimist/trakx/zz_verif/vsync"
	"runtime"
	"sort"
	"sync"
	"time"
)

type waiter struct {
	at     time.Time
	seq    int
	wake   chan struct{} // goroutine blocked in Sleep
	fire   func(time.Time)
	period time.Duration
	soft   bool // woken through a channel: rest cannot be observed exactly
	dead   bool
}

var (
	mu      sync.Mutex
	on      bool
	now     time.Time
	waiters []*waiter
	seq     int
	active  int // sleepers woken that have not come back to sleep
	rest    = make(chan struct{}, 1)
)

// Start switches to virtual time beginning at t, forgetting earlier sleepers:
// they never run again.
func Start(t time.Time) {
	mu.Lock()
	on, now, waiters, active = true, t, nil, 0
	mu.Unlock()
}

// Stop returns to real time.
func Stop() { mu.Lock(); on = false; waiters = nil; mu.Unlock() }

// Sleepers returns the number of goroutines and timers waiting.
func Sleepers() int { mu.Lock(); defer mu.Unlock(); return len(waiters) }

// WaitSleepers waits (real time) until n are waiting.
func WaitSleepers(n int) bool {
	for i := 0; i < 5000; i++ {
		if Sleepers() >= n {
			return true
		}
		time.Sleep(time.Millisecond)
	}
	return false
}

// Advance moves the clock by d.
func Advance(d time.Duration) bool { return advance(d, true) }

// Jump moves the clock by d at once, as when the machine was suspended: those
// due meanwhile run late.
func Jump(d time.Duration) bool {
	mu.Lock()
	now = now.Add(d)
	mu.Unlock()
	return advance(0, true)
}

// Move moves the clock by d without waiting for those it wakes, who need not
// come back to sleep.
func Move(d time.Duration) { advance(d, false) }

func advance(d time.Duration, resting bool) bool {
	ok := true
	mu.Lock()
	target := now.Add(d)
	for {
		sort.SliceStable(waiters, func(i, j int) bool {
			if waiters[i].at.Equal(waiters[j].at) {
				return waiters[i].seq < waiters[j].seq
			}
			return waiters[i].at.Before(waiters[j].at)
		})
		if len(waiters) == 0 || waiters[0].at.After(target) {
			break
		}
		w := waiters[0]
		waiters = waiters[1:]
		if w.at.After(now) {
			now = w.at
		}
		if w.period > 0 {
			w.at = w.at.Add(w.period)
			seq++
			w.seq = seq
			waiters = append(waiters, w)
		}
		if w.wake != nil {
			if !resting {
				close(w.wake)
				continue
			}
			active++
			close(w.wake)
			select {
			case <-rest:
			default:
			}
			mu.Unlock()
			select {
			case <-rest:
			case <-time.After(10 * time.Second):
			}
			mu.Lock()
			if active > 0 {
				active, ok = 0, false
			}
		} else {
			mu.Unlock()
			w.fire(now)
			if w.soft && resting && !quiet() {
				ok = false
			}
			mu.Lock()
		}
	}
	if target.After(now) {
		now = target
	}
	mu.Unlock()
	return ok
}

var stacks = make([]byte, 1<<20)

// quiet waits until every other goroutine is blocked, on others or on input:
// whoever was woken through a channel has then done what it had to do.
func quiet() bool {
	for start := time.Now(); time.Since(start) < 10*time.Second; {
		runtime.Gosched()
		n := runtime.Stack(stacks, true)
		if n == len(stacks) && n < 1<<26 {
			stacks = make([]byte, 2*n)
			continue
		}
		busy := false
		for i, g := range bytes.Split(stacks[:n], []byte("\n\ngoroutine ")) {
			if i == 0 {
				continue // this one
			}
			line, rest, _ := bytes.Cut(g, []byte("\n"))
			_, state, _ := bytes.Cut(line, []byte("["))
			is := func(l ...string) bool {
				for _, x := range l {
					if bytes.HasPrefix(state, []byte(x)) {
						return true
					}
				}
				return false
			}
			switch {
			case is("chan", "select", "sync.", "finalizer", "cleanup", "force gc", "GC sweep", "GC scavenge", "GC worker (idle)"):
			case is("semacquire"):
				// the runtime's own, but for closing a file in use
				busy = busy || !bytes.Contains(rest, []byte("internal/poll."))
			case is("syscall"):
				// the runtime waits there for signals, for good
				busy = busy || !bytes.Contains(rest, []byte("signal_recv"))
			case is("IO wait"):
				// waiting for the database server to answer
				busy = busy || bytes.Contains(rest, []byte("database/sql."))
			case is("sleep"):
				// really sleeping: the scheduling noise of vsync, or somebody polling
				busy = busy || bytes.Contains(rest, []byte("vsync.Yield"))
			default: // running, runnable, helping the garbage collector, ...
				busy = true
			}
		}
		if !busy {
			return true
		}
		time.Sleep(20 * time.Microsecond)
	}
	return false
}

// atRest notes that the woken goroutine has come to wait again.
func atRest() {
	if active > 0 {
		active--
		if active == 0 {
			select {
			case rest <- struct{}{}:
			default:
			}
		}
	}
}

func add(d time.Duration, w *waiter) {
	seq++
	w.seq = seq
	w.at = now.Add(d)
	waiters = append(waiters, w)
}

func Now() time.Time {
	mu.Lock()
	defer mu.Unlock()
	if on {
		return now
	}
	return time.Now()
}
func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

func Sleep(d time.Duration) {
	if vsync.Active() {
		// under the scheduler a sleeper wakes once, at any time, and then never again
		vsync.Doze()
		return
	}
	mu.Lock()
	if !on {
		mu.Unlock()
		time.Sleep(d)
		return
	}
	if d <= 0 {
		mu.Unlock()
		runtime.Gosched()
		return
	}
	w := &waiter{wake: make(chan struct{})}
	add(d, w)
	atRest()
	mu.Unlock()
	<-w.wake
}

// ---- channel based timers

type Timer struct {
	C    <-chan time.Time
	w    *waiter
	real *time.Timer
	c    chan time.Time
	f    func()
}

func send(c chan time.Time) func(time.Time) {
	return func(t time.Time) {
		select {
		case c <- t:
		default:
		}
	}
}

// scheduled is a timer under the scheduler: it fires once for a thread, at any
// time, and then never again.
func scheduled() *Timer {
	vsync.Doze()
	c := make(chan time.Time, 1)
	c <- Now()
	return &Timer{C: c, c: c, w: &waiter{}}
}

func NewTimer(d time.Duration) *Timer {
	if vsync.Active() {
		return scheduled()
	}
	mu.Lock()
	defer mu.Unlock()
	if !on {
		t := time.NewTimer(d)
		return &Timer{C: t.C, real: t}
	}
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c, w: &waiter{soft: true, fire: send(c)}}
	atRest()
	add(d, t.w)
	return t
}

func AfterFunc(d time.Duration, f func()) *Timer {
	if vsync.Active() {
		vsync.Go(f)
		return &Timer{f: f, w: &waiter{}}
	}
	mu.Lock()
	defer mu.Unlock()
	if !on {
		return &Timer{real: time.AfterFunc(d, f)}
	}
	t := &Timer{f: f, w: &waiter{fire: func(time.Time) { f() }}}
	add(d, t.w)
	return t
}

func remove(w *waiter) bool {
	for i, x := range waiters {
		if x == w {
			waiters = append(append([]*waiter(nil), waiters[:i]...), waiters[i+1:]...)
			return true
		}
	}
	return false
}

func (t *Timer) Stop() bool {
	if t.real != nil {
		return t.real.Stop()
	}
	mu.Lock()
	defer mu.Unlock()
	return remove(t.w)
}

func (t *Timer) Reset(d time.Duration) bool {
	if t.real != nil {
		return t.real.Reset(d)
	}
	if vsync.Active() && t.c != nil {
		vsync.Doze()
		send(t.c)(Now())
		return false
	}
	mu.Lock()
	defer mu.Unlock()
	was := remove(t.w)
	add(d, t.w)
	return was
}

func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

type Ticker struct {
	C    <-chan time.Time
	w    *waiter
	real *time.Ticker
}

func NewTicker(d time.Duration) *Ticker {
	if vsync.Active() {
		c := make(chan time.Time, 1)
		c <- Now() // the first tick; for the next the thread waits in vain
		return &Ticker{C: c, w: &waiter{}}
	}
	mu.Lock()
	defer mu.Unlock()
	if !on {
		t := time.NewTicker(d)
		return &Ticker{C: t.C, real: t}
	}
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, w: &waiter{soft: true, fire: send(c), period: d}}
	add(d, t.w)
	return t
}
func (t *Ticker) Stop() {
	if t.real != nil {
		t.real.Stop()
		return
	}
	mu.Lock()
	defer mu.Unlock()
	remove(t.w)
}
func (t *Ticker) Reset(d time.Duration) {
	if t.real != nil {
		t.real.Reset(d)
		return
	}
	mu.Lock()
	defer mu.Unlock()
	remove(t.w)
	if vsync.Active() {
		return
	}
	t.w.period = d
	add(d, t.w)
}
func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }

// ---- the rest of package time

type (
	Time       = time.Time
	Duration   = time.Duration
	Month      = time.Month
	Weekday    = time.Weekday
	Location   = time.Location
	ParseError = time.ParseError
)

const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour

	Layout      = time.Layout
	ANSIC       = time.ANSIC
	UnixDate    = time.UnixDate
	RFC822      = time.RFC822
	RFC1123     = time.RFC1123
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
	Kitchen     = time.Kitchen
	Stamp       = time.Stamp
	DateTime    = time.DateTime
	DateOnly    = time.DateOnly
	TimeOnly    = time.TimeOnly

	January   = time.January
	February  = time.February
	March     = time.March
	April     = time.April
	May       = time.May
	June      = time.June
	July      = time.July
	August    = time.August
	September = time.September
	October   = time.October
	November  = time.November
	December  = time.December
	Sunday    = time.Sunday
	Monday    = time.Monday
)

var (
	UTC   = time.UTC
	Local = time.Local

	Unix                   = time.Unix
	UnixMilli              = time.UnixMilli
	UnixMicro              = time.UnixMicro
	Date                   = time.Date
	Parse                  = time.Parse
	ParseInLocation        = time.ParseInLocation
	ParseDuration          = time.ParseDuration
	LoadLocation           = time.LoadLocation
	LoadLocationFromTZData = time.LoadLocationFromTZData
	FixedZone              = time.FixedZone
)
