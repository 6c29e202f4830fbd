// Package vsync stands in for package sync in the instrumented build.
//
// By default its locks are the real ones. Inside Run it is a deterministic
// scheduler: the given functions run as threads of which exactly one executes
// at a time, control changes hands only at the operations of this package, of
// vatomic, and at the Yield calls the instrumenter puts between statements, and
// a chooser decides every hand-over. Blocked threads are known exactly, so a
// deadlock is detected rather than timed out.
package vsync

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"reflect"
	"runtime"
	"runtime/debug"
	"sync/atomic"
	"time"
)

type thread struct {
	id     int
	gid    string
	resume chan struct{}
	done   bool
	block  func() bool // non-nil: blocked until it returns true
	why    string
	dozed  bool
	away   bool // sleeps for good: not waited for
	stray  bool // it may come back
}

type Outcome struct {
	Deadlock string // description of who is blocked on what
	Panic    string // panic value and stack of a thread
	Stuck    bool   // a thread blocked outside the scheduler's view: no verdict
	Steps    int
	Trace    []Decision
}

// Decision is one point where more than one thread could run.
type Decision struct {
	Enabled []int // thread ids, the running thread first when it is enabled
	CurOn   bool  // Enabled[0] is the running thread
	Chosen  int   // index into Enabled
}

type sched struct {
	threads []*thread
	cur     *thread
	choose  func(step int, enabled []int, curOn bool) int
	out     Outcome
	fin     chan struct{}
	over    bool
	steps   atomic.Int64 // as Steps, for the watch
	strays  atomic.Int32 // threads that wait for something the scheduler does not see
}

// gid is the number of the running goroutine.
func gid() string {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	f := bytes.Fields(b[:n])
	if len(f) < 2 {
		return ""
	}
	return string(f[1])
}

// self is the calling thread. One that had strayed waits for its turn first.
func (sc *sched) self() *thread {
	if sc.strays.Load() == 0 {
		return sc.cur
	}
	id := gid()
	for _, t := range sc.threads {
		if t.gid == id {
			if t.stray {
				t.stray = false
				sc.strays.Add(-1)
				t.away, t.block = false, nil
				<-t.resume
			}
			return t
		}
	}
	return sc.cur
}

// strayed tells whether the running thread waits in a channel operation.
func (sc *sched) strayed() bool {
	b := make([]byte, 1<<20)
	b = b[:runtime.Stack(b, true)]
	_, g, ok := bytes.Cut(b, []byte("goroutine "+sc.cur.gid+" ["))
	if !ok {
		return false
	}
	for _, st := range []string{"chan receive", "chan send", "select", "sync.Cond.Wait"} {
		if bytes.HasPrefix(g, []byte(st)) {
			line, _, _ := bytes.Cut(g, []byte("\n\n"))
			return !bytes.Contains(line, []byte("vsync.(*sched)"))
		}
	}
	return false
}

// Chaos, if positive, has Yield outside Run give way that often in a thousand.
var Chaos atomic.Int32

// Naps has it sleep so much more often in a thousand.
var Naps atomic.Int32

var s *sched // non-nil while Run is active

// Active tells whether the scheduler is running.
func Active() bool { return s != nil }

// Cur is the id of the running thread.
func Cur() int {
	if s == nil {
		return -1
	}
	return s.cur.id
}

// Run executes fs as threads 0..n-1 under chooser.
func Run(choose func(step int, enabled []int, curOn bool) int, fs ...func()) Outcome {
	sc := &sched{choose: choose, fin: make(chan struct{})}
	s = sc
	for _, f := range fs {
		sc.spawn(f)
	}
	next := sc.pick(nil)
	sc.cur = next
	next.resume <- struct{}{}
	progress, seen, since := int64(-1), int64(-1), 0
	for {
		select {
		case <-sc.fin:
			s = nil
			return sc.out
		case <-time.After(3 * time.Millisecond):
			if n := sc.steps.Load(); n != seen {
				seen, since = n, 0
				continue
			}
			if since++; since%4 == 1 && sc.strayed() {
				t := sc.cur
				t.stray, t.away = true, true
				t.block, t.why = func() bool { return false }, "channel"
				sc.strays.Add(1)
				sc.switchFrom(t, true)
				continue
			}
			if since < 1000 {
				continue
			}
			if sc.steps.Load() == progress {
				sc.over = true
				sc.out.Stuck = true
				s = nil
				return sc.out
			}
			progress = sc.steps.Load()
		}
	}
}

func (sc *sched) spawn(f func()) *thread {
	t := &thread{id: len(sc.threads), resume: make(chan struct{}, 1)}
	sc.threads = append(sc.threads, t)
	go func() {
		<-t.resume
		t.gid = gid()
		defer func() {
			if r := recover(); r != nil {
				if sc.out.Panic == "" {
					sc.out.Panic = fmt.Sprintf("%v\n%s", r, debug.Stack())
				}
				sc.finish()
				return
			}
		}()
		f()
		sc.self()
		t.done = true
		sc.switchFrom(t, true)
	}()
	return t
}

func (sc *sched) finish() {
	if !sc.over {
		sc.over = true
		close(sc.fin)
	}
}

// pick selects the next thread to run; nil if there is none.
func (sc *sched) pick(cur *thread) *thread {
	var en []int
	curOn := false
	enabled := func(t *thread) bool {
		if t.done {
			return false
		}
		return t.block == nil || t.block()
	}
	if cur != nil && enabled(cur) {
		curOn = true
		en = append(en, cur.id)
	}
	for _, t := range sc.threads {
		if t != cur && enabled(t) {
			en = append(en, t.id)
		}
	}
	sc.out.Steps++
	sc.steps.Add(1)
	if len(en) == 0 {
		return nil
	}
	c := 0
	if len(en) > 1 {
		c = sc.choose(len(sc.out.Trace), en, curOn)
		if c < 0 || c >= len(en) {
			c = 0
		}
		sc.out.Trace = append(sc.out.Trace, Decision{Enabled: en, CurOn: curOn, Chosen: c})
	}
	return sc.threads[en[c]]
}

// switchFrom lets the chooser decide who runs next; t blocks unless chosen.
func (sc *sched) switchFrom(t *thread, ending bool) {
	next := sc.pick(t)
	if next == nil {
		all := true
		desc := ""
		for _, x := range sc.threads {
			if !x.done && !x.away {
				all = false
				desc += fmt.Sprintf("thread %d blocked in %s; ", x.id, x.why)
			}
		}
		if !all {
			sc.out.Deadlock = desc
		}
		sc.finish()
		if ending {
			return
		}
		select {} // abandoned
	}
	if next == t {
		return
	}
	sc.cur = next
	next.resume <- struct{}{}
	if ending {
		return
	}
	<-t.resume
}

// Yield is a scheduling point.
func Yield() {
	sc := s
	if sc == nil || sc.over {
		if c := Chaos.Load(); c > 0 {
			switch x := rand.Uint32N(1000); {
			case x < uint32(c):
				runtime.Gosched()
			case x >= 999-uint32(Naps.Load()):
				time.Sleep(50 * time.Microsecond)
			}
		}
		return
	}
	sc.switchFrom(sc.self(), false)
}

// wait blocks the running thread until cond holds. cond must be free of side effects.
func wait(why string, cond func() bool) {
	sc := s
	t := sc.self()
	sc.switchFrom(t, false)
	for !cond() {
		t.block, t.why = cond, why
		sc.switchFrom(t, false)
	}
	t.block, t.why = nil, ""
}

// Block is wait for the harness: a thread of Run waits for cond.
func Block(why string, cond func() bool) {
	if s == nil {
		panic("vsync.Block outside Run")
	}
	wait(why, cond)
}

// Doze is a sleep: the first of a thread ends at once, the next one never.
func Doze() {
	t := s.cur
	if !t.dozed {
		t.dozed = true
		Yield()
		return
	}
	t.away = true
	wait("sleep", func() bool { return false })
}

// Go replaces the go statement.
func Go(f any, args ...any) {
	fv := reflect.ValueOf(f)
	ft := fv.Type()
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		var pt reflect.Type
		if ft.IsVariadic() && i >= ft.NumIn()-1 {
			pt = ft.In(ft.NumIn() - 1).Elem()
		} else {
			pt = ft.In(i)
		}
		if a == nil {
			in[i] = reflect.Zero(pt)
		} else if v := reflect.ValueOf(a); v.Type().AssignableTo(pt) {
			in[i] = v
		} else {
			in[i] = v.Convert(pt)
		}
	}
	run := func() { fv.Call(in) }
	if sc := s; sc != nil && !sc.over {
		sc.spawn(run)
		return
	}
	go run()
}
