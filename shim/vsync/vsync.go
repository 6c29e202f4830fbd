package vsync

import (
	"net/netip"
	"reflect"
	"sync"
	"unsafe"
)

type (
	Locker = sync.Locker
	Map    = sync.Map
	Cond   = sync.Cond
)

func NewCond(l Locker) *Cond { return sync.NewCond(l) }
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) { o.Do(func() { a, b = f() }); return a, b }
}

// Once

type Once struct {
	mu   Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.mu.Lock()
	defer o.mu.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// Mutex

type Mutex struct {
	real sync.Mutex
	held bool
}

func (m *Mutex) Lock() {
	if s == nil {
		m.real.Lock()
		return
	}
	wait("Mutex.Lock", func() bool { return !m.held })
	m.held = true
}
func (m *Mutex) TryLock() bool {
	if s == nil {
		return m.real.TryLock()
	}
	Yield()
	if m.held {
		return false
	}
	m.held = true
	return true
}
func (m *Mutex) Unlock() {
	if s == nil {
		m.real.Unlock()
		return
	}
	if !m.held {
		panic("vsync: unlock of unlocked mutex")
	}
	m.held = false
	Yield()
}

// RWMutex: as in package sync a waiting writer keeps new readers out, and the
// readers that queued up behind a writer get in when it unlocks.

type RWMutex struct {
	real    sync.RWMutex
	readers int
	writer  bool
	wwait   int
	rwait   []*bool
}

func (m *RWMutex) RLock() {
	if s == nil {
		m.real.RLock()
		return
	}
	Yield()
	if !m.writer && m.wwait == 0 {
		m.readers++
		return
	}
	granted := false
	m.rwait = append(m.rwait, &granted)
	wait("RWMutex.RLock", func() bool { return granted })
}
func (m *RWMutex) TryRLock() bool {
	if s == nil {
		return m.real.TryRLock()
	}
	Yield()
	if m.writer || m.wwait > 0 {
		return false
	}
	m.readers++
	return true
}
func (m *RWMutex) RUnlock() {
	if s == nil {
		m.real.RUnlock()
		return
	}
	if m.readers == 0 {
		panic("vsync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	Yield()
}
func (m *RWMutex) Lock() {
	if s == nil {
		m.real.Lock()
		return
	}
	Yield()
	m.wwait++
	wait("RWMutex.Lock", func() bool { return !m.writer && m.readers == 0 })
	m.wwait--
	m.writer = true
}
func (m *RWMutex) TryLock() bool {
	if s == nil {
		return m.real.TryLock()
	}
	Yield()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	return true
}
func (m *RWMutex) Unlock() {
	if s == nil {
		m.real.Unlock()
		return
	}
	if !m.writer {
		panic("vsync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	for _, g := range m.rwait {
		*g = true
		m.readers++
	}
	m.rwait = nil
	Yield()
}
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// WaitGroup

type WaitGroup struct {
	real sync.WaitGroup
	n    int
}

func (w *WaitGroup) Add(d int) {
	if s == nil {
		w.real.Add(d)
		return
	}
	w.n += d
	Yield()
}
func (w *WaitGroup) Done() {
	if s == nil {
		w.real.Done()
		return
	}
	w.Add(-1)
}
func (w *WaitGroup) Wait() {
	if s == nil {
		w.real.Wait()
		return
	}
	wait("WaitGroup.Wait", func() bool { return w.n <= 0 })
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() { defer w.Done(); f() })
}

// Pool hands objects out in LIFO order and scrambles an object's contents while
// it is in the pool, so that whoever still uses it after putting it back sees
// (or sends) nonsense instead of the bytes that happen to be there.

type Pool struct {
	New  func() any
	mu   sync.Mutex
	free []pooled
}

type pooled struct {
	x       any
	restore func()
}

func (p *Pool) Get() any {
	Yield()
	p.mu.Lock()
	if n := len(p.free); n > 0 {
		o := p.free[n-1]
		p.free = p.free[:n-1]
		p.mu.Unlock()
		o.restore()
		return o.x
	}
	p.mu.Unlock()
	if p.New == nil {
		return nil
	}
	return p.New()
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	Yield()
	r := scramble(reflect.ValueOf(x))
	p.mu.Lock()
	p.free = append(p.free, pooled{x, r})
	p.mu.Unlock()
}

var addrType = reflect.TypeOf(netip.Addr{})
var badAddr = netip.AddrFrom4([4]byte{203, 0, 113, 255})

func scramble(v reflect.Value) func() {
	var undo []func()
	scrambleInto(v, &undo, 0)
	return func() {
		for i := len(undo) - 1; i >= 0; i-- {
			undo[i]()
		}
	}
}

func scrambleInto(v reflect.Value, undo *[]func(), depth int) {
	if depth > 3 {
		return
	}
	switch v.Kind() {
	case reflect.Slice:
		if v.Type().Elem().Kind() != reflect.Uint8 || v.IsNil() {
			return
		}
		b := unsafe.Slice((*byte)(v.UnsafePointer()), v.Cap())
		old := append([]byte(nil), b...)
		for i := range b {
			b[i] = 0xEE
		}
		*undo = append(*undo, func() { copy(b, old) })
	case reflect.Pointer:
		if v.IsNil() {
			return
		}
		e := v.Elem()
		if e.Kind() == reflect.Struct {
			old := reflect.New(e.Type()).Elem()
			old.Set(e)
			*undo = append(*undo, func() { e.Set(old) })
			for i := 0; i < e.NumField(); i++ {
				f := e.Field(i)
				f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
				if f.Type() == addrType {
					f.Set(reflect.ValueOf(badAddr))
					continue
				}
				switch f.Kind() {
				case reflect.Bool:
					f.SetBool(!f.Bool())
				case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
					f.SetInt(f.Int() ^ 0x55)
				case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
					f.SetUint(f.Uint() ^ 0x55)
				case reflect.Slice:
					scrambleInto(f, undo, depth+1)
				}
			}
		} else if e.Kind() == reflect.Slice {
			scrambleInto(e, undo, depth+1)
		}
	}
}
