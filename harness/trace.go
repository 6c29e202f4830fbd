//go:build go1.22

package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"sync"
)

var keepMu sync.Mutex

// M is one trace event.
type M = map[string]any

// Trace is an ndjson trace being written.
type Trace struct {
	f    *os.File
	w    *bufio.Writer
	n    int
	keep *[]M
	solo bool
}

var discard = &Trace{keep: new([]M)}

func newTrace(path string) *Trace {
	f, err := os.Create(path)
	must(err)
	return &Trace{f: f, w: bufio.NewWriterSize(f, 1<<20)}
}

func (t *Trace) add(m M) {
	if t == discard {
		return
	}
	if t.solo { // nobody else adds to it: don't order what the goroutines do
		*t.keep = append(*t.keep, m)
		return
	}
	if t.keep != nil {
		keepMu.Lock()
		*t.keep = append(*t.keep, m)
		keepMu.Unlock()
		return
	}
	b, err := json.Marshal(m)
	must(err)
	t.w.Write(b)
	t.w.WriteByte('\n')
	t.w.Flush() // whatever happens next, this event is on record
	t.n++
}

func (t *Trace) close() {
	if t.keep != nil {
		return
	}
	t.w.Flush()
	t.f.Close()
}

// must ends the driver: a failure of the harness, not of the tracker.
func must(err error) {
	if err != nil {
		fatalf("%v", err)
	}
}

func fatalf(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "DRIVER-ERROR: "+f+"\n", a...)
	os.Exit(4)
}

func ints(b []byte) []int {
	r := make([]int, len(b))
	for i, x := range b {
		r[i] = int(x)
	}
	return r
}
