// Package sim drives the real code through one scenario and writes down, as one JSON object per line,
// what it observably did. The TLA+ trace specifications judge these lines; nothing here does.
package sim

import (
	"encoding/json"
	"fmt"
	"os"
	"sync"
	"time"
)

// E is one observed event.
type E map[string]any

// Trace is the single, totally ordered log of a scenario. An event is written while the lock is held, before its
// effect can be seen by anyone else.
type Trace struct {
	mu    sync.Mutex
	f     *os.File
	start time.Time
	n     int
	dead  map[string]bool // crashed members: what their remains still do is not an observable effect
	hid   int
	// at most this many events are kept: a run that produces more is cut (and reported as such)
	max    int
	closed bool
}

func NewTrace(path string) *Trace {
	f, err := os.Create(path)
	if err != nil {
		Die("cannot create trace: %v", err)
	}
	return &Trace{f: f, start: time.Now(), dead: map[string]bool{}, max: 16000}
}

// Die ends the run as a failure of the driver itself, never of the code under test.
func Die(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "DRIVER: "+format+"\n", args...)
	os.Exit(3)
}

func (t *Trace) Log(e E) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.logLocked(e)
}

func (t *Trace) logLocked(e E) {
	if t.closed {
		return
	}
	if m, ok := e["m"].(string); ok && t.dead[m] {
		return
	}
	t.n++
	if t.n > t.max {
		Die("trace exceeds %d events", t.max)
	}
	if _, ok := e["t"]; !ok {
		e["t"] = time.Since(t.start).Milliseconds()
	}
	b, err := json.Marshal(e)
	if err != nil {
		Die("marshal: %v", err)
	}
	t.f.Write(append(b, '\n'))
}

// Crash marks the member as gone: nothing it does afterwards is logged.
func (t *Trace) Crash(m string) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.logLocked(E{"ev": "crash", "m": m})
	t.dead[m] = true
}

// NewHandle returns a fresh identity for one processing attempt, logged under the same lock as fn's event.
func (t *Trace) NewHandle(fn func(h int) E) int {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.hid++
	h := t.hid
	t.logLocked(fn(h))
	return h
}

func (t *Trace) Close() {
	t.mu.Lock()
	t.closed = true
	t.f.Close()
	t.mu.Unlock()
}
