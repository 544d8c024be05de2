// Package kairos is a stand-in for github.com/rhansen/go-kairos, used by the verification drivers only.
//
// The original keeps one global goroutine on the real clock, which testing/synctest cannot virtualise.
// This implementation has the same API and documented semantics (Reset and Stop drop an undelivered tick)
// but builds each timer on the standard library, so that inside a synctest bubble it runs on virtual time.
package kairos

import (
	"sync"
	"time"
)

// Timer mirrors kairos.Timer.
type Timer struct {
	C <-chan time.Time
	c chan time.Time

	mu  sync.Mutex
	gen uint64
	t   *time.Timer
}

// NewStoppedTimer creates a new stopped Timer.
func NewStoppedTimer() *Timer {
	c := make(chan time.Time, 1)
	return &Timer{C: c, c: c}
}

// NewTimer creates a new Timer that sends the current time on its channel after at least d.
func NewTimer(d time.Duration) *Timer {
	t := NewStoppedTimer()
	t.Reset(d)
	return t
}

func (t *Timer) halt() bool {
	t.gen++
	active := false
	if t.t != nil {
		active = t.t.Stop()
		t.t = nil
	}
	select {
	case <-t.c:
	default:
	}
	return active
}

// Stop prevents the Timer from firing.
func (t *Timer) Stop() bool {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.halt()
}

// Reset changes the timer to expire after duration d, clearing the channel.
func (t *Timer) Reset(d time.Duration) bool {
	t.mu.Lock()
	defer t.mu.Unlock()
	was := t.halt()
	g := t.gen
	t.t = time.AfterFunc(d, func() {
		t.mu.Lock()
		defer t.mu.Unlock()
		if t.gen != g {
			return
		}
		select {
		case t.c <- time.Now():
		default:
		}
	})
	return was
}
