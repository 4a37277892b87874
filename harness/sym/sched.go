package sym

import (
	"runtime"
	"strings"
	"sync"
	"time"
)

// sched makes the goroutines of a replay pass their calls of Yield in the order of the case. What
// they do between two calls cannot be held back; a goroutine that does not come back to Yield is
// taken to be blocked after a while.
var sched struct {
	sync.Mutex
	seq    []int
	gs     map[string]int // goroutines, numbered as they come
	holder int            // who runs, -1: nobody
	last   time.Time      // of the last progress
}

const (
	blocked = 150 * time.Millisecond
	lost    = 1500 * time.Millisecond
)

// Yield is a point at which another goroutine may go first.
func Yield() {
	var b [64]byte
	id := strings.Fields(string(b[:runtime.Stack(b[:], false)]))[1]
	s := &sched
	s.Lock()
	defer s.Unlock()
	me, ok := s.gs[id]
	if !ok {
		me = len(s.gs)
		s.gs[id] = me
	}
	if s.holder == me {
		s.holder, s.last = -1, time.Now()
	}
	for len(s.seq) > 0 {
		idle := time.Since(s.last)
		if s.seq[0] == me && (s.holder == -1 || idle > blocked) {
			s.seq, s.holder, s.last = s.seq[1:], me, time.Now()
			return
		}
		if idle > lost {
			s.last = time.Now()
			return
		}
		s.Unlock()
		time.Sleep(time.Millisecond)
		s.Lock()
	}
}

// Settle lets the other goroutines run as far as they get.
func Settle() { time.Sleep(2500 * time.Millisecond) }
