package HARNESS

import (
	"sync"
	"sync/atomic"
	_ "unsafe" // linkname
)

// The counter that link numbers sessions with.
//
//go:linkname linkSessionID github.com/funny/link.globalSessionId
var linkSessionID uint64

var manySessions sync.Once

// afterManySessions: the process is about to see more than 2^32 sessions.
func afterManySessions() {
	manySessions.Do(func() { atomic.AddUint64(&linkSessionID, 1<<32-20) })
}
