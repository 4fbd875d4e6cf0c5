package sym

import (
	"fmt"
	"runtime"
	"sync"
)

var (
	mu sync.Mutex
	wg sync.WaitGroup
)

func lock()   { mu.Lock() }
func unlock() { mu.Unlock() }

func runFn(fn func()) { fn() }

// Go starts a goroutine of the scenario.
func Go(f func()) {
	wg.Add(1)
	go func() {
		defer wg.Done()
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stop); !ok {
					lock()
					res.Panic = fmt.Sprint(r) + " @ " + where()
					unlock()
				}
			}
		}()
		runtime.Gosched()
		f()
	}()
}

// Join waits for all goroutines started with Go.
func Join() { wg.Wait() }

// LocksHeld is the number of locks held (engine only).
func LocksHeld() int { return 0 }
