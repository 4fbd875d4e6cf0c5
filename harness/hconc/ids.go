package hconc

import (
	"github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/internal/zzverif/sym"
)

// C39_ConcNextID: goroutines that share a sequential generator get the first
// IDs, each once, and each goroutine gets them in growing order.
func C39_ConcNextID() { C41_ConcNextID() }

// C39_ConcRandom: goroutines draw random IDs at the same time.
func C39_ConcRandom() {
	ids := make([]uint64, 2+sym.Choice("goroutines", 2))
	for i := range ids {
		i := i
		sym.Go(func() { ids[i] = wampproto.GenerateID() })
	}
	sym.Join()
	for _, id := range ids {
		sym.Assert(sym.And(id >= 1, id < 1<<53), "random ID is between 1 and 2^53-1")
	}
}
