package hmisc

import (
	"github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/internal/zzverif/sym"
)

// C39_Random: whatever the random source returns.
func C39_Random() {
	n := sym.Bound("random IDs drawn", 2, 3)
	first := uint64(0)
	for i := 0; i < n; i++ {
		id := wampproto.GenerateID()
		sym.Observe("id", id)
		sym.Assert(sym.And(id >= 1, id < 1<<53), "random ID is between 1 and 2^53-1")
		if i == 0 {
			first = id
			sym.Varies(id, "processes do not all draw the same random IDs")
			sym.Possible(id >= 1<<52, "random IDs come from the whole range")
			sym.Possible(id < 1<<52, "random IDs come from the whole range, low half")
			sym.Possible(id&1 == 0, "random IDs can be even")
			sym.Possible(id&1 == 1, "random IDs can be odd")
		} else {
			sym.Possible(id != first, "random IDs are drawn afresh")
		}
	}
}

// C39_Sequential: the first IDs of a generator, and of a second one.
func C39_Sequential() {
	var g, o wampproto.SessionScopeIDGenerator
	n := sym.Bound("sequential IDs drawn", 40, 400)
	k := sym.Choice("interleaving", 3)
	for i := 1; i <= n; i++ {
		id := g.NextID()
		sym.Assert(id == uint64(i), "sequential IDs start at 1 and grow by one")
		if k == 1 || k == 2 && i%3 == 0 {
			o.NextID()
		}
	}
	want := uint64(1)
	if k == 1 {
		want = uint64(n) + 1
	} else if k == 2 {
		want = uint64(n)/3 + 1
	}
	sym.Assert(o.NextID() == want, "generators are independent")
}

// C39_Step: one step of a generator from any state, by which the order of all
// 2^53 IDs follows.
func C39_Step() {
	var g wampproto.SessionScopeIDGenerator
	if !sym.Havoc(&g, "state") {
		sym.Note("the generator's state is not one integer: only the first IDs are checked")
		return
	}
	a := g.NextID()
	sym.Assume(a >= 1 && a <= 1<<53)
	b := g.NextID()
	sym.Assert(b == sym.IteU64(a == 1<<53, 1, a+1), "IDs grow by one and wrap from 2^53 to 1")
}
