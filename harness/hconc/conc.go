// Package hconc runs operations concurrently and compares what they answer,
// and what the object answers afterwards, with the orders in which the same
// operations can follow one another (C40, C41).
package hconc

import (
	"github.com/xconnio/wampproto-go/internal/zzverif/sym"
	"github.com/xconnio/wampproto-go/messages"
	"github.com/xconnio/wampproto-go/serializers"
)

// answer is what an operation gave.
type answer struct {
	failed  bool
	flag    bool
	list    []any    // the message
	to      uint64   // its recipient
	ack     []any    // acknowledgement of a publication
	ackTo   uint64   //
	readers []uint64 // recipients of an event
}

func message(m messages.Message) []any {
	l := m.Marshal()
	// the router writes the message to its recipient without holding the lock
	s := &serializers.CBORSerializer{}
	if _, err := s.Serialize(m); err != nil {
		sym.Assert(false, "an answer can be encoded")
	}
	return l
}

func subset(a, b []uint64) bool {
	r := true
	for _, x := range a {
		in := false
		for _, y := range b {
			in = sym.Or(in, x == y)
		}
		r = sym.And(r, in)
	}
	return r
}

func (a answer) same(b answer) bool {
	if a.failed != b.failed || a.flag != b.flag || len(a.list) != len(b.list) || len(a.ack) != len(b.ack) || len(a.readers) != len(b.readers) {
		return false
	}
	r := sym.And(sym.And(a.to == b.to, a.ackTo == b.ackTo), sym.And(subset(a.readers, b.readers), subset(b.readers, a.readers)))
	if len(a.list) > 0 {
		r = sym.And(r, sym.Eq(a.list, b.list))
	}
	if len(a.ack) > 0 {
		r = sym.And(r, sym.Eq(a.ack, b.ack))
	}
	return r
}

func sameAll(a, b []answer) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = sym.And(r, a[i].same(b[i]))
	}
	return r
}

// object is what the operations work on.
type object interface {
	run(op int) answer
	probe() []answer // what is asked when all is done
}

// compare runs the threads' operations concurrently on one object and checks
// that some interleaving of them on a fresh one gives the same.
func compare(make_ func() object, threads [][]int, label string) {
	o := make_()
	got := make([][]answer, len(threads))
	for i := range threads {
		i := i
		got[i] = make([]answer, len(threads[i]))
		sym.Go(func() {
			for k, op := range threads[i] {
				got[i][k] = o.run(op)
			}
		})
	}
	sym.Join()
	sym.Assert(sym.LocksHeld() == 0, "no lock is left held")
	after := o.probe()
	ok := false
	at := make([]int, len(threads))
	var order []int
	total := 0
	for _, t := range threads {
		total += len(t)
	}
	var try func()
	try = func() {
		if len(order) == total {
			q := make_()
			pos := make([]int, len(threads))
			r := true
			for _, t := range order {
				r = sym.And(r, q.run(threads[t][pos[t]]).same(got[t][pos[t]]))
				pos[t]++
			}
			ok = sym.Or(ok, sym.And(r, sameAll(q.probe(), after)))
			return
		}
		for t := range threads {
			if at[t] < len(threads[t]) {
				at[t]++
				order = append(order, t)
				try()
				order = order[:len(order)-1]
				at[t]--
			}
		}
	}
	try()
	sym.Assert(ok, label)
}

// pairs picks what two threads do, one operation each.
func pairs(n int) [][]int {
	a := sym.Choice("first", n)
	b := sym.Choice("second", n-a) + a
	return [][]int{{a}, {b}}
}

// more picks three threads, or two of which one does two operations.
func more(n int) [][]int {
	a := sym.Choice("first", n)
	b := sym.Choice("second", n)
	if sym.Choice("threads", 2) == 1 {
		if b < a {
			return nil
		}
		return [][]int{{a}, {b}, {sym.Choice("third", n-b) + b}}
	}
	return [][]int{{a, b}, {sym.Choice("third", n)}}
}
