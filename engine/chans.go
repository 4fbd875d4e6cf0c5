package main

// Channels.

import (
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

// chanOp is a goroutine's blocked channel operation: one case of it, or
// several when it selects.
type chanOp struct {
	done bool
	idx  int
	val  Value
	ok   bool
	shut bool // a send that met close
}

type chanWait struct {
	op  *chanOp
	idx int
	val Value // of a send
}

func popWait(q *[]chanWait) (chanWait, bool) {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if !w.op.done {
			return w, true
		}
	}
	return chanWait{}, false
}

func hasWait(q []chanWait) bool {
	for _, w := range q {
		if !w.op.done {
			return true
		}
	}
	return false
}

func (ch *ChanVal) canSend() bool {
	return ch != nil && (ch.closed || len(ch.buf) < ch.cap || hasWait(ch.recvq))
}

func (ch *ChanVal) canRecv() bool {
	return ch != nil && (ch.closed || len(ch.buf) > 0 || hasWait(ch.sendq))
}

func (p *Path) doSend(ch *ChanVal, v Value) {
	v = copyVal(v)
	if ch.closed {
		panic(goPanic{mkRTError("send on closed channel")})
	}
	if w, ok := popWait(&ch.recvq); ok {
		*w.op = chanOp{done: true, idx: w.idx, val: v, ok: true}
		return
	}
	ch.buf = append(ch.buf[:len(ch.buf):len(ch.buf)], v)
}

func (p *Path) doRecv(ch *ChanVal, elem types.Type) (Value, bool) {
	if len(ch.buf) > 0 {
		v := ch.buf[0]
		ch.buf = append([]Value(nil), ch.buf[1:]...)
		if w, ok := popWait(&ch.sendq); ok {
			ch.buf = append(ch.buf, w.val)
			*w.op = chanOp{done: true, idx: w.idx}
		}
		return v, true
	}
	if w, ok := popWait(&ch.sendq); ok {
		*w.op = chanOp{done: true, idx: w.idx}
		return w.val, true
	}
	return zero(elem), false
}

// chanSync orders what the goroutine did before against what others do after
// their next operation on the channel.
func (p *Path) chanSync(th *Thread, ch *ChanVal) {
	type k struct{ ch *ChanVal }
	s, _ := p.side[k{ch}].([]int)
	th.vc = joinVC(th.vc, s)
	p.side[k{ch}] = joinVC(append([]int(nil), s...), th.vc)
	th.tick()
}

func (p *Path) chanPark(th *Thread, op *chanOp, what string) {
	th.block = func() bool { return op.done }
	th.what = what
	p.schedPoint(th)
}

func (p *Path) chanSend(th *Thread, ch *ChanVal, v Value) {
	if p.conc {
		p.schedPoint(th)
	}
	if ch == nil {
		p.chanPark(th, &chanOp{}, "send on nil channel")
	}
	p.chanSync(th, ch)
	if ch.canSend() {
		p.doSend(ch, v)
		return
	}
	op := &chanOp{}
	ch.sendq = append(ch.sendq, chanWait{op: op, val: copyVal(v)})
	p.chanPark(th, op, "channel send")
	p.chanSync(th, ch)
	if op.shut {
		panic(goPanic{mkRTError("send on closed channel")})
	}
}

func (p *Path) chanRecv(th *Thread, ch *ChanVal, elem types.Type) (Value, bool) {
	if p.conc {
		p.schedPoint(th)
	}
	if ch == nil {
		p.chanPark(th, &chanOp{}, "receive from nil channel")
	}
	p.chanSync(th, ch)
	if ch.canRecv() {
		return p.doRecv(ch, elem)
	}
	op := &chanOp{}
	ch.recvq = append(ch.recvq, chanWait{op: op})
	p.chanPark(th, op, "channel receive")
	p.chanSync(th, ch)
	if !op.ok {
		return zero(elem), false
	}
	return op.val, true
}

func (p *Path) chanClose(th *Thread, ch *ChanVal) {
	if p.conc {
		p.schedPoint(th)
	}
	p.chanSync(th, ch)
	ch.closed = true
	for {
		w, ok := popWait(&ch.recvq)
		if !ok {
			break
		}
		*w.op = chanOp{done: true, idx: w.idx}
	}
	for {
		w, ok := popWait(&ch.sendq)
		if !ok {
			break
		}
		*w.op = chanOp{done: true, idx: w.idx, shut: true}
	}
}

func (p *Path) selectOp(fr *Frame, in *ssa.Select, op func(int) Value) Value {
	th := fr.th
	if p.conc {
		p.schedPoint(th)
	}
	elem := func(i int) types.Type { return in.States[i].Chan.Type().Underlying().(*types.Chan).Elem() }
	chans := make([]*ChanVal, len(in.States))
	var ready []int
	for i, st := range in.States {
		ch, _ := op(2 * i).(*ChanVal)
		chans[i] = ch
		if ch != nil {
			p.chanSync(th, ch)
		}
		if st.Dir == types.SendOnly && ch.canSend() || st.Dir == types.RecvOnly && ch.canRecv() {
			ready = append(ready, i)
		}
	}
	result := func(idx int, v Value, ok bool) Value {
		r := Tuple{uint64(idx), ok}
		if idx < 0 {
			r[0] = uint64(math.MaxUint64)
		}
		for i, st := range in.States {
			if st.Dir != types.RecvOnly {
				continue
			}
			if i == idx && ok {
				r = append(r, v)
			} else {
				r = append(r, zero(elem(i)))
			}
		}
		return r
	}
	if len(ready) > 0 {
		k := 0
		if len(ready) > 1 {
			k = p.choose(len(ready))
		}
		i := ready[k]
		if in.States[i].Dir == types.SendOnly {
			p.doSend(chans[i], op(2*i+1))
			return result(i, nil, false)
		}
		v, ok := p.doRecv(chans[i], elem(i))
		return result(i, v, ok)
	}
	if !in.Blocking {
		return result(-1, nil, false)
	}
	w := &chanOp{}
	for i, st := range in.States {
		ch := chans[i]
		if ch == nil {
			continue
		}
		if st.Dir == types.SendOnly {
			ch.sendq = append(ch.sendq, chanWait{op: w, idx: i, val: copyVal(op(2*i + 1))})
		} else {
			ch.recvq = append(ch.recvq, chanWait{op: w, idx: i})
		}
	}
	p.chanPark(th, w, "select")
	for _, ch := range chans {
		if ch != nil {
			p.chanSync(th, ch)
		}
	}
	if w.shut {
		panic(goPanic{mkRTError("send on closed channel")})
	}
	return result(w.idx, w.val, w.ok)
}
