package hdealer

import (
	"github.com/xconnio/wampproto-go/internal/zzverif/sym"
)

var (
	exact  = uri{"a.b.c", ""}
	exact2 = uri{"a.b", "exact"}
	pre2   = uri{"a.b", "prefix"}
	pre1   = uri{"a.", "prefix"}
	wild   = uri{"a.*.c", "wildcard"}
	wild2  = uri{"*c", "wildcard"}
)

var probes = []string{"a.b.c", "a.b", "a.bb", "a.x.c", "b.c", "a"}

// churn runs n steps, each a registration, unregistration, removal or new
// attachment that changes something, over the given URIs and sessions.
func (w *world) churn(n int, us []uri, policies []string) {
	for i := 0; i < n; i++ {
		type op struct{ kind, s, u int }
		var ops []op
		fresh := false
		for s := range w.ss {
			if !w.ss[s].up {
				ops = append(ops, op{3, s, 0})
				continue
			}
			used := false
			for _, r := range w.all {
				used = used || r.has(s)
			}
			for u := range us {
				r := w.held(us[u].text)
				if r == nil || shared(r.policy) && !r.has(s) {
					if used || !fresh || i > 1 {
						ops = append(ops, op{0, s, u})
					}
				}
				if r != nil && r.has(s) {
					ops = append(ops, op{1, s, u})
				}
			}
			if used {
				ops = append(ops, op{2, s, 0})
			} else {
				fresh = true
			}
		}
		o := ops[sym.Choice("step", len(ops))]
		switch o.kind {
		case 0:
			p := policies[0]
			if r := w.held(us[o.u].text); r != nil {
				p = r.policy
			} else if len(policies) > 1 {
				p = policies[sym.Choice("policy", len(policies))]
			}
			w.register(o.s, us[o.u], p)
		case 1:
			w.unregister(o.s, w.held(us[o.u].text).id)
		case 2:
			w.remove(o.s)
		case 3:
			w.attach(o.s)
		}
	}
}

func (w *world) probe(s int) {
	for _, p := range probes {
		w.probes++
		w.call(s, p, w.probes, nil)
	}
}

// C01_One: histories over one URI shared by up to three sessions.
func C01_One() {
	us := []uri{exact, pre1, wild}
	u := us[sym.Choice("uri", len(us))]
	w := newWorld("C01", 3, 3)
	w.churn(sym.Bound("steps", 5, 7), []uri{u}, []string{"roundrobin", "first", "last"})
	w.probe(2)
	w.probe(0)
}

// C01_Two: histories over two URIs that overlap.
func C01_Two() {
	pairs := [][]uri{{exact, pre1}, {exact, wild}, {pre2, pre1}, {pre1, wild}, {wild, wild2}, {exact, exact2}}
	us := pairs[sym.Choice("pair", len(pairs))]
	w := newWorld("C01", 2, 2)
	w.churn(sym.Bound("steps", 5, 6), us, []string{"roundrobin", "single"})
	w.probe(1)
}

// C02_Choice: up to four overlapping registrations of different kinds.
func C02_Choice() {
	w := newWorld("C02", 2, 2)
	w.churn(sym.Bound("steps", 5, 6), []uri{exact, pre2, pre1, wild}, []string{"roundrobin"})
	w.probe(1)
}

// C02_Wild: overlapping wildcards, and one text registered in turn under
// different kinds, with the maps of the code in any order.
func C02_Wild() {
	us := [][]uri{{wild, wild2}, {wild, wild2, exact}, {{"a.b.c", "wildcard"}, {"a.b.c", "prefix"}, exact},
		{{"a.*", "wildcard"}, {"a.*", "prefix"}, {"a.*", ""}}}[sym.Choice("procedures", 4)]
	w := newWorld("C02", 2, 2)
	w.churn(sym.Bound("steps", 4, 5), us, []string{"roundrobin"})
	sym.MapOrder(2)
	for _, p := range []string{"a.b.c", "a.*", "a.x.c", "xc", "a.*.c"} {
		w.probes++
		w.call(1, p, w.probes, nil)
	}
}
