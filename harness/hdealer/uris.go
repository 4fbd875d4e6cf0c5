package hdealer

import (
	"github.com/xconnio/wampproto-go/internal/zzverif/sym"
	"github.com/xconnio/wampproto-go/messages"
)

// symGlob: does the pattern, in which '*' stands for any sequence of
// characters but '/', match s? Without branches on the characters.
func symGlob(pat, s string) bool {
	row := make([]bool, len(s)+1) // row[j]: pat[i:] matches s[j:]
	row[len(s)] = true
	for i := len(pat) - 1; i >= 0; i-- {
		next := make([]bool, len(s)+1)
		star := pat[i] == '*'
		for j := len(s); j >= 0; j-- {
			more, one := false, false
			if j < len(s) {
				more = sym.And(next[j+1], s[j] != '/')
				one = sym.And(pat[i] == s[j], row[j+1])
			}
			next[j] = sym.Or(sym.And(star, sym.Or(row[j], more)), sym.And(!star, one))
		}
		row = next
	}
	return row[0]
}

func symPrefix(p, s string) bool {
	if len(p) > len(s) {
		return false
	}
	return sym.Eq(p, s[:len(p)])
}

type symReg struct {
	kind    int
	text    string
	id, who uint64
	match   bool
}

// anyURIs registers n procedures of any kinds under any short URIs, one per
// session, lets one of them go, and returns those left with their match
// against the procedure.
func anyURIs(w *world, n int, proc string) []*symReg {
	var rs []*symReg
	for i := 0; i < n; i++ {
		r := &symReg{kind: sym.Choice("kind", 3), who: w.ss[i].id}
		ln := 1 + sym.Choice("length", sym.Bound("registered URI length", 2, 3))
		opts := map[string]any{}
		switch r.kind {
		case 0:
			r.text = sym.StrOver("exact", ln, "a./")
			r.match = sym.Eq(r.text, proc)
		case 1:
			r.text = sym.StrOver("prefix", ln, "a./")
			opts["match"] = "prefix"
			r.match = symPrefix(r.text, proc)
		case 2:
			r.text = sym.StrOver("wildcard", ln, "a.*/")
			opts["match"] = "wildcard"
			r.match = symGlob(r.text, proc)
		}
		for _, o := range rs {
			sym.Assume(o.text != r.text)
		}
		out := w.send(i, messages.NewRegister(1, opts, r.text))
		m, ok := out.Message.(*messages.Registered)
		sym.Assert(ok, "different URIs can be registered")
		r.id = m.RegistrationID()
		rs = append(rs, r)
	}
	if k := sym.Choice("gone", n+1); k < n {
		if sym.Choice("how", 2) == 0 {
			w.send(k, messages.NewUnregister(2, rs[k].id))
		} else {
			w.remove(k)
		}
		rs = append(append([]*symReg{}, rs[:k]...), rs[k+1:]...)
	}
	return rs
}

func routeAny(prop string) {
	n := sym.Bound("registrations", 2, 3)
	w := newWorld(prop, n+1, n+1)
	proc := sym.StrOver("procedure", 1+sym.Choice("call length", 3), "a.*/")
	rs := anyURIs(w, n, proc)
	req := sym.Uint64("call")
	out := w.send(n, messages.NewCall(req, nil, proc, nil, nil))
	sym.Assert(out != nil, "CALL is answered")
	any := false
	for _, r := range rs {
		any = sym.Or(any, r.match)
	}
	switch m := out.Message.(type) {
	case *messages.Error:
		w.as("C01", !any, "no error while a matching registration is held")
		w.as("C01", sym.And(m.RequestID() == req, m.MessageType() == messages.MessageTypeCall, out.Recipient == w.ss[n].id), "the error answers the CALL")
	case *messages.Invocation:
		var used *symReg
		for _, r := range rs {
			if r.id == m.RegistrationID() {
				used = r
			}
		}
		w.as("C01", used != nil, "the invocation names a registration that is held")
		w.as("C01", used.match, "the registration matches the procedure")
		w.as("C01", out.Recipient == used.who, "the invoked session holds the registration")
		for _, o := range rs {
			better := o.kind < used.kind || o.kind == 1 && used.kind == 1 && len(o.text) > len(used.text)
			if better {
				w.as("C02", !o.match, "no more specific registration matches")
			}
		}
	default:
		w.as("C01", false, "CALL is answered by INVOCATION or ERROR")
	}
}

// C01_Uris and C02_Uris: registrations and calls with any short URIs.
func C01_Uris() { routeAny("C01") }

// C02_Uris: registrations and calls with any short URIs.
func C02_Uris() { routeAny("C02") }
