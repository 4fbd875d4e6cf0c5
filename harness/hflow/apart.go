package hflow

import (
	"errors"

	"github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/auth"
	"github.com/xconnio/wampproto-go/internal/zzverif/sym"
	"github.com/xconnio/wampproto-go/messages"
)

// object is something that is operated on; each operation gives an answer.
type object interface{ do(op int) []any }

// names are what an object calls its sessions and its procedure or topic.
type names struct {
	ids  []uint64
	text string
}

func (n *names) who(id any) any {
	for i, x := range n.ids {
		if sym.Branch(sym.Eq(id, x)) {
			return i
		}
	}
	return id
}

// plain is a message without the names.
func (n *names) plain(m messages.Message) []any {
	l := append([]any{}, m.Marshal()...)
	for i, v := range l {
		d, ok := v.(map[string]any)
		if !ok {
			continue
		}
		r := map[string]any{}
		for k, v := range d {
			switch k {
			case "caller", "publisher":
				v = n.who(v)
			case "procedure", "topic":
				v = v == n.text
			}
			r[k] = v
		}
		l[i] = r
	}
	return l
}

func (n *names) flat(out *wampproto.MessageWithRecipient, err error) []any {
	if err != nil || out == nil {
		return []any{err != nil}
	}
	return []any{false, n.plain(out.Message), n.who(out.Recipient)}
}

type dealer struct {
	names
	a, b, c      uint64
	d            *wampproto.Dealer
	wild, policy string
}

func newDealer(a, b, c uint64, text string, other bool) object {
	o := &dealer{names{[]uint64{a, b, c}, text}, a, b, c, wampproto.NewDealer(), text + "*", "roundrobin"}
	if other {
		o.wild, o.policy = "z*", "last"
	}
	_ = o.d.AddSession(details(a, false))
	_ = o.d.AddSession(details(b, false))
	return o
}

const dealerOps = 11

func (o *dealer) send(s uint64, m messages.Message) []any {
	out, err := o.d.ReceiveMessage(s, m)
	return o.flat(out, err)
}

func (o *dealer) do(op int) []any {
	switch op {
	case 0:
		return o.send(o.a, messages.NewRegister(1, map[string]any{"invoke": o.policy}, o.text))
	case 1:
		return o.send(o.b, messages.NewRegister(2, map[string]any{"invoke": o.policy}, o.text))
	case 2:
		return o.send(o.a, messages.NewRegister(3, map[string]any{"match": "prefix"}, o.text))
	case 3:
		return o.send(o.b, messages.NewCall(4, map[string]any{"receive_progress": true}, o.text, nil, nil))
	case 4:
		return o.send(o.a, messages.NewUnregister(5, 1))
	case 5:
		return o.send(o.a, messages.NewYield(2, nil, nil, nil))
	case 6:
		return []any{o.d.RemoveSession(o.a) == nil}
	case 7:
		return []any{o.d.AddSession(details(o.c, false)) == nil}
	case 8:
		o.d.AutoDiscloseCaller(true)
		return nil
	case 9:
		return []any{o.d.HasProcedure(o.text)}
	case 10:
		return o.send(o.b, messages.NewRegister(6, map[string]any{"match": "wildcard"}, o.wild))
	}
	panic("no such operation")
}

type broker struct {
	names
	a, b, c uint64
	d       *wampproto.Broker
	wild    string
}

func newBroker(a, b, c uint64, text string, other bool) object {
	o := &broker{names{[]uint64{a, b, c}, text}, a, b, c, wampproto.NewBroker(), text + "*"}
	if other {
		o.wild = "z*"
	}
	_ = o.d.AddSession(details(a, false))
	_ = o.d.AddSession(details(b, false))
	return o
}

const brokerOps = 10

func (o *broker) send(s uint64, m messages.Message) []any {
	out, err := o.d.ReceiveMessage(s, m)
	return o.flat(out, err)
}

func (o *broker) do(op int) []any {
	switch op {
	case 0:
		return o.send(o.a, messages.NewSubscribe(1, nil, o.text))
	case 1:
		return o.send(o.a, messages.NewSubscribe(2, map[string]any{"match": "prefix"}, o.text))
	case 2:
		return o.send(o.b, messages.NewSubscribe(3, map[string]any{"match": "wildcard"}, o.wild))
	case 3:
		out, err := o.d.ReceivePublish(o.b, messages.NewPublish(4, map[string]any{"acknowledge": true}, o.text, nil, nil))
		if err != nil || out == nil {
			return []any{err != nil}
		}
		r := []any{len(out.Recipients)}
		if len(out.Recipients) == 1 {
			r = append(r, o.who(out.Recipients[0]))
		}
		if out.Event != nil {
			r = append(r, o.plain(out.Event))
		}
		if out.Ack != nil {
			r = append(r, o.flat(out.Ack, nil))
		}
		return r
	case 4:
		return o.send(o.a, messages.NewUnsubscribe(5, 1))
	case 5:
		return o.send(o.b, messages.NewUnsubscribe(6, 1))
	case 6:
		return []any{o.d.RemoveSession(o.a) == nil}
	case 7:
		return []any{o.d.AddSession(details(o.c, false)) == nil}
	case 8:
		o.d.AutoDisclosePublisher(true)
		return nil
	case 9:
		return []any{o.d.HasSubscription(o.text)}
	}
	panic("no such operation")
}

type client struct {
	s    *wampproto.Session
	x, y uint64
}

func newClient(x, y, _ uint64, _ string, other bool) object {
	if other {
		return &client{wampproto.NewSession(codec(2)), x, y}
	}
	return &client{wampproto.NewSession(nil), x, y}
}

const clientOps = 14

func (o *client) out(m messages.Message) []any {
	b, err := o.s.SendMessage(m)
	return []any{err != nil, len(b) > 0}
}

func (o *client) in(m messages.Message) []any {
	got, err := o.s.ReceiveMessage(m)
	return []any{err != nil, got == m}
}

func (o *client) do(op int) []any {
	switch op {
	case 0:
		return o.out(messages.NewCall(o.x, nil, "p", nil, nil))
	case 1:
		return o.in(messages.NewResult(o.x, nil, nil, nil))
	case 2:
		return o.out(messages.NewRegister(o.x, nil, "p"))
	case 3:
		return o.in(messages.NewRegistered(o.x, o.y))
	case 4:
		return o.out(messages.NewUnregister(o.x, o.y))
	case 5:
		return o.in(messages.NewUnregistered(o.x))
	case 6:
		return o.out(messages.NewSubscribe(o.x, nil, "t"))
	case 7:
		return o.in(messages.NewSubscribed(o.x, o.y))
	case 8:
		return o.out(messages.NewUnsubscribe(o.x, o.y))
	case 9:
		return o.in(messages.NewUnsubscribed(o.x))
	case 10:
		return o.out(messages.NewPublish(o.x, map[string]any{"acknowledge": true}, "t", nil, nil))
	case 11:
		return o.in(messages.NewPublished(o.x, o.y))
	case 12:
		return o.in(messages.NewInvocation(o.x, o.y, nil, nil, nil))
	case 13:
		return o.in(messages.NewEvent(o.y, o.x, nil, nil, nil))
	}
	panic("no such operation")
}

// alone compares an object that is used alone with one that is used while
// another one is used with the same IDs and names but other patterns and
// policies. The one used alone has IDs and names of its own.
func alone(make_ func(a, b, c uint64, text string, other bool) object, n int, probe []int) {
	a, b := two()
	c := id("session")
	sym.Assume(sym.And(c != a, c != b))
	d, e := two()
	f := id("session")
	sym.Assume(sym.And(f != d, f != e))
	steps := sym.Bound("steps", 2, 3)
	mine, theirs := make([]int, steps), make([]int, steps)
	first := sym.Choice("first step of the other", n)
	for i := range mine {
		mine[i], theirs[i] = sym.Choice("step", n), (first+i)%n
	}
	x := make_(d, e, f, "r", false)
	var want [][]any
	for _, op := range mine {
		want = append(want, x.do(op))
	}
	for _, op := range probe {
		want = append(want, x.do(op))
	}
	y, z := make_(a, b, c, "p", false), make_(a, b, c, "p", true)
	var got [][]any
	for i, op := range mine {
		z.do(theirs[i])
		got = append(got, y.do(op))
	}
	for _, op := range probe {
		z.do(op)
		got = append(got, y.do(op))
	}
	for i := range want {
		sym.Assert(sym.Eq(got[i], want[i]), "the answers do not depend on other objects")
	}
}

func C47_Dealers()  { alone(newDealer, dealerOps, []int{3, 9, 0}) }
func C47_Brokers()  { alone(newBroker, brokerOps, []int{3, 9, 0}) }
func C47_Sessions() { alone(newClient, clientOps, []int{1, 13, 12}) }

// keeper is an authenticator that knows one user.
type keeper struct{ authid, role, ticket, secret, pubkey string }

func (k *keeper) Methods() []auth.Method { return []auth.Method{"ticket", "wampcra", "cryptosign"} }

func (k *keeper) Authenticate(r auth.Request) (auth.Response, error) {
	switch x := r.(type) {
	case *auth.TicketRequest:
		if x.Ticket() != k.ticket {
			return nil, errors.New("wrong ticket")
		}
	case *auth.RequestCryptoSign:
		if x.PublicKey() != k.pubkey {
			return nil, errors.New("wrong key")
		}
	default:
		return auth.NewCRAResponse(k.authid, k.role, k.secret, 0), nil
	}
	return auth.NewResponse(k.authid, k.role, 0)
}

// C47_Handshakes: two handshakes with different servers go on at once; each
// ends as it should, whatever the order of their steps.
func C47_Handshakes() {
	type side struct {
		j     *wampproto.Joiner
		a     *wampproto.Acceptor
		k     *keeper
		realm string
		data  []byte
		done  bool
		right bool
		died  bool
		way   string
	}
	c := codec(sym.Choice("codec", sym.Bound("codecs", 1, 3)))
	var ss []*side
	flip := sym.Choice("who has a role", 2)
	for i := 0; i < 2; i++ {
		s := &side{realm: []string{"one", "two"}[i], way: []string{"ticket", "wampcra", "cryptosign"}[sym.Choice("method", 3)]}
		s.k = &keeper{authid: []string{"ann", "bob"}[i], role: []string{"admin", ""}[i^flip], ticket: []string{"t1", "t2"}[i], secret: []string{"s1", "s2"}[i]}
		s.right = sym.Choice("right credentials", 2) == 1
		other := i
		if !s.right { // those of the other handshake
			other = 1 - i
		}
		var a auth.ClientAuthenticator
		switch s.way {
		case "ticket":
			a = auth.NewTicketAuthenticator("x", []string{"t1", "t2"}[other], nil)
		case "wampcra":
			a = auth.NewWAMPCRAAuthenticator("x", []string{"s1", "s2"}[other], nil)
		case "cryptosign":
			pub, priv, err := auth.GenerateCryptoSignKeyPair()
			sym.Assert(err == nil, "a key pair can be made")
			s.k.pubkey = pub
			if !s.right {
				_, priv, err = auth.GenerateCryptoSignKeyPair()
				sym.Assert(err == nil, "a key pair can be made")
			}
			a, err = auth.NewCryptoSignAuthenticator("x", priv, nil)
			sym.Assert(err == nil, "the authenticator takes the key")
		}
		s.j, s.a = wampproto.NewJoiner(s.realm, c, a), wampproto.NewAcceptor(c, s.k)
		ss = append(ss, s)
	}
	// each of a side's moves: the joiner says HELLO, then the acceptor and the joiner in turn
	move := func(s *side, n int) {
		var err error
		switch {
		case s.died || s.done:
		case n == 0:
			s.data, err = s.j.SendHello()
		case n%2 == 1:
			s.data, _, err = s.a.Receive(s.data)
		default:
			s.data, err = s.j.Receive(s.data)
			s.done = err == nil && s.data == nil
		}
		s.died = s.died || err != nil
	}
	first, second := sym.Choice("moves of the first", 5), sym.Choice("moves of the second", 5)
	for i := 0; i < 5; i++ {
		if i < first {
			move(ss[0], i)
		}
	}
	for i := 0; i < second; i++ {
		move(ss[1], i)
	}
	for i := first; i < 5; i++ {
		move(ss[0], i)
	}
	for i := second; i < 5; i++ {
		move(ss[1], i)
	}
	for _, s := range ss {
		sym.Assert(s.done == s.right, "exactly the right credentials end in a session")
		jd, jerr := s.j.SessionDetails()
		ad, aerr := s.a.SessionDetails()
		sym.Assert((jerr == nil) == s.right && (aerr == nil) == s.right, "exactly the right credentials end in a session")
		if jerr != nil || aerr != nil {
			continue
		}
		sym.Assert(jd.ID() == ad.ID(), "both ends have the session ID")
		for _, d := range []*wampproto.SessionDetails{jd, ad} {
			sym.Assert(d.Realm() == s.realm && d.AuthID() == s.k.authid && d.AuthRole() == s.k.role && d.AuthMethod() == s.way, "a session is that of its own handshake")
		}
	}
}
