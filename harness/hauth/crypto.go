package hauth

import (
	"crypto/ed25519"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"

	"github.com/xconnio/wampproto-go/auth"
	"github.com/xconnio/wampproto-go/internal/zzverif/odd"
	"github.com/xconnio/wampproto-go/internal/zzverif/sym"
	"github.com/xconnio/wampproto-go/messages"
)

// padded is the key HMAC works with.
func padded(k []byte) []byte {
	r := make([]byte, 64)
	copy(r, k)
	return r
}

func ofLen(name string, max int) string {
	return sym.Str(name, sym.Choice(name+" length", max+1))
}

// C29_Sign: a signature verifies for the challenge and key it was made with,
// and for no other.
func C29_Sign() {
	n := sym.Bound("text length", 3, 5)
	ch, key := ofLen("challenge", n), []byte(ofLen("key", n))
	sig := auth.SignWAMPCRAChallenge(ch, key)
	sym.Assert(auth.VerifyWAMPCRASignature(sig, ch, key), "a signature verifies for its challenge and key")
	other := ofLen("other challenge", n)
	sym.Assert(auth.VerifyWAMPCRASignature(sig, other, key) == sym.Eq(ch, other), "a signature verifies for no other challenge")
	// the key reaches the MAC unchanged
	raw := auth.SignWAMPCRAChallengeBytes(ch, key)
	sym.Assert(sym.Eq(sig, base64.StdEncoding.EncodeToString(raw)), "the signature is base64 of the bytes")
}

// C29_Keys: nor for another key.
func C29_Keys() {
	n := sym.Bound("text length", 3, 5)
	ch, key := ofLen("challenge", 1), []byte(ofLen("key", n))
	sig := auth.SignWAMPCRAChallenge(ch, key)
	lens := []int{0, 1, 2, n, 63, 64}
	other := sym.Bytes("other key", lens[sym.Choice("other key length", len(lens))])
	sym.Assert(auth.VerifyWAMPCRASignature(sig, ch, other) == sym.Eq(padded(key), padded(other)), "a signature verifies under no other key")
}

// C29_LongKeys: keys longer than a block of the hash.
func C29_LongKeys() {
	lens := []int{63, 64, 65, 66, 96, 128, 129}
	n, m := lens[sym.Choice("key length", len(lens))], lens[sym.Choice("other key length", len(lens))]
	sym.Assume(n >= 64 || m >= 64)
	long := func(n int, name string) []byte {
		k := make([]byte, n)
		for i := range k {
			k[i] = byte('a' + i%26)
		}
		if n > 65 { // within the first block
			k[sym.Choice("at", 2)*60] = sym.Uint8(name + " byte")
		}
		k[n-1] = sym.Uint8(name + " last byte")
		return k
	}
	a, b := long(n, "key"), long(m, "other")
	sym.Assume(sym.And(a[n-1] != 0, b[m-1] != 0))
	sig := auth.SignWAMPCRAChallenge("challenge", a)
	sym.Assert(auth.VerifyWAMPCRASignature(sig, "challenge", a), "a signature verifies for its challenge and key")
	if n != m && n > 64 != (m > 64) {
		return // a key that is the hash of the other
	}
	sym.Assert(auth.VerifyWAMPCRASignature(sig, "challenge", b) == sym.Eq(a, b), "a signature verifies under no other key")
}

// C29_Altered: an altered signature, or any other text, is refused.
func C29_Altered() {
	ch, key := sym.Str("challenge", 2), sym.Bytes("key", 2)
	raw := auth.SignWAMPCRAChallengeBytes(ch, key)
	switch sym.Choice("alteration", 5) {
	case 0: // some byte changed
		i, x := sym.Choice("at", len(raw)), sym.Uint8("by")
		sym.Assume(x != 0)
		b := append([]byte(nil), raw...)
		b[i] ^= x
		sym.Assert(!auth.VerifyWAMPCRASignature(base64.StdEncoding.EncodeToString(b), ch, key), "an altered signature is refused")
	case 1: // cut short
		n := sym.Choice("kept", len(raw))
		sym.Assert(!auth.VerifyWAMPCRASignature(base64.StdEncoding.EncodeToString(raw[:n]), ch, key), "a cut signature is refused")
	case 2: // longer
		b := append(append([]byte(nil), raw...), sym.Bytes("more", 1+sym.Choice("more length", 3))...)
		sym.Assert(!auth.VerifyWAMPCRASignature(base64.StdEncoding.EncodeToString(b), ch, key), "a longer signature is refused")
	case 3: // any short text
		t := ofLen("text", 6)
		for i := 0; i < len(t); i++ {
			sym.Assume(t[i] != '\n' && t[i] != '\r')
		}
		sym.Assert(!auth.VerifyWAMPCRASignature(t, ch, key), "any other text is refused")
	case 4: // the text cut or extended
		t := auth.SignWAMPCRAChallenge(ch, key)
		switch sym.Choice("text", 3) {
		case 0:
			t = t[:sym.Choice("text kept", len(t))]
		case 1:
			t += []string{"=", "A", "AAAA", "====", " ", "\x00"}[sym.Choice("added", 6)]
		case 2:
			t = []string{" ", "=", "A", "AAAA"}[sym.Choice("before", 4)] + t
		}
		sym.Assert(!auth.VerifyWAMPCRASignature(t, ch, key), "an altered signature is refused")
	}
}

// C29_Derive: the salted key.
func C29_Derive() {
	n := sym.Bound("text length", 2, 4)
	salt, secret := ofLen("salt", n), ofLen("secret", n)
	iters, klen := 10, 32
	if sym.Choice("vary", 2) == 0 {
		iters = int(int32(sym.Uint32("iterations")))
		sym.Assume(iters < 1<<17)
	} else if k := sym.Choice("long", 4); k > 0 {
		klen = []int{0, 65, 128, 1024}[k]
	} else {
		klen = int(int8(sym.Uint8("keylen")))
		sym.Assume(klen <= 64)
	}
	k := auth.DeriveWAMPCRAKey(salt, secret, iters, klen)
	k2 := auth.DeriveWAMPCRAKey(salt, secret, iters, klen)
	sym.Assert(sym.Eq(k, k2), "the same parameters give the same key")
	want := klen
	if sym.Branch(want <= 0) {
		want = 32
	}
	raw, err := base64.StdEncoding.DecodeString(string(k))
	sym.Assert(err == nil && len(raw) == want, "the key is base64 of as many bytes as asked for")
	if sym.Branch(iters == 0) {
		sym.Assert(sym.Eq(k, auth.DeriveWAMPCRAKey(salt, secret, 1000, klen)), "0 iterations mean 1000")
	}
	if sym.Branch(klen == 0) {
		sym.Assert(sym.Eq(k, auth.DeriveWAMPCRAKey(salt, secret, iters, 32)), "key length 0 means 32")
	}
}

// C29_Other: other parameters give another key.
func C29_Other() {
	n := 2
	salt, secret := ofLen("salt", n), sym.Str("secret", n)
	i1 := int(sym.Uint32("iterations"))
	sym.Assume(sym.And(i1 >= 1, i1 < 1<<17))
	k := auth.DeriveWAMPCRAKey(salt, secret, i1, 32)
	switch sym.Choice("other", 4) {
	case 0:
		o := ofLen("other salt", n)
		sym.Assert(sym.Eq(k, auth.DeriveWAMPCRAKey(o, secret, i1, 32)) == sym.Eq(salt, o), "the key depends on the salt")
	case 1:
		o := ofLen("other secret", n)
		sym.Assert(sym.Eq(k, auth.DeriveWAMPCRAKey(salt, o, i1, 32)) == sym.Eq(padded([]byte(secret)), padded([]byte(o))), "the key depends on the secret")
	case 2:
		o := int(sym.Uint32("other iterations"))
		sym.Assume(sym.And(o >= 1, o < 1<<17))
		sym.Assert(sym.Eq(k, auth.DeriveWAMPCRAKey(salt, secret, o, 32)) == (i1 == o), "the key depends on the iterations")
	case 3:
		sym.Assert(!sym.Eq(k, auth.DeriveWAMPCRAKey(salt, secret, i1, []int{1, 16, 31, 33, 64}[sym.Choice("other keylen", 5)])), "the key depends on the key length")
	}
}

// C29_Client: what a client answers to a challenge.
func C29_Client() {
	id, secret := sym.Str("authid", 2), sym.Str("secret", 2)
	ch := ofLen("challenge", 2)
	extra := map[string]any{}
	if sym.Choice("odd extra", 2) == 1 {
		extra = odd.Dict("challenge", "salt", "iterations", "keylen")
	}
	if sym.Choice("challenge given", 2) == 1 {
		extra["challenge"] = ch
	} else {
		ch = ""
	}
	salt, iters, klen := "", 0, 0
	switch sym.Choice("salted", 5) {
	case 0:
	case 1:
		salt = sym.Str("salt", 2)
		extra["salt"] = salt
	case 2:
		salt = "salt"
		iters, klen = int(int32(sym.Uint32("iterations"))), 16
		sym.Assume(iters < 1<<17)
		extra["salt"], extra["iterations"], extra["keylen"] = salt, iters, klen
	case 3: // numbers as they arrive from JSON and CBOR
		salt, iters, klen = "salt", 7, 20
		extra["salt"], extra["iterations"], extra["keylen"] = salt, float64(7), uint64(20)
	case 4: // nonsense
		bad := []any{"x", nil, true, -1.5, uint64(1) << 63, 1e300, []any{}, int64(-1 << 63)}
		extra["salt"], extra["iterations"] = "salt", 5
		extra["keylen"] = bad[sym.Choice("bad", len(bad))]
		_, _ = auth.NewWAMPCRAAuthenticator(id, secret, nil).Authenticate(*messages.NewChallenge(wampcra, extra))
		return
	}
	a := auth.NewWAMPCRAAuthenticator(id, secret, map[string]any{"x": "y"})
	sym.Assert(sym.Eq(a.AuthID(), id) && a.AuthMethod() == wampcra && a.AuthExtra()["x"] == "y", "the client keeps what it was given")
	m, err := a.Authenticate(*messages.NewChallenge(wampcra, extra))
	sym.Assert(err == nil, "a challenge is answered")
	if err != nil {
		return
	}
	key := []byte(secret)
	if salt != "" {
		key = auth.DeriveWAMPCRAKey(salt, secret, iters, klen)
	}
	sym.Assert(auth.VerifyWAMPCRASignature(m.Signature(), ch, key), "with a signature of it under the key")
	sym.Assert(m.Extra()["x"] == "y", "and the authextra")
}

// C29_Challenge: what the server asks to be signed.
func C29_Challenge() {
	sid := sym.Uint64("session")
	sym.Assume(sid >= 1 && sid <= 1<<53)
	id, role, prov := sym.Str("authid", 2), sym.Str("authrole", 2), sym.Str("provider", 2)
	ch, err := auth.GenerateWAMPCRAChallenge(sid, id, role, prov)
	sym.Assert(err == nil, "a challenge can be made")
	var m map[string]any
	err = json.Unmarshal([]byte(ch), &m)
	sym.Assert(err == nil, "it is JSON")
	f, ok := m["session"].(float64)
	sym.Assert(ok && uint64(f) == sid, "it names the session")
	sym.Assert(sym.Eq(m["authid"], id) && sym.Eq(m["authrole"], role) && sym.Eq(m["authprovider"], prov) && sym.Eq(m["authmethod"], wampcra), "and the user")
	nonce, _ := m["nonce"].(string)
	raw, err := base64.StdEncoding.DecodeString(nonce)
	sym.Assert(err == nil && len(raw) >= 16, "it has a nonce")
}

// C30_Sign: signatures verify under the public key of the signing key only.
func C30_Sign() {
	k, o := newKey("seed"), newKey("other seed")
	n := 32
	ch := hex.EncodeToString(sym.Bytes("challenge", n))
	sig := k.sign(ch)
	pub, _ := hex.DecodeString(k.pub)
	ok, err := auth.VerifyCryptoSignSignature(sig, pub)
	sym.Assert(ok && err == nil, "a signature verifies under the signer's key")
	opub, _ := hex.DecodeString(o.pub)
	ok, err = auth.VerifyCryptoSignSignature(sig, opub)
	sym.Assert(err == nil && ok == sym.Eq(k.seed, o.seed), "and under no other")
	sym.Assert(len(sig) == 192 && sym.Eq(sig[128:], ch), "the signed challenge is attached")
}

// C30_Altered: no other text verifies.
func C30_Altered() {
	k := newKey("seed")
	pub, _ := hex.DecodeString(k.pub)
	raw, _ := hex.DecodeString(k.sign(hex.EncodeToString(sym.Bytes("challenge", 32))))
	sym.Assert(len(raw) == 96, "a signed challenge is 96 bytes")
	switch sym.Choice("alteration", 5) {
	case 0:
		places := []int{0, 1, 31, 32, 63, 64, 65, 95}
		i, x := places[sym.Choice("at", len(places))], sym.Uint8("by")
		sym.Assume(x != 0)
		raw[i] ^= x
		ok, _ := auth.VerifyCryptoSignSignature(hex.EncodeToString(raw), pub)
		sym.Assert(!ok, "an altered signature is refused")
	case 1:
		lens := []int{0, 1, 31, 32, 63, 64, 65, 95}
		ok, err := auth.VerifyCryptoSignSignature(hex.EncodeToString(raw[:lens[sym.Choice("kept", len(lens))]]), pub)
		sym.Assert(!ok && err != nil, "a cut signature is refused")
	case 2:
		more := [][]byte{sym.Bytes("more", 1), sym.Bytes("more", 32), sym.Bytes("more", 64), raw, raw[:64], raw[64:]}[sym.Choice("more", 6)]
		long := append(append([]byte{}, raw...), more...)
		if sym.Choice("in front", 2) == 1 {
			long = append(append([]byte{}, more...), raw...)
		}
		ok, err := auth.VerifyCryptoSignSignature(hex.EncodeToString(long), pub)
		sym.Assert(!ok && err != nil, "a longer signature is refused")
	case 3:
		ok, err := auth.VerifyCryptoSignSignature(ofLen("text", 4), pub)
		sym.Assert(!ok && err != nil, "any other text is refused")
	case 4:
		s := []byte(hex.EncodeToString(raw))
		at := []int{0, 100, 191}[sym.Choice("at", 3)]
		s[at] = sym.Uint8("digit")
		hexa := s[at] >= '0' && s[at] <= '9' || s[at] >= 'a' && s[at] <= 'f' || s[at] >= 'A' && s[at] <= 'F'
		sym.Assume(!hexa)
		ok, err := auth.VerifyCryptoSignSignature(string(s), pub)
		sym.Assert(!ok && err != nil, "what is not hexadecimal is refused")
	}
}

// C30_PublicKey: keys of a wrong length verify nothing.
func C30_PublicKey() {
	k := newKey("seed")
	pub, _ := hex.DecodeString(k.pub)
	sig := k.sign(hex.EncodeToString(sym.Bytes("challenge", 32)))
	switch sym.Choice("key", 3) {
	case 0:
		pub = pub[:[]int{0, 1, 16, 31}[sym.Choice("kept", 4)]]
	case 1:
		pub = append(pub, sym.Bytes("more", 1+sym.Choice("more length", 2))...)
	case 2:
		pub = nil
	}
	ok, err := auth.VerifyCryptoSignSignature(sig, pub)
	sym.Assert(!ok && err != nil, "a public key of the wrong length is refused")
}

// C30_Pair: generated keys work together and are drawn afresh.
func C30_Pair() {
	pub, priv, err := auth.GenerateCryptoSignKeyPair()
	sym.Assert(err == nil, "a key pair can be made")
	pub2, priv2, _ := auth.GenerateCryptoSignKeyPair()
	seed, err := hex.DecodeString(priv)
	sym.Assert(err == nil && len(seed) == 32 && len(pub) == 64, "keys are 32 bytes")
	seed2, _ := hex.DecodeString(priv2)
	for _, i := range []int{0, 13, 31} {
		sym.Possible(seed[i] == 0 && seed2[i] == 255, "private keys are drawn afresh")
	}
	sym.Possible(!sym.Eq(pub, pub2), "public keys differ")
	ch, err := auth.GenerateCryptoSignChallenge()
	sym.Assert(err == nil && len(ch) == 64, "a challenge is 32 bytes")
	ca, err := auth.NewCryptoSignAuthenticator("id", priv, map[string]any{"pubkey": pub})
	sym.Assert(err == nil, "the keys belong together")
	if err != nil {
		return
	}
	m, err := ca.Authenticate(*messages.NewChallenge(cryptosign, map[string]any{"challenge": ch}))
	sym.Assert(err == nil, "the challenge can be answered")
	if err != nil {
		return
	}
	raw, _ := hex.DecodeString(pub)
	ok, err := auth.VerifyCryptoSignSignature(m.Signature(), raw)
	sym.Assert(ok && err == nil, "and the answer verifies")
}

// C30_Client: what the client authenticator takes.
func C30_Client() {
	id := sym.Str("authid", 2)
	k := newKey("seed")
	priv := hex.EncodeToString(k.seed)
	good := true
	switch sym.Choice("private key", 5) {
	case 0:
	case 1: // another length
		lens := []int{0, 1, 2, 30, 31, 33, 64}
		priv, good = hex.EncodeToString(sym.Bytes("key", lens[sym.Choice("length", len(lens))])), false
	case 2: // any short text
		priv, good = ofLen("text", 4), false
	case 3: // a digit that is none
		s := []byte(priv)
		at := []int{0, 31, 63}[sym.Choice("at", 3)]
		s[at] = sym.Uint8("digit")
		hexa := s[at] >= '0' && s[at] <= '9' || s[at] >= 'a' && s[at] <= 'f' || s[at] >= 'A' && s[at] <= 'F'
		sym.Assume(!hexa)
		priv, good = string(s), false
	case 4: // odd
		priv, good = priv[:63], false
	}
	var extra map[string]any
	switch sym.Choice("extra", 7) {
	case 0:
	case 1:
		extra = map[string]any{"x": "y"}
	case 2:
		extra = map[string]any{"pubkey": k.pub, "x": "y"}
	case 3:
		extra = map[string]any{"pubkey": nil}
	case 4:
		o := newKey("other seed")
		sym.Assume(!sym.Eq(o.seed, k.seed))
		extra, good = map[string]any{"pubkey": o.pub}, false
	case 5:
		extra, good = map[string]any{"pubkey": ofLen("pubkey", 2)}, false
	case 6:
		extra, good = map[string]any{"pubkey": []any{true, 5, 1.5, []byte{1}, []any{}}[sym.Choice("pubkey type", 5)]}, false
	}
	ca, err := auth.NewCryptoSignAuthenticator(id, priv, extra)
	sym.Assert((err == nil) == good && (ca != nil) == good, "exactly keys that belong together are taken")
	if err != nil {
		return
	}
	sym.Assert(sym.Eq(ca.AuthID(), id) && ca.AuthMethod() == cryptosign, "the client keeps what it was given")
	sym.Assert(sym.Eq(ca.AuthExtra()["pubkey"], k.pub), "the public key is published")
	if extra["x"] != nil {
		sym.Assert(ca.AuthExtra()["x"] == "y", "the authextra is kept")
	}
}

// C30_Answer: what it answers to a challenge.
func C30_Answer() {
	k := newKey("seed")
	ca, err := auth.NewCryptoSignAuthenticator("id", hex.EncodeToString(k.seed), nil)
	if err != nil {
		return
	}
	pub, _ := hex.DecodeString(k.pub)
	extra := map[string]any{}
	if sym.Choice("odd extra", 2) == 1 {
		extra = odd.Dict("challenge")
	}
	switch sym.Choice("challenge", 4) {
	case 0:
		ch := hex.EncodeToString(sym.Bytes("challenge", 32))
		extra["challenge"] = ch
		m, err := ca.Authenticate(*messages.NewChallenge(cryptosign, extra))
		sym.Assert(err == nil, "a challenge is answered")
		if err == nil {
			ok, _ := auth.VerifyCryptoSignSignature(m.Signature(), pub)
			sym.Assert(ok && sym.Eq(m.Signature()[128:], ch), "with a signature of it")
			sym.Assert(sym.Eq(m.Extra()["pubkey"], k.pub), "and the public key")
		}
		return
	case 1:
		extra["challenge"] = ofLen("text", 3)
	case 2:
		extra["challenge"] = []any{nil, 5, 1.5, true, []any{}, map[string]any{}}[sym.Choice("type", 6)]
	case 3:
		extra = nil
	}
	m, err := ca.Authenticate(*messages.NewChallenge(cryptosign, extra))
	if err == nil {
		ok, _ := auth.VerifyCryptoSignSignature(m.Signature(), pub)
		sym.Assert(!ok, "no other challenge gives a valid answer")
	} else {
		sym.Assert(m == nil, "an error comes without an answer")
	}
}

var _ = ed25519.SeedSize
