package hflow

import (
	"crypto/ed25519"
	"encoding/hex"

	"github.com/xconnio/wampproto-go/auth"
	"github.com/xconnio/wampproto-go/internal/zzverif/sym"
	"github.com/xconnio/wampproto-go/transports"
)

// C46_Transport: handshakes and headers of the raw socket transport, which
// share no bytes.
func C46_Transport() {
	k := &kept{}
	size := []int{512, 1 << 24}[sym.Choice("size", 2)]
	length := int(sym.Uint16("length"))
	for i := 0; i < 2; i++ {
		switch sym.Choice("what", 3) {
		case 0:
			h := transports.NewHandshake(transports.Serializer(1+i), size)
			b, err := transports.SendHandshake(h)
			sym.Assert(err == nil, "a handshake can be sent")
			k.keep("handshakes sent", func() any { return b })
			in := append([]byte{}, b...)
			k.keep("handshakes read", func() any { return in })
			got, err := transports.ReceiveHandshake(in)
			sym.Assert(err == nil, "a handshake can be read")
			k.keep("handshakes", func() any {
				return []any{uint64(h.Serializer()), uint64(h.MaxMessageSize()), uint64(got.Serializer()), uint64(got.MaxMessageSize())}
			})
		case 1:
			h := transports.NewMessageHeader(transports.Message(i), length+i)
			b := transports.SendMessageHeader(h)
			k.keep("headers sent", func() any { return b })
			in := append([]byte{}, b...)
			k.keep("headers read", func() any { return in })
			got, err := transports.ReceiveMessageHeader(in)
			sym.Assert(err == nil, "a header can be read")
			k.keep("headers", func() any {
				return []any{uint64(h.Kind()), uint64(h.Length()), uint64(got.Kind()), uint64(got.Length())}
			})
		case 2:
			b := transports.IntToBytes(length + i)
			k.keep("lengths", func() any { return b })
			_ = transports.BytesToInt(b)
		}
	}
	k.check()
}

// C46_Crypto: keys, derived keys and signatures.
func C46_Crypto() {
	k := &kept{}
	for i := 0; i < 2; i++ {
		switch sym.Choice("what", 3) {
		case 0:
			key := []byte([]string{"key", "a longer key of more than the 64 bytes that HMAC-SHA256 takes at once ..."}[sym.Choice("key", 2)])
			k.keep("keys", func() any { return key })
			b := auth.SignWAMPCRAChallengeBytes("challenge", key)
			k.keep("signatures", func() any { return b })
			sig := auth.SignWAMPCRAChallenge("challenge", key)
			sym.Assert(auth.VerifyWAMPCRASignature(sig, "challenge", key), "a signature with the right key is right")
		case 1:
			b := auth.DeriveWAMPCRAKey("salt", []string{"s", "t"}[i], 2, []int{0, 16}[sym.Choice("keylen", 2)])
			k.keep("derived keys", func() any { return b })
		case 2:
			pub, priv, err := auth.GenerateCryptoSignKeyPair()
			sym.Assert(err == nil, "a key pair can be made")
			seed, _ := hex.DecodeString(priv)
			pk, _ := hex.DecodeString(pub)
			sk := ed25519.NewKeyFromSeed(seed)
			k.keep("keys", func() any { return []any{[]byte(sk), pk} })
			ch, err := auth.GenerateCryptoSignChallenge()
			sym.Assert(err == nil, "a challenge can be made")
			sig, err := auth.SignCryptoSignChallenge(ch, sk)
			sym.Assert(err == nil, "a challenge can be signed")
			ok, err := auth.VerifyCryptoSignSignature(sig, pk)
			sym.Assert(ok && err == nil, "a signature with the right key is right")
		}
	}
	k.check()
}
