// Package models holds the environment models that the engine executes in
// place of standard-library functions it does not look into. Cryptography is
// idealised: hashes, MACs and signatures are uninterpreted functions that never
// collide.
package models

import (
	"crypto"
	"crypto/ed25519"
	"hash"
	"io"

	"github.com/xconnio/wampproto-go/internal/zzverif/sym"
)

// ErrorsIs is errors.Is.
func ErrorsIs(err, target error) bool {
	for err != nil {
		if err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if ErrorsIs(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return target == nil
}

// RandRead is crypto/rand.Read.
func RandRead(b []byte) (int, error) {
	copy(b, sym.FreshBytes(len(b)))
	return len(b), nil
}

// RandReader is the type of crypto/rand.Reader.
type RandReader struct{}

func (*RandReader) Read(b []byte) (int, error) { return RandRead(b) }

type sha struct{ buf []byte }

func (s *sha) Write(p []byte) (int, error) { s.buf = append(s.buf, p...); return len(p), nil }
func (s *sha) Sum(b []byte) []byte {
	return append(b, sym.UF("sha256", 32, true, s.buf)...)
}
func (s *sha) Reset()         { s.buf = nil }
func (s *sha) Size() int      { return 32 }
func (s *sha) BlockSize() int { return 64 }

func Sha256New() hash.Hash { return &sha{} }

func Sha256Sum256(data []byte) [32]byte {
	var r [32]byte
	copy(r[:], sym.UF("sha256", 32, true, data))
	return r
}

type mac struct {
	key []byte
	buf []byte
}

func (s *mac) Write(p []byte) (int, error) { s.buf = append(s.buf, p...); return len(p), nil }
func (s *mac) Sum(b []byte) []byte {
	return append(b, sym.UF("hmac-sha256", 32, true, s.key, s.buf)...)
}
func (s *mac) Reset()         { s.buf = nil }
func (s *mac) Size() int      { return 32 }
func (s *mac) BlockSize() int { return 64 }

// hmacKey pads a key as HMAC does.
func hmacKey(key []byte) []byte {
	if len(key) > 64 {
		key = sym.UF("sha256", 32, true, key)
	}
	k := make([]byte, 64)
	copy(k, key)
	return k
}

func HmacNew(h func() hash.Hash, key []byte) hash.Hash {
	if _, ok := h().(*sha); !ok {
		sym.Unsupported("HMAC over another hash")
	}
	return &mac{key: hmacKey(key)}
}

func Pbkdf2Key(password, salt []byte, iter, keyLen int, h func() hash.Hash) []byte {
	if _, ok := h().(*sha); !ok {
		sym.Unsupported("PBKDF2 over another hash")
	}
	if sym.Branch(keyLen < 0) {
		panic("slice bounds out of range")
	}
	if sym.Branch(keyLen > 64) {
		some := 0
		for _, n := range []int{65, 100, 128, 1024} {
			if some == 0 && sym.Branch(keyLen == n) {
				some = n
			}
		}
		if some == 0 {
			sym.Unsupported("PBKDF2 key length above 64")
		}
		keyLen = some
	} else {
		keyLen = sym.Concretize(keyLen, 0, 64)
	}
	n := sym.IteU64(iter < 1, 1, uint64(iter))
	it := make([]byte, 8)
	for i := range it {
		it[i] = byte(n >> (8 * i))
	}
	return sym.UF("pbkdf2", keyLen, keyLen >= 16, hmacKey(password), append([]byte(nil), salt...), it)
}

func EdNewKeyFromSeed(seed []byte) ed25519.PrivateKey {
	if len(seed) != 32 {
		panic("ed25519: bad seed length")
	}
	return append(append([]byte(nil), seed...), sym.UF("edpk", 32, true, seed)...)
}

func EdGenerateKey(r io.Reader) (ed25519.PublicKey, ed25519.PrivateKey, error) {
	p := EdNewKeyFromSeed(sym.FreshBytes(32))
	return ed25519.PublicKey(append([]byte(nil), p[32:]...)), p, nil
}

func EdSign(k ed25519.PrivateKey, msg []byte) []byte {
	if len(k) != 64 {
		panic("ed25519: bad private key length")
	}
	if !sym.Branch(sym.Eq(sym.UF("edpk", 32, true, []byte(k[:32])), []byte(k[32:]))) {
		return sym.UF("edsig-mixed", 64, true, []byte(k), msg)
	}
	return sym.UF("edsig", 64, true, []byte(k[32:]), msg)
}

func EdSignM(k ed25519.PrivateKey, r io.Reader, msg []byte, opts crypto.SignerOpts) ([]byte, error) {
	return EdSign(k, msg), nil
}

func EdVerify(pub ed25519.PublicKey, msg, sig []byte) bool {
	if len(pub) != 32 {
		panic("ed25519: bad public key length")
	}
	if len(sig) != 64 {
		return false
	}
	return sym.Eq(sym.UF("edsig", 64, true, []byte(pub), msg), append([]byte(nil), sig...))
}

func EdPublic(k ed25519.PrivateKey) crypto.PublicKey {
	p := make([]byte, 32)
	copy(p, k[32:])
	return ed25519.PublicKey(p)
}

func EdSeed(k ed25519.PrivateKey) []byte { return append([]byte(nil), k[:32]...) }

func NaclOpen(out, signed []byte, pub *[32]byte) ([]byte, bool) {
	if len(signed) < 64 {
		return nil, false
	}
	if !sym.Branch(EdVerify(pub[:], signed[64:], signed[:64])) {
		return nil, false
	}
	return append(out, signed[64:]...), true
}

func NaclSign(out, msg []byte, priv *[64]byte) []byte {
	return append(append(out, EdSign(priv[:], msg)...), msg...)
}
