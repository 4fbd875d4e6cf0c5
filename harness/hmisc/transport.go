// Package hmisc checks the small stand-alone parts: rawsocket framing, ID
// generation, value conversion, timestamps and the typed map.
package hmisc

import (
	"github.com/xconnio/wampproto-go/internal/zzverif/sym"
	"github.com/xconnio/wampproto-go/transports"
)

// C37_Send: any size and serializer code given to SendHandshake.
func C37_Send() {
	size := sym.Int("size")
	ser := sym.Int("serializer")
	sym.Assume(size < 1<<47) // math.Log2 is modelled below 2^48
	sym.Assume(ser >= 1 && ser <= 15)
	hs := transports.NewHandshake(transports.Serializer(ser), size)
	sym.Assert(sym.And(hs.MaxMessageSize() == size, int(hs.Serializer()) == ser), "accessors return what was given")
	b, err := transports.SendHandshake(hs)
	good := sym.And(size >= 512, size <= 1<<24, size&(size-1) == 0)
	sym.Assert(sym.Iff(err == nil, good), "accepted exactly for powers of two from 512 to 16 MiB")
	sym.Observe("err", err)
	if err != nil {
		return
	}
	sym.Observe("bytes", b)
	sym.Assert(len(b) == 4, "four bytes")
	if len(b) != 4 {
		return
	}
	sym.Assert(sym.And(b[0] == 0x7F, b[2] == 0, b[3] == 0), "magic and zero bytes")
	r, err := transports.ReceiveHandshake(b)
	sym.Assert(err == nil, "own handshake is readable")
	if err != nil {
		return
	}
	sym.Assert(sym.And(r.MaxMessageSize() == size, int(r.Serializer()) == ser), "read back as written")
	sym.Cover("round trip")
}

// C37_Receive: any byte sequence of length 0..6.
func C37_Receive() {
	n := sym.Choice("len", 7)
	b := sym.Bytes("data", n)
	var in []byte
	in = append(in, b...)
	if n == 0 && sym.Choice("nil", 2) == 1 {
		in = nil
	}
	r, err := transports.ReceiveHandshake(in)
	if n != 4 {
		sym.Assert(err != nil, "wrong length is refused")
		return
	}
	good := sym.And(b[0] == 0x7F, b[2] == 0, b[3] == 0)
	sym.Assert(sym.Iff(err == nil, good), "accepted exactly with magic and zero reserved bytes")
	if err != nil {
		return
	}
	sym.Observe("size", r.MaxMessageSize())
	sym.Assert(sym.And(r.MaxMessageSize() == 512<<(b[1]>>4), int(r.Serializer()) == int(b[1]&15)), "size and serializer as encoded")
}

// C38_Send: any kind and length.
func C38_Send() {
	kind := sym.Uint8("kind")
	length := sym.Int("length")
	sym.Assume(length >= 0 && length < 1<<24)
	h := transports.NewMessageHeader(transports.Message(kind), length)
	sym.Assert(sym.And(byte(h.Kind()) == kind, h.Length() == length), "accessors return what was given")
	b := transports.SendMessageHeader(h)
	sym.Assert(len(b) == 4, "four bytes")
	if len(b) != 4 {
		return
	}
	sym.Observe("bytes", b)
	sym.Assert(sym.And(b[0] == kind, b[1] == byte(length>>16), b[2] == byte(length>>8), b[3] == byte(length)), "kind then big-endian length")
	r, err := transports.ReceiveMessageHeader(b)
	sym.Assert(err == nil, "own header is readable")
	if err != nil {
		return
	}
	sym.Assert(sym.And(byte(r.Kind()) == kind, r.Length() == length), "read back as written")
}

// C37_Codes: the protocol's codes have their names.
func C37_Codes() {
	codes := []struct {
		code transports.Serializer
		wire byte
	}{{transports.SerializerJson, 1}, {transports.SerializerMsgpack, 2}, {transports.SerializerCbor, 3}}
	c := codes[sym.Choice("serializer", len(codes))]
	log := uint(9 + sym.Choice("size", 16))
	b, err := transports.SendHandshake(transports.NewHandshake(c.code, 1<<log))
	sym.Assert(err == nil && len(b) == 4, "a handshake can be sent")
	if err != nil || len(b) != 4 {
		return
	}
	sym.Assert(b[1] == byte(log-9)<<4|c.wire, "the serializers have the protocol's codes")
	size, low := sym.Uint8("size sent")&15, sym.Uint8("code sent")&15
	r, err := transports.ReceiveHandshake([]byte{0x7F, size<<4 | low, 0, 0})
	sym.Assert(err == nil, "a handshake of the protocol is readable")
	if err != nil {
		return
	}
	sym.Assert(sym.Iff(r.Serializer() == c.code, low == c.wire), "the protocol's codes are those of the serializers")
	sym.Assert(transports.MAGIC == 0x7F && transports.ProtocolMaxMsgSize == 1<<24, "the protocol's first byte and largest size")
	_, err = transports.SendHandshake(transports.NewHandshake(c.code, transports.DefaultMaxMsgSize))
	sym.Assert(err == nil, "the size used by default can be sent")
}

// C38_Codes: the protocol's kinds have their names, and lengths are
// written in three bytes by themselves too.
func C38_Codes() {
	kinds := []struct {
		kind transports.Message
		wire byte
	}{{transports.MessageWamp, 0}, {transports.MessagePing, 1}, {transports.MessagePong, 2}}
	c := kinds[sym.Choice("kind", len(kinds))]
	length := sym.Int("length")
	sym.Assume(sym.And(length >= 0, length < 1<<24))
	b := transports.SendMessageHeader(transports.NewMessageHeader(c.kind, length))
	sym.Assert(len(b) == 4, "four bytes")
	if len(b) != 4 {
		return
	}
	sym.Assert(b[0] == c.wire, "the kinds have the protocol's codes")
	first := sym.Uint8("first")
	r, err := transports.ReceiveMessageHeader([]byte{first, b[1], b[2], b[3]})
	sym.Assert(err == nil, "a header of the protocol is readable")
	if err != nil {
		return
	}
	sym.Assert(sym.Iff(r.Kind() == c.kind, first == c.wire), "the protocol's codes are those of the kinds")
	l := transports.IntToBytes(length)
	sym.Assert(sym.And(l[0] == byte(length>>16), l[1] == byte(length>>8), l[2] == byte(length)), "a length is three bytes, big-endian")
	sym.Assert(transports.BytesToInt([]byte{b[1], b[2], b[3]}) == length, "a length is read back")
}

// C38_Receive: any byte sequence of length 0..6.
func C38_Receive() {
	n := sym.Choice("len", 7)
	b := sym.Bytes("data", n)
	in := append([]byte(nil), b...)
	r, err := transports.ReceiveMessageHeader(in)
	sym.Assert((err == nil) == (n == 4), "refused exactly when not four bytes")
	if err != nil || n != 4 {
		return
	}
	sym.Assert(sym.And(byte(r.Kind()) == b[0], r.Length() == int(b[1])<<16|int(b[2])<<8|int(b[3])), "kind and length as encoded")
}
