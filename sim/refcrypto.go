package main

// Reference cryptography, written from the specifications (X3DH, Double Ratchet,
// XEdDSA, RFC 5869) on top of the Go standard library and edwards25519; it uses
// nothing of the library under test.

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/ecdh"
	"crypto/ed25519"
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"errors"

	"filippo.io/edwards25519"
	fe "filippo.io/edwards25519/field"
)

func hm(key []byte, data ...[]byte) []byte {
	h := hmac.New(sha256.New, key)
	for _, d := range data {
		h.Write(d)
	}
	return h.Sum(nil)
}

func hkdf(ikm, salt []byte, info string, n int) []byte {
	if salt == nil {
		salt = make([]byte, 32)
	}
	prk := hm(salt, ikm)
	var t, out []byte
	for i := byte(1); len(out) < n; i++ {
		t = hm(prk, t, []byte(info), []byte{i})
		out = append(out, t...)
	}
	return out[:n]
}

func clamp(k []byte) []byte {
	c := append([]byte(nil), k...)
	c[0] &= 248
	c[31] &= 127
	c[31] |= 64
	return c
}

// refKey is a Curve25519 key pair; Pub carries the type byte.
type refKey struct {
	Priv []byte
	Pub  []byte
}

func newRefKey(seed []byte) refKey {
	priv := clamp(seed)
	k, err := ecdh.X25519().NewPrivateKey(priv)
	if err != nil {
		panic(err)
	}
	return refKey{Priv: priv, Pub: append([]byte{5}, k.PublicKey().Bytes()...)}
}

func dh(priv, pub []byte) ([]byte, error) {
	if len(pub) < 33 || pub[0] != 5 {
		return nil, errors.New("bad public key")
	}
	k, err := ecdh.X25519().NewPrivateKey(priv)
	if err != nil {
		return nil, err
	}
	p, err := ecdh.X25519().NewPublicKey(pub[1:33])
	if err != nil {
		return nil, err
	}
	return k.ECDH(p)
}

// xeddsaSign implements the XEdDSA variant of libsignal: the sign of the Edwards
// public key travels in the top bit of the signature.
func xeddsaSign(priv []byte, z []byte, msg []byte) []byte {
	a, _ := edwards25519.NewScalar().SetBytesWithClamping(priv)
	A := new(edwards25519.Point).ScalarBaseMult(a).Bytes()
	pre := bytes.Repeat([]byte{0xff}, 32)
	pre[0] = 0xfe
	h := sha512.New()
	h.Write(pre)
	h.Write(a.Bytes())
	h.Write(msg)
	h.Write(z)
	r, _ := edwards25519.NewScalar().SetUniformBytes(h.Sum(nil))
	R := new(edwards25519.Point).ScalarBaseMult(r).Bytes()
	h.Reset()
	h.Write(R)
	h.Write(A)
	h.Write(msg)
	k, _ := edwards25519.NewScalar().SetUniformBytes(h.Sum(nil))
	s := edwards25519.NewScalar().MultiplyAdd(k, a, r).Bytes()
	sig := append(append([]byte{}, R...), s...)
	sig[63] |= A[31] & 0x80
	return sig
}

func montToEd(u []byte) ([]byte, bool) {
	e, err := new(fe.Element).SetBytes(u)
	if err != nil {
		return nil, false
	}
	one := new(fe.Element).One()
	den := new(fe.Element).Add(e, one)
	if den.Equal(new(fe.Element).Zero()) == 1 {
		return nil, false
	}
	y := new(fe.Element).Subtract(e, one)
	return y.Multiply(y, den.Invert(den)).Bytes(), true
}

func xeddsaVerify(pub, sig, msg []byte) bool {
	if len(sig) != 64 || len(pub) != 33 {
		return false
	}
	y, ok := montToEd(pub[1:])
	if !ok {
		return false
	}
	y[31] |= sig[63] & 0x80
	s := append([]byte(nil), sig...)
	s[63] &= 0x7f
	return ed25519.Verify(y, msg, s)
}

// torsioned returns the u-coordinate of the point of pub plus a point of order 8,
// which leads to the same agreements as pub.
func torsioned(pub []byte, k int) []byte {
	y, ok := montToEd(pub[1:])
	if !ok {
		return nil
	}
	P, err := new(edwards25519.Point).SetBytes(y)
	if err != nil {
		return nil
	}
	// A point of order 8 (from the edwards25519 low-order point list).
	t := []byte{0xc7, 0x17, 0x6a, 0x70, 0x3d, 0x4d, 0xd8, 0x4f, 0xba, 0x3c, 0x0b, 0x76, 0x0d, 0x10, 0x67, 0x0f,
		0x2a, 0x20, 0x53, 0xfa, 0x2c, 0x39, 0xcc, 0xc6, 0x4e, 0xc7, 0xfd, 0x77, 0x92, 0xac, 0x03, 0x7a}
	T, err := new(edwards25519.Point).SetBytes(t)
	if err != nil {
		return nil
	}
	for i := 0; i < k%7+1; i++ {
		P.Add(P, T)
	}
	return append([]byte{5}, P.BytesMontgomery()...)
}

func cbcEnc(key, iv, pt []byte) []byte {
	n := 16 - len(pt)%16
	p := append(append([]byte{}, pt...), bytes.Repeat([]byte{byte(n)}, n)...)
	b, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	out := make([]byte, len(p))
	cipher.NewCBCEncrypter(b, iv).CryptBlocks(out, p)
	return out
}

func cbcDec(key, iv, ct []byte) ([]byte, error) {
	if len(ct) == 0 || len(ct)%16 != 0 {
		return nil, errors.New("bad length")
	}
	b, err := aes.NewCipher(key)
	if err != nil {
		return nil, err
	}
	out := make([]byte, len(ct))
	cipher.NewCBCDecrypter(b, iv).CryptBlocks(out, ct)
	n := int(out[len(out)-1])
	if n < 1 || n > 16 {
		return nil, errors.New("bad padding")
	}
	for _, c := range out[len(out)-n:] {
		if int(c) != n {
			return nil, errors.New("bad padding")
		}
	}
	return out[:len(out)-n], nil
}

type msgKeys struct{ Cipher, Mac, IV []byte }

func deriveMsgKeys(ck []byte) msgKeys {
	o := hkdf(hm(ck, []byte{1}), nil, "WhisperMessageKeys", 80)
	return msgKeys{o[:32], o[32:64], o[64:]}
}

func nextCk(ck []byte) []byte { return hm(ck, []byte{2}) }

func groupKeys(ck []byte) (iv, key []byte) {
	o := hkdf(hm(ck, []byte{1}), nil, "WhisperGroup", 48)
	return o[:16], o[16:]
}
