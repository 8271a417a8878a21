package main

// Alternate identities: a party proves that another identity key of its own belongs
// to it, or that somebody else's key does, by signing that key. Everybody, the
// attacker included, passes the proofs on and changes them.

import (
	"bytes"
	"fmt"

	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/identity"
)

type altRec struct {
	signer, other, sig []byte
}

var altPrefix = append(bytes.Repeat([]byte{0xff}, 32), "Signal_PNI_Signature"...)

func altMsg(other []byte) []byte { return append(append([]byte(nil), altPrefix...), other...) }

// altKey is the alternate identity of a node in its present installation.
func (s *Sim) altKey(n *Node) refKey {
	return newRefKey(NewRng(sub(s.cfg.Seed, 4, uint64(n.idx), uint64(n.epoch))).Bytes(32))
}

func (s *Sim) prepAltSign(op *Op, n *Node) *task {
	r := NewRng(sub(op.Seed, 81))
	key := s.altKey(n)
	if r.P(0.5) {
		key = n.ident
	}
	var other []byte
	switch r.N(6) {
	case 0, 1:
		other = n.ident.Pub
	case 2:
		other = s.altKey(n).Pub
	case 3:
		other = s.nodes[op.P].ident.Pub
	case 4: // a key an attacker would like to see signed
		other = n.spkKey[n.spks[len(n.spks)-1]].Pub
	default:
		other = newRefKey(r.Bytes(32)).Pub
	}
	t := s.newTask(op, n, op.N, nil)
	var sig []byte
	var err error
	t.run = func() {
		if n.lib == nil {
			sig = xeddsaSign(key.Priv, r.Bytes(64), altMsg(other))
			return
		}
		o := append([]byte(nil), other...)
		k, e := identity.NewKey(o)
		if e != nil {
			bug("key: %v", e)
		}
		sig, err = libIdentity(key).SignAlternateIdentity(s.random(), k)
		if !bytes.Equal(o, other) || !bytes.Equal(k.Bytes(), other) {
			s.fail("caller-buffer", "signing an alternate identity changed it", "C18", "C23")
		}
	}
	t.finish = func() {
		if t.crashed {
			s.note("altsign", "crash", 0)
			return
		}
		if n.lib != nil {
			if err != nil {
				if len(sig) > 0 {
					s.fail("randomness", "SignAlternateIdentity returned a signature together with an error", "C20", "C23")
				}
				if !t.ctx.rndBad {
					s.fail("alternate-identity", "signing an alternate identity failed: "+err.Error(), "C23", "C19")
				}
				s.note("altsign", "fault", 0)
				return
			}
			if t.ctx.rndBad || t.ctx.rndN < 64 {
				s.fail("randomness", fmt.Sprintf("an alternate identity was signed with %d bytes of randomness (failed: %v)", t.ctx.rndN, t.ctx.rndBad), "C20", "C23")
			}
			if !xeddsaVerify(key.Pub, sig, altMsg(other)) {
				s.fail("alternate-identity", "a signature of an alternate identity does not verify in an independent implementation", "C23", "C19")
			}
			s.nonce(hx(key.Pub), sig, string(altMsg(other)))
		}
		s.alts = append(s.alts, &altRec{key.Pub, append([]byte(nil), other...), append([]byte(nil), sig...)})
		s.altHave[string(key.Pub)+string(other)+string(sig)] = true
		s.note("altsign", "ok", 0)
	}
	return t
}

func (s *Sim) prepAltVerify(op *Op, n *Node) *task {
	if n.lib == nil || len(s.alts) == 0 {
		return nil
	}
	r := NewRng(sub(op.Seed, 82))
	a := *s.alts[r.N(len(s.alts))]
	b := s.alts[r.N(len(s.alts))]
	p := s.nodes[op.P]
	mut := r.N(14)
	switch mut {
	case 0, 1, 2, 3: // as it is
	case 4: // the other way round
		a.signer, a.other = a.other, a.signer
	case 5:
		a.other = b.other
	case 6:
		a.signer = b.signer
	case 7:
		a.sig = b.sig
	case 8: // one bit of the signature or of the key it is for
		if r.P(0.5) {
			a.sig = flipBit(r, a.sig)
		} else {
			a.other = altBytes(r, a.other)
		}
	case 9: // of other length
		switch r.N(4) {
		case 0:
			a.sig = a.sig[:r.N(len(a.sig))]
		case 1:
			a.sig = append(append([]byte(nil), a.sig...), r.Bytes(1+r.N(3))...)
		case 2:
			a.sig = nil
		default:
			a.sig = make([]byte, 64)
		}
	case 10: // the signature of a signed pre-key
		id := p.spks[r.N(len(p.spks))]
		a = altRec{p.ident.Pub, p.spkKey[id].Pub, p.spkSig[id]}
	case 11: // signed without, or with another, context
		k := newRefKey(r.Bytes(32))
		msg := altMsg(a.other)
		switch r.N(5) {
		case 0:
			msg = a.other
		case 1:
			msg = msg[32:]
		case 2:
			msg = msg[:len(msg)-1]
		case 3:
			msg = append(append([]byte(nil), altPrefix[:32]...), a.other...)
		default:
			msg = append(append([]byte(nil), altPrefix...), a.other[1:]...)
		}
		a.signer, a.sig = k.Pub, xeddsaSign(k.Priv, r.Bytes(64), msg)
	case 12: // by the attacker
		k := newRefKey(r.Bytes(32))
		a.sig = xeddsaSign(k.Priv, r.Bytes(64), altMsg(a.other))
	case 13: // by a stranger, rightly
		k := newRefKey(r.Bytes(32))
		a.signer, a.sig = k.Pub, xeddsaSign(k.Priv, r.Bytes(64), altMsg(a.other))
		s.altHave[string(a.signer)+string(a.other)+string(a.sig)] = true
	}
	want := s.altHave[string(a.signer)+string(a.other)+string(a.sig)]
	t := &task{op: op, n: n}
	t.run = func() {
		ar := s.arena(a.sig, sub(op.Seed, 83))
		sk, err := identity.NewKey(append([]byte(nil), a.signer...))
		if err != nil {
			bug("key: %v", err)
		}
		ok2, err := identity.NewKey(append([]byte(nil), a.other...))
		if err != nil {
			bug("key: %v", err)
		}
		got, err := sk.VerifyAlternateIdentity(ar.slice(), ok2)
		if !ar.intact() {
			s.fail("caller-buffer", "verifying an alternate identity changed the signature", "C18", "C23")
		}
		if got && err != nil {
			s.fail("alternate-identity", "VerifyAlternateIdentity accepted with an error", "C23")
		}
		if got != want {
			s.fail("alternate-identity", fmt.Sprintf("verifying an alternate identity (change %d) gave %v (%v), expected %v", mut, got, err, want), "C23")
		}
		// In the place of the signature of a pre-key it is worth nothing.
		if want {
			pub, err := curve.NewPublicKey(append([]byte(nil), a.other...))
			if err != nil {
				bug("key: %v", err)
			}
			if v, _ := sk.PublicKey().VerifySignature(append([]byte(nil), a.sig...), pub.Bytes()); v {
				s.fail("alternate-identity", "the signature of an alternate identity passes for the signature of a pre-key", "C23", "C10")
			}
		}
	}
	s.cur = nil
	s.guarded(t)
	if t.panicV != "" {
		s.fail("panic", "verifying an alternate identity panicked: "+t.panicV, "C17", "C23")
	}
	s.note("altver", fmt.Sprint(want), sub(uint64(mut)))
	return &task{op: op, n: n}
}
