package main

// Forgeries: what an attacker on the network (or a malicious member of a group)
// can make of the traffic it sees.

import (
	"bytes"
	"fmt"
	"runtime"
)

var mutKinds = []string{"bitflip", "bitflip", "bitflip", "truncate", "extend", "splice", "ctr", "rat", "body", "prev", "version", "mac", "macpart",
	"inner", "inner", "base", "ident", "otpk", "spk", "reg", "reenc", "wrap", "reflect", "misdirect", "misattribute", "confuse", "far", "lowrat",
	"dupfield", "swapbody", "basealt", "identalt", "unwrapped", "ratalt", "attacker"}

func flipBit(r *Rng, b []byte) []byte {
	c := append([]byte(nil), b...)
	if len(c) == 0 {
		return []byte{1}
	}
	c[r.N(len(c))] ^= 1 << r.N(8)
	return c
}

var lowOrder = []string{
	"0000000000000000000000000000000000000000000000000000000000000000",
	"0100000000000000000000000000000000000000000000000000000000000000",
	"e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800",
	"5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157",
	"ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
	"edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
	"eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
	"ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff",
}

func lowKey(r *Rng) []byte { return append([]byte{5}, unhex(lowOrder[r.N(len(lowOrder))])...) }

// altKey is another encoding of, or another key with the same agreements as, key.
func altKey(r *Rng, key []byte) []byte {
	switch r.N(3) {
	case 0:
		c := append([]byte(nil), key...)
		c[32] ^= 0x80
		return c
	case 1:
		return append(append([]byte(nil), key...), byte(r.N(256))) // trailing data
	}
	if t := torsioned(key, r.N(7)); t != nil {
		return t
	}
	return lowKey(r)
}

func (s *Sim) prepMut(op *Op, n *Node) *task {
	q := s.byID[op.Pkt]
	if q == nil || q.Group || n.lib == nil {
		return nil
	}
	q2 := s.byID[op.Pkt2]
	if q2 == nil || q2.Group {
		q2 = q
	}
	r := NewRng(sub(op.Seed, 51))
	peer := op.P
	pre := q.Pre
	wire := append([]byte(nil), q.Wire...)
	// onInner applies a change to the message itself, inside an initial message or not.
	onInner := func(f func(*sigMsg) []byte) bool {
		m, ok := parseSignal(q.Inner)
		if !ok {
			return false
		}
		in := f(m)
		if !q.Pre || r.P(0.3) {
			pre, wire = false, in
			return true
		}
		pm, ok := parsePre(q.Wire)
		if !ok {
			return false
		}
		pm.Inner = in
		wire = pm.enc()
		return true
	}
	onPre := func(f func(*preMsg)) bool {
		pm, ok := parsePre(q.Wire)
		if !q.Pre || !ok {
			return false
		}
		f(pm)
		wire = pm.enc()
		return true
	}
	ok := true
	var limit uint64
	switch op.Mut {
	case "bitflip":
		for i := 0; i <= r.N(2); i++ {
			wire = flipBit(r, wire)
		}
	case "truncate":
		wire = wire[:r.N(len(wire))]
	case "extend":
		wire = append(wire, r.Bytes(1+r.N(9))...)
	case "splice":
		w2 := q2.Wire
		i := r.N(len(wire))
		if i < len(w2) {
			wire = append(append([]byte(nil), wire[:i]...), w2[i:]...)
		}
	case "ctr":
		ok = onInner(func(m *sigMsg) []byte {
			switch r.N(4) {
			case 0:
				m.Ctr++
			case 1:
				m.Ctr--
			case 2:
				m.Ctr += uint32(r.N(50))
			default:
				m.Ctr = uint32(r.N(int(m.Ctr) + 2))
			}
			if m.Ctr > q.Ctr+1000 {
				m.Ctr = q.Ctr + 1
			}
			return m.enc()
		})
	case "rat":
		ok = onInner(func(m *sigMsg) []byte {
			if r.P(0.5) {
				m.Rat = newRefKey(r.Bytes(32)).Pub
			} else if m2, ok := parseSignal(q2.Inner); ok {
				m.Rat = m2.Rat
			}
			return m.enc()
		})
	case "ratalt":
		ok = onInner(func(m *sigMsg) []byte { m.Rat = altKey(r, m.Rat); return m.enc() })
	case "lowrat":
		ok = onInner(func(m *sigMsg) []byte { m.Rat = lowKey(r); return m.enc() })
	case "body":
		ok = onInner(func(m *sigMsg) []byte {
			switch r.N(4) {
			case 0:
				m.Body = flipBit(r, m.Body)
			case 1:
				if len(m.Body) >= 16 {
					m.Body = m.Body[:16*r.N(len(m.Body)/16)]
				}
			case 2:
				m.Body = append(append([]byte(nil), m.Body...), r.Bytes(16)...)
			default:
				m.Body = r.Bytes(16 * r.N(4))
			}
			return m.enc()
		})
	case "swapbody":
		ok = onInner(func(m *sigMsg) []byte {
			if m2, ok := parseSignal(q2.Inner); ok {
				if r.P(0.5) {
					m.Body, m.Mac = m2.Body, m2.Mac
				} else {
					m.Body = m2.Body
				}
			}
			return m.enc()
		})
	case "prev":
		ok = onInner(func(m *sigMsg) []byte { m.Prev += 1 + uint32(r.N(3)); return m.enc() })
	case "version":
		if r.P(0.5) {
			ok = onInner(func(m *sigMsg) []byte {
				m.Ver = byte(r.Pick(0x30, 0x31, 0x32, 0x34, 0x3f, 0x23, 0x43, 0x22, 0x44, 0x13, 0))
				return m.enc()
			})
		} else {
			wire[0] = byte(r.Pick(0x30, 0x31, 0x32, 0x34, 0x3f, 0x23, 0x43, 0x22, 0x44, 0x13, 0))
		}
	case "mac":
		ok = onInner(func(m *sigMsg) []byte {
			m.Mac = append([]byte(nil), m.Mac...)
			switch r.N(8) {
			case 0: // shifted or rotated
				k := r.Between(1, 7)
				copy(m.Mac, append(append([]byte(nil), m.Mac[k:]...), m.Mac[:k]...))
			case 1:
				k := r.Between(1, 7)
				copy(m.Mac[k:], append([]byte(nil), m.Mac[:8-k]...))
			case 2:
				k := r.Between(1, 7)
				copy(m.Mac, append(append([]byte(nil), m.Mac[k:]...), make([]byte, k)...))
			case 3: // the same bytes in another order
				for i, j := range r.Perm(8) {
					m.Mac[i], m.Mac[j] = m.Mac[j], m.Mac[i]
				}
			case 4:
				m.Mac = bytes.Repeat([]byte{byte(r.Pick(0, 0xff, int(m.Mac[0])))}, 8)
			default:
				m.Mac[r.N(8)] ^= 1 << r.N(8)
			}
			return m.enc()
		})
	case "macpart":
		ok = onInner(func(m *sigMsg) []byte {
			mac := append([]byte(nil), m.Mac...)
			for i := r.N(8); i < 8; i++ {
				mac[i] = byte(r.U64())
			}
			m.Mac = mac
			return m.enc()
		})
	case "reenc": // the same fields in another encoding
		ok = onInner(func(m *sigMsg) []byte {
			fs := append([]field(nil), m.Fields...)
			i, j := r.N(len(fs)), r.N(len(fs))
			fs[i], fs[j] = fs[j], fs[i]
			if r.P(0.5) {
				fs = append(fs, fv(9+r.N(5), r.U64()))
			}
			return append(append([]byte{m.Ver}, encFields(fs)...), m.Mac...)
		})
	case "dupfield":
		ok = onInner(func(m *sigMsg) []byte {
			fs := append([]field(nil), m.Fields...)
			switch r.N(3) {
			case 0:
				fs = append(fs, fv(2, uint64(m.Ctr)+1+uint64(r.N(3))))
			case 1:
				fs = append(fs, fb(4, r.Bytes(16)))
			default:
				fs = append(fs, fb(1, newRefKey(r.Bytes(32)).Pub))
			}
			return append(append([]byte{m.Ver}, encFields(fs)...), m.Mac...)
		})
	case "inner":
		ok = onPre(func(m *preMsg) { m.Inner = q2.Inner })
	case "base":
		ok = onPre(func(m *preMsg) {
			m.Base = newRefKey(r.Bytes(32)).Pub
			if q2.Pre && r.P(0.5) {
				if m2, ok := parsePre(q2.Wire); ok {
					m.Base = m2.Base
				}
			}
		})
	case "basealt":
		ok = onPre(func(m *preMsg) { m.Base = altKey(r, m.Base) })
	case "identalt":
		ok = onPre(func(m *preMsg) { m.Ident = altKey(r, m.Ident) })
	case "ident":
		ok = onPre(func(m *preMsg) {
			switch r.N(3) {
			case 0:
				m.Ident = newRefKey(r.Bytes(32)).Pub
			case 1:
				m.Ident = s.nodes[r.N(len(s.nodes))].ident.Pub
			default:
				m.Ident = lowKey(r)
			}
		})
	case "otpk":
		ok = onPre(func(m *preMsg) {
			id := uint32(0)
			switch {
			case m.Otpk != nil && r.P(0.4):
				m.Otpk = nil
				return
			case len(n.otpks) > 0 && r.P(0.7):
				id = n.otpks[r.N(len(n.otpks))]
			default:
				id = uint32(r.U64())
			}
			m.Otpk = &id
		})
	case "spk":
		ok = onPre(func(m *preMsg) {
			m.Spk = uint32(r.U64())
			if r.P(0.6) {
				m.Spk = n.spks[r.N(len(n.spks))]
			}
		})
	case "reg":
		ok = onPre(func(m *preMsg) { m.Reg = uint32(r.U64()) })
	case "wrap": // a regular message in a made-up initial message
		m := &preMsg{Ver: 0x33, Reg: uint32(r.U64()), Spk: n.spks[r.N(len(n.spks))], Base: newRefKey(r.Bytes(32)).Pub, Ident: unhex(q.Ident), Inner: q.Inner}
		if r.P(0.4) {
			m.Ident = newRefKey(r.Bytes(32)).Pub
		}
		if len(n.otpks) > 0 && r.P(0.6) {
			id := n.otpks[r.N(len(n.otpks))]
			m.Otpk = &id
		}
		if r.P(0.3) && len(q.Sess) == 66 {
			m.Base = unhex(q.Sess)
		}
		pre, wire = true, m.enc()
	case "attacker": // a complete initial message of the attacker under its own identity
		if n.pins[peer] == "" || len(n.spks) == 0 {
			return nil
		}
		spk := n.spks[len(n.spks)-1]
		b := &Bundle{Reg: n.reg, Spk: spk, SpkPub: n.spkKey[spk].Pub, Sig: n.spkSig[spk], Ident: n.ident.Pub}
		if len(n.otpks) > 0 && r.P(0.5) {
			id := n.otpks[r.N(len(n.otpks))]
			b.Otpk, b.OtpkPub = &id, n.otKey[id].Pub
		}
		a := newRefParty(newRefKey(r.Bytes(32)), 7)
		if err := a.processBundle(0, r, b); err != nil {
			bug("attacker: %v", err)
		}
		w, p, err := a.encrypt(0, []byte("attack"))
		if err != nil || !p {
			bug("attacker: %v", err)
		}
		if r.P(0.5) { // naming the trusted identity
			pm, _ := parsePre(w)
			pm.Ident = unhex(n.pins[peer])
			w = pm.enc()
		}
		pre, wire = true, w
	case "reflect": // back to its sender
		if n.idx != q.From || peer != q.To {
			return nil
		}
	case "misdirect": // to another party
		if n.idx == q.To || n.idx == q.From {
			return nil
		}
		peer = q.From
		if s.sharedKeys(n, s.nodes[q.To]) {
			return nil
		}
	case "misattribute": // under another party's address
		if n.idx != q.To || peer == q.From || peer == n.idx {
			return nil
		}
		if pre && (n.pins[peer] == "" || n.pins[peer] == q.Ident) {
			return nil
		}
	case "confuse":
		pre = !pre
		if !pre && r.P(0.5) {
			wire = wire[1:]
		}
	case "unwrapped": // the message inside with something around it
		wire = append([]byte{}, q.Inner...)
		wire = append(wire, r.Bytes(8)...)
		pre = false
	case "far":
		self := false
		for _, m := range n.conv(peer).all() {
			self = self || m.local == m.remote
		}
		if self {
			return nil
		}
		limit = 300 << 20
		ok = onInner(func(m *sigMsg) []byte {
			m.Ctr += uint32(r.Pick(400_000, 3_000_000, 0x7fffffff, 0xfffffff0))
			if m.Ctr < 400_000 {
				m.Ctr = 0xffffffff
			}
			if r.P(0.5) {
				m.Rat = newRefKey(r.Bytes(32)).Pub
			}
			return m.enc()
		})
	default:
		bug("mutation %q", op.Mut)
	}
	if !ok {
		return nil
	}
	if op.Mut != "reflect" && op.Mut != "misdirect" && op.Mut != "misattribute" && (n.idx != q.To || peer != q.From) {
		return nil
	}
	if pre && q2.From != peer && (n.pins[peer] == "" || n.pins[peer] == q2.Ident) {
		// What is left may be another party's initial message, whole but for its
		// unauthenticated parts. Trust on first use accepts that one.
		if pm, ok := parsePre(wire); ok && bytes.Equal(pm.Inner, q2.Inner) || bytes.Contains(wire, q2.Inner) {
			return nil
		}
	}
	t := s.prepDecrypt(op, n, peer, pre, wire)
	if t == nil || limit == 0 {
		return t
	}
	run := t.run
	var used uint64
	t.run = func() {
		var a, b runtime.MemStats
		runtime.ReadMemStats(&a)
		run()
		runtime.ReadMemStats(&b)
		used = b.TotalAlloc - a.TotalAlloc
	}
	fin := t.finish
	t.finish = func() {
		if used > limit {
			s.fail("work", fmt.Sprintf("refusing a forged message far ahead of its chain took over %d MB of allocations", limit>>20), "C16")
		}
		s.probe("forged message far ahead")
		fin()
	}
	return t
}

// sharedKeys reports whether two parties could read each other's traffic.
func (s *Sim) sharedKeys(a, b *Node) bool { return a == b }

var gmutKinds = []string{"bitflip", "bitflip", "bitflip", "truncate", "extend", "chain", "iter", "dist", "body", "sig", "zerosig", "sigother", "member", "member",
	"redirect", "sl", "version", "splice", "reenc", "far", "signbit", "distfield", "group", "othersigner", "othersigner"}

// chainAt returns the chain key of a sender key at a position, if a distribution
// message on the network shows it.
func (s *Sim) chainAt(q *Packet, at uint32) []byte {
	for _, d := range s.packets {
		if d.IsDst && d.From == q.From && d.Dist == q.Dist && d.Chain == q.Chain && d.Sign == q.Sign && d.Ctr <= at && at-d.Ctr < 4000 {
			m, ok := parseDist(d.Wire)
			if !ok {
				return nil
			}
			ck := m.Key
			for i := d.Ctr; i < at; i++ {
				ck = nextCk(ck)
			}
			return ck
		}
	}
	return nil
}

// signedChain reports whether a sender announced a chain ID with this signing key
// before (chain IDs are drawn at random and may come again).
func (s *Sim) signedChain(from int, chain uint32, sign string) bool {
	for _, d := range s.packets {
		if d.IsDst && d.From == from && d.Chain == chain && d.Sign == sign {
			return true
		}
	}
	return false
}

func (s *Sim) prepGMut(op *Op, n *Node) *task {
	q := s.byID[op.Pkt]
	if q == nil || !q.Group || q.IsDst || n.lib == nil {
		return nil
	}
	q2 := s.byID[op.Pkt2]
	if q2 == nil || !q2.Group || q2.IsDst {
		q2 = q
	}
	m, ok := parseGrp(q.Wire)
	m2, ok2 := parseGrp(q2.Wire)
	if !ok || !ok2 {
		return nil
	}
	r := NewRng(sub(op.Seed, 52))
	sender := q.From
	wire := append([]byte(nil), q.Wire...)
	re := true
	other := newRefKey(r.Bytes(32))
	switch op.Mut {
	case "bitflip":
		for i := 0; i <= r.N(2); i++ {
			wire = flipBit(r, wire)
		}
		re = false
	case "truncate":
		wire = wire[:r.N(len(wire))]
		re = false
	case "extend":
		wire = append(wire, r.Bytes(1+r.N(9))...)
		re = false
	case "splice":
		if i := r.N(len(wire)); i < len(q2.Wire) {
			wire = append(append([]byte(nil), wire[:i]...), q2.Wire[i:]...)
		}
		re = false
	case "chain":
		m.Chain ^= 1 << r.N(31)
		if r.P(0.5) {
			m.Chain = m2.Chain
		}
	case "iter":
		m.Iter += uint32(r.Pick(1, 2, 5, -1))
	case "dist":
		m.Dist = []byte(s.dists[r.N(len(s.dists))].String())
	case "distfield": // the group named twice
		fs := []field{fb(1, m.Dist), fv(2, uint64(m.Chain)), fv(3, uint64(m.Iter)), fb(4, m.Body), fb(1, []byte(s.dists[r.N(len(s.dists))].String()))}
		wire = append(append([]byte{m.Ver}, encFields(fs)...), m.Sig...)
		re = false
	case "body":
		switch r.N(3) {
		case 0:
			m.Body = flipBit(r, m.Body)
		case 1:
			m.Body = m2.Body
		default:
			m.Body = r.Bytes(16 * (1 + r.N(3)))
		}
	case "sig":
		m.Sig = flipBit(r, m.Sig)
	case "signbit":
		m.Sig = append([]byte(nil), m.Sig...)
		m.Sig[63] ^= byte(r.Pick(0x80, 0x40, 0x20, 0xc0))
	case "zerosig":
		m.Sig = make([]byte, 64)
		if r.P(0.5) {
			m.Sig[0] = 1
		}
	case "sigother":
		m.Sig = m2.Sig
	case "reenc":
		fs := []field{fv(2, uint64(m.Chain)), fb(1, m.Dist), fv(3, uint64(m.Iter)), fb(4, m.Body)}
		wire = append(append([]byte{m.Ver}, encFields(fs)...), m.Sig...)
		re = false
	case "version":
		m.Ver = byte(r.Pick(0x30, 0x32, 0x34, 0x23, 0x43, 0x3f, 0))
		if r.P(0.5) {
			m.Sig = xeddsaSign(other.Priv, r.Bytes(64), m.signed())
		}
	case "member": // by another member, who knows the chain keys but not the signing key
		m.Iter = q.Ctr + uint32(r.N(4))
		ck := s.chainAt(q, m.Iter)
		if ck == nil {
			return nil
		}
		iv, key := groupKeys(ck)
		m.Body = cbcEnc(key, iv, []byte("forged by a member"))
		switch r.N(4) {
		case 0: // old signature
		case 1:
			m.Sig = r.Bytes(64)
		case 2:
			m.Sig = make([]byte, 64)
		default:
			m.Sig = xeddsaSign(other.Priv, r.Bytes(64), m.signed())
		}
		s.probe("forgery by a group member")
	case "othersigner": // by the holder of another genuine signing key, mostly one of the sender
		var ks []string
		for _, k := range s.signers {
			if k.key != q.Sign && (k.node == q.From || r.P(0.2)) && !s.signedChain(q.From, m.Chain, k.key) {
				ks = append(ks, k.key)
			}
		}
		if len(ks) == 0 {
			return nil
		}
		m.Iter = q.Ctr + uint32(r.N(3))
		if ck := s.chainAt(q, m.Iter); ck != nil {
			iv, key := groupKeys(ck)
			m.Body = cbcEnc(key, iv, []byte("forged with another signing key"))
		}
		m.Sig = xeddsaSign(s.signPriv[ks[r.N(len(ks))]], r.Bytes(64), m.signed())
		s.probe("forgery with another signing key of the sender")
	case "group": // a genuine message of one group carried over to another
		m.Dist = []byte(s.dists[(q.Dist+1)%len(s.dists)].String())
	case "redirect": // under another sender's address
		sender = op.P
		if sender == q.From || sender == n.idx {
			return nil
		}
		re = false
	case "sl": // S plus the group order
		l := unhex("edd3f55c1a631258d69cf7a2def9de1400000000000000000000000000000010")
		c := 0
		sig := append([]byte(nil), m.Sig...)
		top := sig[63] & 0x80
		sig[63] &= 0x7f
		for i := 0; i < 32; i++ {
			c += int(sig[32+i]) + int(l[i])
			sig[32+i] = byte(c)
			c >>= 8
		}
		sig[63] |= top
		m.Sig = sig
	case "far":
		m.Iter += uint32(r.Pick(30_000, 400_000, 0x7fffffff))
		if r.P(0.5) {
			m.Sig = xeddsaSign(other.Priv, r.Bytes(64), m.signed())
		}
	default:
		bug("group mutation %q", op.Mut)
	}
	if re {
		wire = m.enc()
	}
	if op.Mut != "redirect" && bytes.Equal(wire, q.Wire) {
		return nil
	}
	return s.prepGDecrypt(op, n, sender, wire)
}
