package main

// Group operations.

import (
	"bytes"
	"fmt"

	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/senderkey"
	"github.com/RTann/libsignal-go/protocol/session"
)

func (s *Sim) gsitu(n *Node, sender, d int) uint64 {
	c := n.gconvs[[2]int{sender, d}]
	if c == nil {
		return 7
	}
	h := sub(8, uint64(len(c.keys)), b2u(c.lost), b2u(sender == n.idx))
	for _, k := range c.keys {
		h = sub(h, bucket(int(k.next)), bucket(len(k.skipped)))
	}
	return h
}

func (s *Sim) gcontext(n *Node, sender int) []string {
	var ps []string
	if s.faulted[n.idx] > 0 || s.faulted[sender] > 0 {
		ps = append(ps, "C15")
	}
	if s.rejects[[2]int{n.idx, sender}] > 0 {
		ps = append(ps, "C04")
	}
	if s.nodes[sender].ref != nil || n.ref != nil {
		ps = append(ps, "C19")
	}
	if s.isPar || s.cfg.Scribble || s.cfg.Arena {
		ps = append(ps, "C18")
	}
	return ps
}

func (s *Sim) dist(d int) bool { return d >= 0 && d < len(s.dists) }

func (s *Sim) prepGDist(op *Op, i int, n *Node) *task {
	if !s.dist(op.D) {
		return nil
	}
	own := n.gconv(n.idx, op.D)
	exists := len(own.keys) > 0 || own.unknown
	t := s.newTask(op, n, n.idx, set(gKey(n.idx, op.D)))
	var wire []byte
	var err error
	t.run = func() {
		if n.lib != nil {
			wire, err = n.lib.gdist(op.D)
		} else {
			wire, err = n.ref.gdist(n.idx, op.D, s.dists[op.D].String(), NewRng(sub(op.Seed, 3)))
		}
	}
	sit := s.gsitu(n, n.idx, op.D)
	t.finish = func() {
		if t.crashed || (err != nil && t.faulty) {
			if exists {
				s.noTrace(t, "fault", "C15")
			} else if t.ctx.applied["grp.Store"] > 0 {
				own.unknown = true
			} else {
				s.noTrace(t, "fault", "C15")
			}
			if t.onlyRnd() {
				s.noTrace(t, "randomness failed", "C20", "C15")
			}
			s.note("gdist", "fault", sit)
			return
		}
		if err != nil {
			s.fail("distribution", fmt.Sprintf("node %d cannot make a distribution message: %v", n.idx, err), append(s.gcontext(n, n.idx), "C12", "C15")...)
		}
		if n.lib != nil {
			s.ignored(t, "C15")
		}
		m, ok := parseDist(wire)
		if !ok || m.Ver != 0x33 || len(m.Key) != 32 || len(m.Sign) != 33 || string(m.Dist) != s.dists[op.D].String() {
			s.fail("wire", "a distribution message is malformed or for another group", "C19", "C12", "C25")
		}
		if own.unknown {
			own.unknown = false
			own.keys = []*GKey{{chain: m.Chain, sign: hx(m.Sign), next: m.Iter}}
		} else if !exists {
			if n.lib != nil {
				if !t.did("g:") {
					s.fail("not-stored", "a distribution message was returned without storing the sender key", "C15", "C12")
				}
				if t.ctx.rndBad || t.ctx.rndN < 68 {
					s.fail("randomness", fmt.Sprintf("a sender key was made from %d bytes of randomness (failed: %v)", t.ctx.rndN, t.ctx.rndBad), "C20")
				}
			}
			own.keys = []*GKey{{chain: m.Chain, sign: hx(m.Sign), next: m.Iter}}
			if m.Iter != 0 {
				s.fail("distribution", fmt.Sprintf("a new sender key starts at %d", m.Iter), "C12", "C14", "C19")
			}
		}
		k := own.cur()
		if m.Chain != k.chain || hx(m.Sign) != k.sign {
			s.fail("distribution", fmt.Sprintf("node %d distributes sender key %d, its newest is %d", n.idx, m.Chain, k.chain), append(s.gcontext(n, n.idx), "C12")...)
		}
		if m.Iter != k.next {
			s.fail("distribution", fmt.Sprintf("a distribution message names position %d of sender key %d, the next one is %d", m.Iter, k.chain, k.next), append(s.gcontext(n, n.idx), "C12", "C14", "C15", "C06")...)
		}
		if n.lib != nil && s.signPriv[hx(m.Sign)] == nil {
			if rec := n.lib.groupRecord(n.idx, op.D); rec != nil {
				if st, err := rec.State(); err == nil {
					if priv, err := st.PrivateSigningKey(); err == nil {
						s.signPriv[hx(m.Sign)] = append([]byte(nil), priv.Bytes()...)
						s.signers = append(s.signers, signer{hx(m.Sign), n.idx})
					}
				}
			}
		}
		s.addPacket(op, i, &Packet{Group: true, IsDst: true, From: n.idx, To: -1, Wire: wire, Dist: op.D, Chain: m.Chain, Ctr: m.Iter, Sign: hx(m.Sign), fromEp: n.epoch})
		s.note("gdist", "ok", sit)
	}
	return t
}

func (s *Sim) prepGProc(op *Op, n *Node) *task {
	q := s.byID[op.Pkt]
	if q == nil || !q.IsDst || q.From == n.idx {
		return nil
	}
	t := s.newTask(op, n, q.From, set(gKey(q.From, q.Dist)))
	c := n.gconv(q.From, q.Dist).clone()
	known := false
	for _, k := range c.keys {
		if k.chain == q.Chain && k.sign == q.Sign {
			known = true
		}
	}
	var err error
	intact := true
	t.run = func() {
		if n.lib != nil {
			intact, err = n.lib.gproc(q.From, q.Wire, sub(op.Seed, 4))
		} else {
			err = n.ref.gproc(q.From, q.Dist, q.Wire)
		}
	}
	sit := sub(s.gsitu(n, q.From, q.Dist), b2u(known))
	t.finish = func() {
		if !intact {
			s.fail("caller-buffer", "processing a distribution message modified the caller's buffer", "C18", "C25")
		}
		commit := func() {
			if known {
				s.probe("distribution message processed again")
			}
			c.add(&GKey{chain: q.Chain, sign: q.Sign, next: q.Ctr})
			if n.sessSeen == nil {
				n.sessSeen = map[string]bool{}
			}
			gk := fmt.Sprintf("g%d/%s", q.Chain, q.Sign)
			if !known && n.sessSeen[gk] {
				// A sender key that was given up is learnt again.
				n.secrets = map[[32]byte]string{}
			}
			n.sessSeen[gk] = true
			if c.lost {
				s.probe("sender key given up")
			}
			n.gconvs[[2]int{q.From, q.Dist}] = c
		}
		if t.crashed || (err != nil && t.faulty) {
			if t.ctx.applied["grp.Store"] > 0 {
				commit()
			} else {
				s.noTrace(t, "fault", "C15")
			}
			s.note("gproc", "fault", sit)
			return
		}
		if err != nil {
			s.fail("distribution", fmt.Sprintf("node %d refused a distribution message of node %d: %v", n.idx, q.From, err), append(s.gcontext(n, q.From), "C12")...)
		}
		if n.lib != nil {
			s.ignored(t, "C15")
			if !known && !t.did("g:") {
				s.fail("not-stored", "a distribution message was processed without storing the sender key", "C15", "C12")
			}
		}
		commit()
		q.got[n.idx] = s.step
		s.note("gproc", "ok", sit)
	}
	return t
}

func (s *Sim) prepGSend(op *Op, i int, n *Node) *task {
	if !s.dist(op.D) {
		return nil
	}
	own := n.gconv(n.idx, op.D)
	if own.unknown {
		return nil
	}
	pt := s.plaintext(op, i)
	t := s.newTask(op, n, n.idx, set(gKey(n.idx, op.D)))
	var wire []byte
	var err error
	intact := true
	s.beforeGSecrets(t, n.idx, op.D)
	t.run = func() {
		if n.lib != nil {
			wire, intact, err = n.lib.gsend(op.D, pt, sub(op.Seed, 4))
		} else {
			wire, err = n.ref.gsend(n.idx, op.D, s.dists[op.D].String(), NewRng(sub(op.Seed, 3)), pt)
		}
	}
	sit := sub(s.gsitu(n, n.idx, op.D), bucket(len(pt)/16))
	t.finish = func() {
		if !intact {
			s.fail("caller-buffer", "group EncryptMessage modified the caller's buffer", "C18", "C25")
		}
		k := own.cur()
		if t.crashed || (err != nil && t.faulty) {
			if t.onlyRnd() {
				s.noTrace(t, "randomness failed", "C20", "C15")
			}
			if t.ctx.applied["grp.Store"] > 0 && k != nil {
				k.next++
				s.afterGSend(t, op.D)
			} else {
				s.noTrace(t, "fault", "C15")
			}
			s.note("gsend", "fault", sit)
			return
		}
		if k == nil {
			if err == nil {
				s.fail("gsend-without-key", "a group message was encrypted without a sender key", "C12")
			}
			s.noTrace(t, err.Error())
			s.note("gsend", "no-key", sit)
			return
		}
		if err != nil {
			ps := append(s.gcontext(n, n.idx), "C12", "C15")
			s.fail("gsend-refused", fmt.Sprintf("node %d cannot encrypt for group %d: %v", n.idx, op.D, err), ps...)
		}
		if n.lib != nil {
			s.ignored(t, "C15", "C06")
			if !t.did("g:") {
				s.fail("not-stored", "a group ciphertext was returned without storing the advanced sender key", "C15", "C06")
			}
			if t.ctx.rndBad || t.ctx.rndN < 64 {
				s.fail("randomness", fmt.Sprintf("a message was signed with %d bytes of randomness (failed: %v)", t.ctx.rndN, t.ctx.rndBad), "C20")
			}
		}
		m, ok := parseGrp(wire)
		if !ok || m.Ver != 0x33 || string(m.Dist) != s.dists[op.D].String() {
			s.fail("wire", "a group message is malformed or for another group", "C19", "C12", "C25")
		}
		if m.Chain != k.chain {
			s.fail("old-key", fmt.Sprintf("node %d sends under sender key %d, its newest is %d", n.idx, m.Chain, k.chain), append(s.gcontext(n, n.idx), "C12", "C14")...)
		}
		s.once(fmt.Sprintf("g/%d/%s/%d", m.Chain, k.sign, m.Iter), m.Body, pt, append(s.gcontext(n, n.idx), "C06", "C12", "C15")...)
		sign := unhex(k.sign)
		if !xeddsaVerify(sign, m.Sig, wire[:len(wire)-64]) {
			s.fail("signature", "the signature of a group message does not verify", "C14", "C19", "C12")
		}
		s.nonce(k.sign, m.Sig, string(wire[:len(wire)-64]))
		if m.Iter < k.next {
			s.fail("key-reuse", fmt.Sprintf("a group message was encrypted at position %d, the next one is %d", m.Iter, k.next), append(s.gcontext(n, n.idx), "C06", "C12", "C15")...)
		}
		k.next = m.Iter + 1
		s.addPacket(op, i, &Packet{Group: true, From: n.idx, To: -1, Wire: wire, Inner: wire, Plain: pt, Dist: op.D, Chain: m.Chain, Sign: k.sign, Ctr: m.Iter, fromEp: n.epoch})
		s.afterGSend(t, op.D)
		s.note("gsend", "ok", sit)
	}
	return t
}

// nonce: the first half of a signature is the nonce commitment.
func (s *Sim) nonce(key string, sig []byte, msg string) {
	id := key + "/" + string(sig[:32])
	if old, ok := s.nonces[id]; ok && old != msg {
		s.fail("nonce-reuse", "two different messages were signed with the same nonce", "C20", "C14")
	}
	s.nonces[id] = msg
}

func (s *Sim) prepGDecrypt(op *Op, n *Node, sender int, wire []byte) *task {
	if n.idx == sender {
		return nil
	}
	q := s.byWire[string(wire)]
	if q != nil && (!q.Group || q.IsDst || q.From != sender) {
		q = nil
	}
	mine := map[string]bool{}
	var pred GPred
	if q != nil {
		pred = s.gpredict(n, q)
		mine[gKey(sender, q.Dist)] = true
	} else {
		for d := range s.dists {
			mine[gKey(sender, d)] = true
		}
	}
	t := s.newTask(op, n, sender, mine)
	var pt []byte
	var err error
	intact := true
	if q != nil {
		s.beforeGSecrets(t, sender, q.Dist)
	}
	t.run = func() {
		switch {
		case n.lib != nil:
			pt, intact, err = n.lib.grecv(sender, wire, sub(op.Seed, 4))
		case q != nil:
			pt, err = n.ref.grecv(sender, q.Dist, wire)
		default:
			err = errParse
		}
	}
	var sit uint64
	if q != nil {
		sit = sub(s.gsitu(n, sender, q.Dist), uint64(pred.out), bucket(int(pred.jump)), b2u(pred.skipped))
	}
	t.finish = func() {
		if !intact {
			s.fail("caller-buffer", "group DecryptMessage modified the caller's buffer", "C18", "C25")
		}
		if q == nil {
			if err == nil && !t.crashed {
				s.fail("forgery", fmt.Sprintf("node %d accepted a forged group message (%s) under the address of node %d", n.idx, op.Mut, sender), "C14")
			}
			if len(pt) > 0 {
				s.fail("plaintext-with-error", "group DecryptMessage returned a plaintext together with an error", "C14", "C04")
			}
			s.noTrace(t, "forged", "C14")
			s.rejects[[2]int{n.idx, sender}]++
			s.note("gmut", "rejected:"+op.Mut, sit)
			return
		}
		what := fmt.Sprintf("group message %d.%d of node %d (sender key %d, position %d)", q.ID>>16, q.ID&0xffff, q.From, q.Chain, q.Ctr)
		refOnly := n.ref != nil && s.nodes[sender].ref != nil
		commit := func() {
			n.gconvs[[2]int{sender, q.Dist}] = pred.conv
			q.got[n.idx] = s.step
			s.afterGDecrypt(t, sender, q)
			if pred.skipped {
				s.probe("skipped group key used")
			}
			if pred.jump > limSkipped {
				s.probe("more than 2000 group messages skipped over")
			}
			if pred.jump == limJump {
				s.probe("exactly 25000 group messages skipped over")
			}
		}
		if t.crashed || (err != nil && t.faulty) {
			if pred.out == oAccept && t.ctx.applied["grp.Store"] > 0 {
				commit()
			} else {
				s.noTrace(t, "fault", "C15")
			}
			s.note("gdlv", "fault", sit)
			return
		}
		if err == nil && pt == nil {
			pt = []byte{}
		}
		if pred.out == oAccept {
			ps := append(s.gcontext(n, sender), "C12")
			if pred.jump >= limSkipped || len(pred.key.skipped) >= limSkipped-2 || pred.key.evict || len(pred.conv.keys) >= limSender {
				ps = append(ps, "C16")
			}
			if err != nil {
				if refOnly {
					bug("ref did not accept %s: %v", what, err)
				}
				if isDup(err) {
					ps = append(ps, "C13")
				}
				s.fail("undecryptable", fmt.Sprintf("node %d cannot decrypt %s: %v", n.idx, what, err), ps...)
			}
			if !bytes.Equal(pt, q.Plain) {
				s.fail("wrong-plaintext", fmt.Sprintf("%s decrypted to %d bytes other than the %d sent", what, len(pt), len(q.Plain)), append(ps, "C14")...)
			}
			if n.lib != nil {
				s.ignored(t, "C15", "C13")
				if !t.did("g:") {
					s.fail("not-stored", "a group plaintext was returned without storing the advanced sender key", "C13", "C15", "C07")
				}
			}
			commit()
			s.note("gdlv", "accept", sit)
			return
		}
		if err == nil {
			if refOnly {
				bug("ref accepted %s, predicted %s", what, outNames[pred.out])
			}
			ps := append(s.gcontext(n, sender), "C14")
			if q.consumed(n.idx) {
				ps = append(ps, "C13", "C07")
			}
			switch pred.out {
			case oTooFar, oGone:
				ps = append(ps, "C16")
			}
			s.fail("accepted", fmt.Sprintf("node %d decrypted %s, expected %s", n.idx, what, outNames[pred.out]), ps...)
		}
		if len(pt) > 0 {
			s.fail("plaintext-with-error", "group DecryptMessage returned a plaintext together with an error", "C13", "C14", "C04")
		}
		if pred.out == oDup && !isDup(err) && !refOnly {
			s.fail("duplicate-error", fmt.Sprintf("a repetition of %s failed with %q instead of the duplicate-message error", what, err), append(s.gcontext(n, sender), "C13")...)
		}
		s.noTrace(t, err.Error(), "C13")
		s.rejects[[2]int{n.idx, sender}]++
		s.probe("group rejected: " + outNames[pred.out])
		s.note("gdlv", outNames[pred.out], sit)
	}
	return t
}

func (s *Sim) gFastForward(op *Op, n *Node) bool {
	if !s.dist(op.D) {
		return false
	}
	k := n.gconv(n.idx, op.D).cur()
	if k == nil || n.gconv(n.idx, op.D).unknown || op.K <= 0 {
		return false
	}
	if n.ref != nil {
		l := n.ref.grp[[2]int{n.idx, op.D}]
		st := l[len(l)-1]
		for i := 0; i < op.K; i++ {
			st.ck, st.iter = nextCk(st.ck), st.iter+1
		}
	} else {
		rec := n.lib.groupRecord(n.idx, op.D)
		if rec == nil {
			return false
		}
		st, err := rec.State()
		if err != nil {
			return false
		}
		ck := st.SenderChainKey()
		for i := 0; i < op.K; i++ {
			ck = ck.Next()
		}
		st.SetSenderChainKey(ck)
		if err := n.lib.D.grp.Store(bg, n.addr, s.dists[op.D], rec); err != nil {
			bug("store: %v", err)
		}
	}
	k.next += uint32(op.K)
	return true
}

// gWarp moves a sender key and the copies of the members which are level with it to
// a position far ahead.
func (s *Sim) gWarp(op *Op, n *Node) bool {
	if !s.dist(op.D) || s.cfg.Secrets || op.K <= 0 || op.K > maxWarp {
		return false
	}
	c := n.gconv(n.idx, op.D)
	own := c.cur()
	to := uint32(op.K)
	if own == nil || c.unknown || own.next >= to {
		return false
	}
	var todo []func()
	for _, p := range s.nodes {
		pc := p.gconvs[[2]int{n.idx, op.D}]
		if pc == nil {
			continue
		}
		i := pc.find(own.chain)
		if i < 0 || pc.keys[i].sign != own.sign {
			continue
		}
		if p != n && pc.keys[i].next != own.next {
			continue
		}
		k := pc.keys[i]
		todo = append(todo, func() { k.next = to })
		if p.ref != nil {
			ok := false
			for _, st := range p.ref.grp[[2]int{n.idx, op.D}] {
				if st.chain == own.chain && hx(st.signPub) == own.sign && st.iter == own.next {
					ok = true
					todo = append(todo, func() { st.ck, st.iter = walkChain(st.ck, st.iter, to), to })
				}
			}
			if !ok {
				return false
			}
			continue
		}
		rec := p.lib.groupRecord(n.idx, op.D)
		if rec == nil {
			return false
		}
		st := rec.StateForChainID(own.chain)
		if st == nil || st.SenderChainKey().Iteration() != own.next {
			return false
		}
		todo = append(todo, func() {
			st.SetSenderChainKey(senderkey.NewChainKey(walkChain(st.SenderChainKey().Seed(), st.SenderChainKey().Iteration(), to), to))
			if err := p.lib.D.grp.Store(bg, n.addr, s.dists[op.D], rec); err != nil {
				bug("store: %v", err)
			}
			p.dig = p.lib.digests()
		})
	}
	for _, f := range todo {
		f()
	}
	s.probe("sender key moved far ahead")
	return true
}

// gRotate gives the sender a new sender key the way an application does: added to
// its record (0), as a new record (1), or added with the chain ID of the present
// one (2), the one next to it (3), or with the signing key of the present one (4).
func (s *Sim) gRotate(op *Op, n *Node) bool {
	if !s.dist(op.D) {
		return false
	}
	own := n.gconv(n.idx, op.D)
	if own.cur() == nil || own.unknown {
		return false
	}
	r := NewRng(sub(op.Seed, 15))
	sk := newRefKey(r.Bytes(32))
	seed := r.Bytes(32)
	chain := uint32(r.U64()) >> 1
	if op.K == 2 {
		chain = own.cur().chain
	}
	if op.K == 3 { // chain IDs next to the present one
		chain = own.cur().chain ^ 1
	}
	if op.K == 4 { // only the chain is new
		if n.ref != nil {
			l := n.ref.grp[[2]int{n.idx, op.D}]
			st := l[len(l)-1]
			sk = refKey{Pub: st.signPub, Priv: st.signPriv}
		} else {
			rec := n.lib.groupRecord(n.idx, op.D)
			if rec == nil {
				return false
			}
			st, err := rec.State()
			if err != nil {
				return false
			}
			priv, err := st.PrivateSigningKey()
			if err != nil {
				bug("signing key: %v", err)
			}
			sk = refKey{Pub: priv.PublicKey().Bytes(), Priv: priv.Bytes()}
		}
	}
	k := &GKey{chain: chain, sign: hx(sk.Pub)}
	if n.ref != nil {
		key := [2]int{n.idx, op.D}
		if op.K == 1 {
			n.ref.grp[key] = nil
		}
		n.ref.gadd(key, &refGState{chain: chain, ck: seed, signPub: sk.Pub, signPriv: sk.Priv})
	} else {
		pub, err := curve.NewPublicKey(s.buf(sk.Pub))
		if err != nil {
			bug("key: %v", err)
		}
		rec := n.lib.groupRecord(n.idx, op.D)
		if rec == nil || op.K == 1 {
			rec = session.NewGroupRecord()
		}
		if err := rec.AddState(session.NewGroupState(session.GroupStateConfig{MessageVersion: 3, ChainID: chain, ChainKey: s.buf(seed), SignatureKey: pub, SignaturePrivateKey: s.keyPair(sk).PrivateKey()})); err != nil {
			s.fail("rotation", "AddState: "+err.Error(), "C12")
		}
		if err := n.lib.D.grp.Store(bg, n.addr, s.dists[op.D], rec); err != nil {
			bug("store: %v", err)
		}
	}
	if op.K == 1 {
		own.keys = nil
	}
	own.add(k)
	s.probe("sender key rotated")
	return true
}

type signer struct {
	key  string
	node int
}
