package main

// Pairwise operations: preparation against the model, execution, judgement.

import (
	"bytes"
	"fmt"
	"runtime"
	"strings"

	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/identity"
	"github.com/RTann/libsignal-go/protocol/ratchet"
	"github.com/RTann/libsignal-go/protocol/session"
)

func (s *Sim) node(i int) *Node {
	if i < 0 || i >= len(s.nodes) {
		return nil
	}
	return s.nodes[i]
}

func (s *Sim) prepare(op *Op, i int) *task {
	n := s.node(op.N)
	if n == nil || s.node(op.P) == nil {
		return nil
	}
	switch op.Kind {
	case "bundle":
		return s.prepBundle(op, n)
	case "send":
		return s.prepSend(op, i, n)
	case "dlv":
		q := s.byID[op.Pkt]
		if q == nil || q.Group {
			return nil
		}
		if op.Inner && !q.Pre {
			return nil
		}
		if op.Inner {
			return s.prepDecrypt(op, n, op.P, false, q.Inner)
		}
		return s.prepDecrypt(op, n, op.P, q.Pre, q.Wire)
	case "mut":
		return s.prepMut(op, n)
	case "ff":
		return s.appOp(n, s.fastForward(op, n))
	case "warp":
		return s.appOp(n, s.warp(op, n))
	case "archive":
		return s.appOp(n, s.archive(op, n))
	case "restart":
		if n.lib == nil {
			return nil
		}
		n.lib.restart()
		return &task{op: op, n: n}
	case "accept":
		return s.appOp(n, s.acceptIdentity(op, n))
	case "block":
		if op.N == op.P || n.lib == nil {
			return nil
		}
		n.block[op.P] = op.K
		return s.appOp(n, true)
	case "clear":
		return s.appOp(n, s.clear(op, n))
	case "reinstall":
		return s.appOp(n, s.reinstall(op, n))
	case "newspk":
		return s.appOp(n, s.rotateSpk(n))
	case "newot":
		return s.appOp(n, s.moreOtpks(n, op.K))
	case "init":
		return s.prepInit(op, n)
	case "ppk":
		return s.prepProcess(op, n)
	case "capture":
		return s.prepCapture(op, n)
	case "twin":
		return s.prepTwin(op, n)
	case "garbage":
		return s.prepGarbage(op, n)
	case "damage":
		return s.prepDamage(op, n)
	case "degen":
		return s.prepDegenerate(op, n)
	case "idop":
		return s.prepIDStore(op, n)
	case "rndop":
		return s.prepRnd(op, n)
	case "shelf":
		return s.prepShelf(op, n)
	case "safety":
		return s.prepSafety(op, n)
	case "altsign":
		return s.prepAltSign(op, n)
	case "altver":
		return s.prepAltVerify(op, n)
	case "settle":
		return s.prepSettle(op, n)
	case "gdist":
		return s.prepGDist(op, i, n)
	case "gproc":
		return s.prepGProc(op, n)
	case "gsend":
		return s.prepGSend(op, i, n)
	case "gdlv":
		q := s.byID[op.Pkt]
		if q == nil || !q.Group || q.IsDst {
			return nil
		}
		return s.prepGDecrypt(op, n, op.P, q.Wire)
	case "gmut":
		return s.prepGMut(op, n)
	case "gff":
		return s.appOp(n, s.gFastForward(op, n))
	case "gwarp":
		return s.appOp(n, s.gWarp(op, n))
	case "grot":
		return s.appOp(n, s.gRotate(op, n))
	}
	bug("unknown operation %q", op.Kind)
	return nil
}

// appOp finishes an operation of the application which was carried out directly.
func (s *Sim) appOp(n *Node, ok bool) *task {
	if !ok {
		return nil
	}
	if n.lib != nil {
		n.dig = n.lib.digests()
		s.overwriteBuffers(n, "preparing")
	}
	return &task{n: n}
}

func (s *Sim) newTask(op *Op, n *Node, peer int, mine map[string]bool) *task {
	t := &task{op: op, n: n, peer: peer, mine: mine}
	if n.lib != nil {
		f := op.Faults
		t.ctx = newOpCtx(n.lib, sub(op.Seed, 3), f)
	}
	return t
}

func sKey(p int) string { return fmt.Sprintf("s:%d", p) }
func iKey(p int) string { return fmt.Sprintf("i:%d", p) }
func pKey(id uint32) string {
	return fmt.Sprintf("p:%d", id)
}
func gKey(p, d int) string { return fmt.Sprintf("g:%d:%d", p, d) }

// situ condenses the model's view of a conversation.
func (s *Sim) situ(n *Node, peer int) uint64 {
	c := n.convs[peer]
	if c == nil {
		return 0
	}
	h := sub(1, bucket(len(c.prev)))
	if m := c.cur; m != nil {
		h = sub(h, bucket(len(m.chains)), b2u(m.init), b2u(m.acked), b2u(m.freshDue))
		for _, ch := range m.chains {
			h = sub(h, bucket(int(ch.next)), bucket(len(ch.skipped)))
		}
	}
	pin := n.pins[peer]
	switch {
	case pin == "":
		h = sub(h, 1)
	case c.cur != nil && pin == c.cur.remote:
		h = sub(h, 2)
	default:
		h = sub(h, 3)
	}
	if b := n.block[peer]; b != 0 {
		h = sub(h, uint64(b))
	}
	return h
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// context lists properties which the circumstances of a failure bear on.
func (s *Sim) context(n *Node, peer int) []string {
	var ps []string
	if s.faulted[n.idx] > 0 || s.faulted[peer] > 0 {
		ps = append(ps, "C05")
	}
	if s.rejects[[2]int{n.idx, peer}] > 0 || s.rejects[[2]int{peer, n.idx}] > 0 {
		ps = append(ps, "C04")
	}
	if c := n.convs[peer]; c != nil && c.total > 1 {
		ps = append(ps, "C11")
	}
	if s.nodes[peer].ref != nil || n.ref != nil {
		ps = append(ps, "C19")
	}
	if s.isPar || s.cfg.Scribble || s.cfg.Arena {
		ps = append(ps, "C18")
	}
	return ps
}

// errFault reports whether a store call reported an injected failure.
func (t *task) errFault() bool {
	if t.ctx == nil {
		return false
	}
	for _, f := range t.ctx.fired {
		if strings.HasPrefix(f, "err_") || strings.HasPrefix(f, "cancel") {
			return true
		}
	}
	return false
}

func (t *task) onlyRnd() bool {
	if t.ctx == nil || len(t.ctx.fired) == 0 {
		return false
	}
	for _, f := range t.ctx.fired {
		if !strings.HasPrefix(f, "rnd_") {
			return false
		}
	}
	return true
}

// ignored checks that a successful operation did not swallow a failed store call.
func (s *Sim) ignored(t *task, props ...string) {
	if !t.errFault() {
		return
	}
	for _, f := range t.ctx.fired {
		if strings.Contains(f, "@id.IsTrusted") {
			props = append(props, "C09")
		}
	}
	props = append(props, "C27")
	s.fail("store-error-ignored", fmt.Sprintf("%s reported success although a store call failed (%s)", t.op.Kind, strings.Join(t.ctx.fired, ", ")), props...)
}

// syncPin takes over the trusted identity after a failed operation, which may
// have got as far as storing it.
func (s *Sim) syncPin(n *Node, peer int, allowed ...string) {
	now := n.lib.pin(peer)
	if now == n.pins[peer] {
		return
	}
	for _, a := range allowed {
		if a != "" && now == a && n.pins[peer] == "" {
			n.pins[peer] = now
			return
		}
	}
	s.fail("pin", fmt.Sprintf("the trusted identity of node %d went from %s to %s", peer, short(n.pins[peer]), short(now)), "C09", "C05", "C04")
}

func (s *Sim) noTrace(t *task, why string, props ...string) {
	if len(t.changed) > 0 {
		props = append(props, "C04")
		for _, k := range t.changed {
			switch k[0] {
			case 'i':
				props = append(props, "C09")
			case 'p':
				props = append(props, "C10")
			}
		}
		s.fail("trace", fmt.Sprintf("%s failed (%s) but changed %s", t.op.Kind, why, t.n.describe(t.changed[0])), props...)
	}
}

// --- bundle

func (s *Sim) bundleOf(p *Node, mode int, r *Rng) *Bundle {
	spk := p.spks[len(p.spks)-1]
	if mode&4 != 0 && len(p.spks) > 1 {
		spk = p.spks[len(p.spks)-2]
	}
	b := &Bundle{Reg: p.reg, Spk: spk, SpkPub: p.spkKey[spk].Pub, Sig: p.spkSig[spk], Ident: p.ident.Pub}
	switch mode & 3 {
	case 1: // next unused one-time pre-key
		if len(p.handed) < len(p.otpks) {
			id := p.otpks[len(p.handed)]
			p.handed = append(p.handed, id)
			b.Otpk, b.OtpkPub = &id, p.otKey[id].Pub
		}
	case 2: // one that was handed out before
		if len(p.handed) > 0 {
			id := p.handed[r.N(len(p.handed))]
			b.Otpk, b.OtpkPub = &id, p.otKey[id].Pub
		}
	}
	return b
}

func (s *Sim) prepBundle(op *Op, n *Node) *task {
	p := s.nodes[op.P]
	if p == n {
		return nil
	}
	r := NewRng(sub(op.Seed, 5))
	b := s.bundleOf(p, op.K, r)
	valid := true
	ep := p.epoch
	switch op.Mut {
	case "":
	case "badsig":
		b.Sig = append([]byte(nil), b.Sig...)
		b.Sig[r.N(64)] ^= 1 << r.N(8)
		valid = false
	case "shortsig":
		b.Sig = append([]byte(nil), b.Sig[:r.N(64)*r.N(2)]...)
		valid = false
	case "longsig":
		b.Sig = append(append([]byte(nil), b.Sig...), 0)
		valid = false
	case "wrongsig":
		b.Sig = xeddsaSign(newRefKey(r.Bytes(32)).Priv, r.Bytes(64), b.SpkPub)
		valid = false
	case "altsig": // the signature was made to link an alternate identity
		k := newRefKey(r.Bytes(32))
		b.SpkPub, b.Sig = k.Pub, xeddsaSign(p.ident.Priv, r.Bytes(64), altMsg(k.Pub))
		valid = false
	case "swapspk":
		b.SpkPub = newRefKey(r.Bytes(32)).Pub
		valid = false
	case "sigover": // the signature covers the key without its type byte
		if n.ref == nil && p.lib != nil {
			b.Sig = xeddsaSign(p.ident.Priv, r.Bytes(64), b.SpkPub[1:])
			valid = false
		}
	case "evil": // another identity, signature of the old one
		b.Ident = newRefKey(r.Bytes(32)).Pub
		valid = false
	case "mitm": // a complete bundle of another identity
		if n.pins[op.P] == "" {
			return nil
		}
		k, id := newRefKey(r.Bytes(32)), newRefKey(r.Bytes(32))
		b.SpkPub, b.Ident, b.Sig = k.Pub, id.Pub, xeddsaSign(id.Priv, r.Bytes(64), k.Pub)
	default:
		bug("bundle %q", op.Mut)
	}
	pin := n.pins[op.P]
	untrusted := pin != "" && pin != hx(b.Ident) || n.blocked(op.P, true)
	t := s.newTask(op, n, op.P, set(sKey(op.P), iKey(op.P)))
	var err error
	t.run = func() {
		if n.lib != nil {
			err = n.lib.processBundle(op.P, b)
		} else {
			err = n.ref.processBundle(op.P, NewRng(sub(op.Seed, 3)), b)
		}
	}
	sit := s.situ(n, op.P)
	t.finish = func() {
		commit := func() {
			c := n.conv(op.P)
			c.archive()
			c.total++
			c.cur = &MSess{init: true, local: hx(n.ident.Pub), remote: hx(b.Ident), seen: map[string]bool{}, bundle: b, toEp: ep, peer: op.P, freshGen: s.step}
			c.cur.addChain(hx(b.SpkPub))
			s.learnBundleSecrets(t)
		}
		if t.crashed || (err != nil && t.faulty) {
			if n.lib != nil && t.ctx.applied["sess.Store"] > 0 {
				if !valid || untrusted {
					s.fail("bundle", "a session was stored for a refused bundle", "C10", "C09", "C04")
				}
				commit()
			} else if t.did("s:") {
				s.noTrace(t, "fault", "C05")
			}
			if t.onlyRnd() {
				s.noTrace(t, "randomness failed", "C20", "C05")
			}
			ok := ""
			if valid && !untrusted {
				ok = hx(b.Ident)
			}
			s.syncPin(n, op.P, ok)
			s.note("bundle", "fault", sit)
			return
		}
		switch {
		case untrusted:
			if err == nil {
				s.fail("untrusted", fmt.Sprintf("node %d accepted a bundle of node %d under another identity than the trusted one", n.idx, op.P), "C09")
			}
			if valid && !isUntrusted(err) {
				s.fail("untrusted-error", fmt.Sprintf("bundle under an untrusted identity failed with %q instead of the untrusted-identity error", err), "C09", "C27")
			}
			s.noTrace(t, err.Error())
			s.rejects[[2]int{n.idx, op.P}]++
			s.note("bundle", "untrusted", sit)
		case !valid:
			if err == nil {
				s.fail("bundle-signature", fmt.Sprintf("a bundle with a bad signature (%s) was accepted", op.Mut), "C10", "C03")
			}
			s.noTrace(t, err.Error(), "C10")
			s.rejects[[2]int{n.idx, op.P}]++
			s.note("bundle", "bad", sit)
		case err != nil:
			if n.ref != nil && p.ref != nil {
				bug("ref bundle: %v", err)
			}
			ps := append(s.context(n, op.P), "C10", "C19")
			if isUntrusted(err) {
				ps = append(ps, "C09")
			}
			s.fail("bundle-refused", fmt.Sprintf("node %d refused a genuine bundle of node %d: %v", n.idx, op.P, err), ps...)
		default:
			if n.lib != nil {
				s.ignored(t, "C05")
				if !t.did("s:") {
					s.fail("not-stored", "ProcessPreKeyBundle succeeded without storing a session", "C05", "C10")
				}
				if n.lib.pin(op.P) != hx(b.Ident) {
					s.fail("pin", "after processing a bundle its identity is not the trusted one", "C09", "C05")
				}
				if t.ctx.rndBad || t.ctx.rndN < 64 {
					s.fail("randomness", fmt.Sprintf("a session was set up with %d bytes of randomness (failed: %v)", t.ctx.rndN, t.ctx.rndBad), "C20", "C08")
				}
			}
			commit()
			n.pins[op.P] = hx(b.Ident)
			s.note("bundle", "ok", sit)
		}
	}
	return t
}

// --- send

func (s *Sim) plaintext(op *Op, i int) []byte {
	r := NewRng(sub(op.Seed, 9, uint64(i)))
	n := op.K
	if n < 0 {
		n = 0
	}
	pt := r.Bytes(n)
	if n >= 16 {
		copy(pt, constBlock)
	}
	return pt
}

func (s *Sim) prepSend(op *Op, i int, n *Node) *task {
	if op.N == op.P {
		return nil
	}
	p := s.nodes[op.P]
	pt := s.plaintext(op, i)
	c := n.conv(op.P)
	pin := n.pins[op.P]
	blocked := n.blocked(op.P, true)
	t := s.newTask(op, n, op.P, set(sKey(op.P), iKey(op.P)))
	var wire []byte
	var pre bool
	intact := true
	var err error
	s.beforeSecrets(t, op.P)
	t.run = func() {
		if n.lib != nil {
			wire, pre, intact, err = n.lib.encrypt(op.P, pt, sub(op.Seed, 4))
		} else {
			wire, pre, err = n.ref.encrypt(op.P, pt)
		}
	}
	sit := sub(s.situ(n, op.P), bucket(len(pt)/16))
	t.finish = func() {
		if !intact {
			s.fail("caller-buffer", "EncryptMessage modified the caller's buffer", "C18")
		}
		remote := ""
		if c.cur != nil {
			remote = c.cur.remote
		}
		if t.crashed || (err != nil && t.faulty) {
			if c.cur == nil || (pin != "" && pin != remote) || blocked {
				s.noTrace(t, "fault")
			} else {
				c.cur.cntBad = true
				if t.ctx.applied["sess.Store"] == 0 && t.did("s:") {
					s.noTrace(t, "fault", "C05")
				}
				s.syncPin(n, op.P, remote)
				if t.ctx.applied["sess.Store"] > 0 {
					s.afterSend(t, op.P)
				}
			}
			s.note("send", "fault", sit)
			return
		}
		if c.cur == nil {
			if err == nil {
				s.fail("send-without-session", fmt.Sprintf("node %d encrypted for node %d without a current session", n.idx, op.P), "C11", "C10")
			}
			s.noTrace(t, err.Error())
			s.note("send", "no-session", sit)
			return
		}
		if pin != "" && pin != remote || blocked {
			if err == nil {
				s.fail("untrusted", fmt.Sprintf("node %d encrypted for node %d under an identity which is not the trusted one", n.idx, op.P), "C09")
			}
			if !isUntrusted(err) {
				s.fail("untrusted-error", fmt.Sprintf("encrypting for an untrusted identity failed with %q instead of the untrusted-identity error", err), "C09", "C27")
			}
			s.noTrace(t, err.Error())
			s.note("send", "untrusted", sit)
			return
		}
		if err != nil {
			if n.ref != nil {
				bug("ref send: %v", err)
			}
			ps := append(s.context(n, op.P), "C01", "C10", "C11")
			if isUntrusted(err) {
				ps = append(ps, "C09")
			}
			if t.errFaultAny() {
				ps = append(ps, "C05")
			}
			s.fail("send-refused", fmt.Sprintf("node %d cannot encrypt for node %d: %v", n.idx, op.P, err), ps...)
		}
		if n.lib != nil {
			s.ignored(t, "C05", "C06")
			if !t.did("s:") {
				s.fail("not-stored", "EncryptMessage returned a ciphertext without storing the advanced session", "C05", "C06")
			}
			if n.lib.pin(op.P) != remote {
				s.fail("pin", "after encrypting, the session's identity is not the trusted one", "C09", "C05")
			}
		}
		n.pins[op.P] = remote
		m := c.cur
		inner := wire
		var pm *preMsg
		if pre {
			var ok bool
			if pm, ok = parsePre(wire); !ok {
				s.fail("wire", "an initial message does not parse", "C19", "C10", "C25")
			}
			inner = pm.Inner
		}
		sm, ok := parseSignal(inner)
		if !ok {
			s.fail("wire", "a message does not parse", "C19", "C01", "C25")
		}
		rat := hx(sm.Rat)
		wantPre := m.init && !m.acked
		if pre != wantPre {
			d := "a plain message before any reply was decrypted"
			if pre {
				d = "an initial message although the session is acknowledged"
			}
			s.fail("message-kind", fmt.Sprintf("node %d sent node %d %s", n.idx, op.P, d), append(s.context(n, op.P), "C10", "C11", "C01")...)
		}
		if pre {
			b := m.bundle
			bad := ""
			switch {
			case pm.Ver != 0x33:
				bad = "version"
			case pm.Reg != n.reg:
				bad = "registration ID"
			case pm.Spk != b.Spk:
				bad = "signed pre-key ID"
			case (pm.Otpk == nil) != (b.Otpk == nil) || (pm.Otpk != nil && *pm.Otpk != *b.Otpk):
				bad = "one-time pre-key ID"
			case hx(pm.Ident) != m.local:
				bad = "identity key"
			case len(pm.Base) != 33 || (m.key != "" && hx(pm.Base) != m.key):
				bad = "base key"
			}
			if bad != "" {
				s.fail("initial-message", "an initial message carries the wrong "+bad, "C10", "C19", "C01")
			}
			m.key = hx(pm.Base)
		}
		if sm.Ver != 0x33 {
			s.fail("wire", fmt.Sprintf("message version byte %#x", sm.Ver), "C19", "C25")
		}
		if m.freshDue {
			if _, old := s.rats[rat]; old {
				s.fail("stale-ratchet", fmt.Sprintf("node %d received a new chain of node %d but its next message still carries ratchet key %s of before", n.idx, op.P, short(rat)), "C08", "C07")
			}
		}
		if _, known := s.rats[rat]; !known {
			s.rats[rat] = m.freshGen
			s.ratDep[rat] = m.lastRecv
		}
		m.freshDue = false
		if rat != m.sendRat {
			m.pn, m.pnBad = m.cnt, m.cntBad
			if m.pn > 0 {
				m.pn--
			}
		}
		if !m.pnBad && sm.Prev != m.pn {
			s.fail("wire", fmt.Sprintf("a message names %d as the last position of the chain before, which is %d", sm.Prev, m.pn), "C19", "C25")
		}
		m.cnt, m.cntBad = sm.Ctr+1, false
		m.sendRat = rat
		s.once(fmt.Sprintf("%s/%d", rat, sm.Ctr), sm.Body, pt, "C06", "C01", "C05")
		m.sends++
		q := &Packet{From: n.idx, To: op.P, ToEp: m.toEp, Pre: pre, Wire: wire, Inner: inner, Plain: pt, Sess: m.key,
			Rat: rat, Ctr: sm.Ctr, Ident: m.local, sentBy: m, fromEp: n.epoch, Dep: s.ratDep[rat]}
		if pre {
			q.Otpk, q.Spk, q.Reg = pm.Otpk, pm.Spk, pm.Reg
			s.byInner[string(inner)] = q
		}
		s.addPacket(op, i, q)
		s.afterSend(t, op.P)
		_ = p
		s.note("send", map[bool]string{true: "pre", false: "plain"}[pre], sit)
	}
	return t
}

func (t *task) errFaultAny() bool { return t.ctx != nil && len(t.ctx.fired) > 0 }

// once records the use of a message key.
func (s *Sim) once(id string, body, pt []byte, props ...string) {
	if at, dup := s.used[id]; dup {
		s.fail("key-reuse", fmt.Sprintf("two messages (steps %d and %d) use the same position %s", at, s.step, short(id)), props...)
	}
	s.used[id] = s.step
	if len(pt) >= 16 && len(body) >= 16 {
		b := string(body[:16])
		if at, dup := s.blocks[b]; dup {
			s.fail("key-reuse", fmt.Sprintf("two messages (steps %d and %d) start with the same ciphertext block: same key and IV", at, s.step), props...)
		}
		s.blocks[b] = s.step
	}
}

// --- decrypt

// genuine returns the packet which these bytes are a faithful delivery of.
func (s *Sim) genuine(n *Node, peer int, pre bool, wire []byte) *Packet {
	q := s.byWire[string(wire)]
	if q == nil && !pre {
		q = s.byInner[string(wire)]
	} else if q != nil && q.Pre != pre {
		return nil
	}
	if q == nil || q.Group || q.From != peer || q.To != n.idx {
		return nil
	}
	return q
}

func (s *Sim) prepDecrypt(op *Op, n *Node, peer int, pre bool, wire []byte) *task {
	if n.idx == peer {
		return nil
	}
	q := s.genuine(n, peer, pre, wire)
	mine := set(sKey(peer), iKey(peer))
	var pred Pred
	if q != nil {
		pred = s.predict(n, peer, pre, q)
		if pred.delOtpk != nil {
			mine[pKey(*pred.delOtpk)] = true
		}
		if pred.out == oAccept && pred.jump > 3000 && len(n.conv(peer).prev) > 6 {
			return nil
		}
	} else if pre {
		// A forged initial message may carry a genuine message.
		for _, id := range n.otpks {
			mine[pKey(id)] = true
		}
	}
	t := s.newTask(op, n, peer, mine)
	var pt []byte
	var err error
	intact := true
	oldPin := n.pins[peer]
	hadOt := map[uint32]bool{}
	for id, ok := range n.otHave {
		hadOt[id] = ok
	}
	s.beforeSecrets(t, peer)
	t.run = func() {
		if n.lib != nil {
			pt, intact, err = n.lib.decrypt(peer, pre, wire, sub(op.Seed, 4))
		} else {
			pt, err = n.ref.decrypt(peer, NewRng(sub(op.Seed, 3)), pre, wire)
		}
	}
	sit := s.situ(n, peer)
	if q != nil {
		sit = sub(sit, uint64(pred.out), bucket(int(pred.jump)), b2u(pred.skipped), b2u(pred.newChain), b2u(pred.newSess))
	}
	t.finish = func() {
		if !intact {
			s.fail("caller-buffer", "DecryptMessage modified the caller's buffer", "C18", "C25")
		}
		if q == nil {
			s.judgeForged(t, n, peer, pre, wire, pt, err, sit)
			return
		}
		s.judgeGenuine(t, n, peer, pre, q, pred, pt, err, oldPin, sit)
	}
	return t
}

func (s *Sim) acceptProps(n *Node, peer int, q *Packet, pred Pred, t *task, err error) []string {
	ps := append(s.context(n, peer), "C01")
	if pred.newSess {
		ps = append(ps, "C10")
	}
	if len(n.conv(peer).all()) > 1 || pred.newSess {
		ps = append(ps, "C11")
	}
	if pred.jump >= limSkipped || len(pred.sess.chains) >= limChains || pred.sess.evictSkip || pred.sess.evictChain || len(pred.conv.prev) >= limArchived-1 {
		ps = append(ps, "C16")
	}
	if pred.skipped {
		for _, ch := range pred.sess.chains {
			if ch.rat == q.Rat && len(ch.skipped) >= limSkipped-2 {
				ps = append(ps, "C16")
			}
		}
	}
	if err != nil && isUntrusted(err) {
		ps = append(ps, "C09")
	}
	if err != nil && isDup(err) {
		ps = append(ps, "C02")
	}
	if len(t.ctxFired()) > 0 {
		ps = append(ps, "C05")
	}
	return ps
}

func (t *task) ctxFired() []string {
	if t.ctx == nil {
		return nil
	}
	return t.ctx.fired
}

func (s *Sim) commitDecrypt(n *Node, peer int, q *Packet, pred Pred) {
	n.convs[peer] = pred.conv
	q.got[n.idx] = s.step
	if pred.newSess {
		s.probe("session set up by an initial message")
		if s.hadSess[[2]string{fmt.Sprint(n.idx), q.Sess}] {
			// The session was given up and now starts over on one side only. What
			// the two sides make of it from here on is not specified: end the run.
			s.probe("run ended: a session that was given up started over")
			s.over = true
		}
		s.hadSess[[2]string{fmt.Sprint(n.idx), q.Sess}] = true
	}
	if pred.skipped {
		s.probe("skipped message key used")
	}
	if pred.newChain {
		s.probe("ratchet turned")
	}
	if pred.jump > 0 {
		s.probe("messages skipped over")
	}
	if pred.jump >= limSkipped {
		s.probe("more than 2000 messages skipped over")
	}
	if pred.jump == limJump {
		s.probe("exactly 25000 messages skipped over")
	}
	if pred.jump > limJump {
		s.probe("more than 25000 messages skipped over in a session with oneself")
	}
	if pred.sess.evictChain {
		s.probe("receiving chain given up")
	}
	if pred.conv.lost {
		s.probe("archived session given up")
	}
}

func (s *Sim) judgeGenuine(t *task, n *Node, peer int, pre bool, q *Packet, pred Pred, pt []byte, err error, oldPin string, sit uint64) {
	what := fmt.Sprintf("message %d.%d of node %d (session %s, chain %s, counter %d)", q.ID>>16, q.ID&0xffff, q.From, short(q.Sess), short(q.Rat), q.Ctr)
	refOnly := n.ref != nil && s.nodes[peer].ref != nil
	accept := pred.out == oAccept || pred.out == oReplay
	if t.crashed || (err != nil && t.faulty) {
		applied := t.ctx.applied["sess.Store"] > 0
		if !accept {
			s.noTrace(t, "fault")
			s.note("dlv", "fault-rejected", sit)
			return
		}
		if t.onlyRnd() {
			s.noTrace(t, "randomness failed", "C20", "C05")
		}
		if !applied {
			if t.did("s:") {
				s.noTrace(t, "fault", "C05")
			}
			if pred.delOtpk != nil && !n.lib.hasOtpk(*pred.delOtpk) {
				s.fail("pre-key-lost", "a one-time pre-key was deleted although its session was not stored", "C05", "C10")
			}
			s.syncPin(n, peer, pred.pin)
			s.note("dlv", "fault-before", sit)
			return
		}
		s.commitDecrypt(n, peer, q, pred)
		s.syncPin(n, peer, pred.pin)
		if pred.delOtpk != nil {
			n.otHave[*pred.delOtpk] = n.lib.hasOtpk(*pred.delOtpk)
			if n.otHave[*pred.delOtpk] {
				s.probe("one-time pre-key left behind by a crash")
			}
		}
		s.afterDecrypt(t, peer, q, pred)
		s.note("dlv", "fault-after", sit)
		return
	}
	if err == nil && pt == nil {
		pt = []byte{}
	}
	switch {
	case accept && (err == nil || pred.out == oAccept):
		if err != nil {
			if refOnly {
				bug("ref did not accept %s: %v (predicted %s)", what, err, outNames[pred.out])
			}
			s.fail("undecryptable", fmt.Sprintf("node %d cannot decrypt %s: %v", n.idx, what, err), s.acceptProps(n, peer, q, pred, t, err)...)
		}
		if !bytes.Equal(pt, q.Plain) {
			s.fail("wrong-plaintext", fmt.Sprintf("%s decrypted to %d bytes other than the %d sent", what, len(pt), len(q.Plain)), append(s.acceptProps(n, peer, q, pred, t, nil), "C03")...)
		}
		if n.lib != nil {
			s.ignored(t, "C05", "C02")
			if !t.did("s:") {
				s.fail("not-stored", "DecryptMessage returned a plaintext without storing the advanced session", "C02", "C05", "C07")
			}
			if got := n.lib.pin(peer); got != pred.pin {
				s.fail("pin", fmt.Sprintf("after decrypting %s the trusted identity is %q", what, short(got)), "C09", "C05")
			}
			// With several sessions, randomness may also fail in a trial of another one.
			if pred.newChain && (t.ctx.rndN < 32 || (t.ctx.rndBad && len(n.conv(peer).prev) == 0)) {
				s.fail("randomness", fmt.Sprintf("a ratchet turned with %d bytes of randomness (failed: %v)", t.ctx.rndN, t.ctx.rndBad), "C20", "C08")
			}
			if pred.delOtpk != nil && n.lib.hasOtpk(*pred.delOtpk) {
				s.fail("pre-key-kept", fmt.Sprintf("one-time pre-key %d was not deleted after its session was set up", *pred.delOtpk), "C10", "C07")
			}
			if !pred.newSess {
				for _, k := range t.changed {
					if k[0] == 'p' {
						s.fail("pre-key-lost", "a pre-key was deleted by a message of an existing session", "C10")
					}
				}
			}
		}
		if pred.delOtpk != nil {
			delete(n.otHave, *pred.delOtpk)
		}
		s.commitDecrypt(n, peer, q, pred)
		n.pins[peer] = pred.pin
		s.afterDecrypt(t, peer, q, pred)
		s.note("dlv", outNames[pred.out], sit)
	default:
		if err == nil {
			if refOnly {
				bug("ref accepted %s, predicted %s", what, outNames[pred.out])
			}
			ps := append(s.context(n, peer), "C03")
			switch pred.out {
			case oDup:
				ps = append(ps, "C02", "C07")
			case oGone:
				ps = append(ps, "C02", "C16", "C07")
				if q.consumed(n.idx) {
					ps = append(ps, "C02", "C07")
				}
			case oTooFar:
				ps = append(ps, "C16")
			case oUntrusted:
				ps = append(ps, "C09")
			case oNoPreKey:
				ps = append(ps, "C10", "C07")
				if q.consumed(n.idx) {
					ps = append(ps, "C02")
				}
			case oNoSession:
				ps = append(ps, "C16", "C11", "C10")
			}
			s.fail("accepted", fmt.Sprintf("node %d decrypted %s, expected %s", n.idx, what, outNames[pred.out]), ps...)
		}
		if len(pt) > 0 {
			p := ""
			if pred.out == oUntrusted {
				p = "C09"
			}
			s.fail("plaintext-with-error", "DecryptMessage returned a plaintext together with an error", "C02", "C03", "C04", p)
		}
		switch pred.out {
		case oDup:
			if !isDup(err) && !refOnly {
				s.fail("duplicate-error", fmt.Sprintf("a repetition of %s failed with %q instead of the duplicate-message error", what, err), append(s.context(n, peer), "C02")...)
			}
		case oUntrusted:
			if !isUntrusted(err) && !refOnly {
				s.fail("untrusted-error", fmt.Sprintf("%s under an untrusted identity failed with %q instead of the untrusted-identity error", what, err), "C09", "C27")
			}
		}
		s.noTrace(t, err.Error(), "C02")
		s.rejects[[2]int{n.idx, peer}]++
		s.probe("rejected: " + outNames[pred.out])
		s.note("dlv", outNames[pred.out], sit)
	}
}

// judgeForged handles bytes which no party sent this way.
func (s *Sim) judgeForged(t *task, n *Node, peer int, pre bool, wire, pt []byte, err error, sit uint64) {
	kind := t.op.Kind + "/" + t.op.Mut
	if err != nil || t.crashed {
		if len(pt) > 0 {
			s.fail("plaintext-with-error", "DecryptMessage returned a plaintext together with an error", "C03", "C04")
		}
		if t.faulty && t.ctx.applied["sess.Store"] > 0 {
			// Only acceptable if the message inside is genuine; see below.
			if q := s.insideOf(n, peer, pre, wire, nil); q != nil {
				s.acceptOuter(t, n, peer, wire, q, true, kind)
				s.note("mut", "outer-fault", sit)
				return
			}
			s.fail("forgery", fmt.Sprintf("a session was stored for a forged message (%s)", kind), "C03", "C04")
		}
		if t.faulty && pre {
			if q := s.insideOf(n, peer, pre, wire, nil); q != nil {
				p := s.predict(n, peer, true, q)
				s.syncPin(n, peer, p.pin)
				t.changed = without(t.changed, iKey(peer))
			}
		}
		e := "crash"
		if err != nil {
			e = err.Error()
		}
		s.noTrace(t, e, "C03")
		s.rejects[[2]int{n.idx, peer}]++
		s.note("mut", "rejected:"+t.op.Mut, sit)
		return
	}
	q := s.insideOf(n, peer, pre, wire, pt)
	if q == nil {
		ps := append(s.context(n, peer), "C03")
		if pre {
			ps = append(ps, "C09", "C10")
		}
		s.fail("forgery", fmt.Sprintf("node %d accepted a forged message (%s) under the address of node %d", n.idx, kind, peer), ps...)
	}
	if !bytes.Equal(q.Plain, pt) {
		s.fail("wrong-plaintext", fmt.Sprintf("a changed message (%s) decrypted to something else", kind), "C03", "C01")
	}
	s.acceptOuter(t, n, peer, wire, q, false, kind)
	s.note("mut", "outer-accepted:"+t.op.Mut, sit)
}

func without(l []string, x string) []string {
	var out []string
	for _, e := range l {
		if e != x {
			out = append(out, e)
		}
	}
	return out
}

// insideOf finds the genuine message inside a forged initial message.
func (s *Sim) insideOf(n *Node, peer int, pre bool, wire, pt []byte) *Packet {
	if !pre {
		return nil
	}
	var found *Packet
	pm, ok := parsePre(wire)
	for i := len(s.packets) - 1; i >= 0; i-- {
		q := s.packets[i]
		if q.Group || q.From != peer || q.To != n.idx {
			continue
		}
		if ok && !bytes.Equal(pm.Inner, q.Inner) || !ok && !bytes.Contains(wire, q.Inner) {
			continue
		}
		if pt != nil && bytes.Equal(pt, q.Plain) {
			return q
		}
		if found == nil {
			found = q
		}
	}
	return found
}

// acceptOuter: an initial message whose unauthenticated outer part was changed may
// be accepted in place of the original, provided the session it names is right.
func (s *Sim) acceptOuter(t *task, n *Node, peer int, wire []byte, q *Packet, fault bool, kind string) {
	pm, ok := parsePre(wire)
	pred := s.predict(n, peer, true, q)
	if !q.Pre {
		pred = s.predict(n, peer, false, q)
	}
	if pred.out != oAccept && pred.out != oReplay {
		ps := []string{"C03", "C10"}
		switch pred.out {
		case oDup, oGone, oReplay:
			ps = append(ps, "C02", "C07")
		case oUntrusted:
			ps = append(ps, "C09")
		case oTooFar:
			ps = append(ps, "C16")
		}
		s.fail("accepted", fmt.Sprintf("node %d decrypted a changed initial message (%s), expected %s", n.idx, kind, outNames[pred.out]), ps...)
	}
	if ok && (hx(pm.Base[:33]) != q.Sess || hx(pm.Ident[:33]) != q.Ident) {
		s.fail("outer", fmt.Sprintf("node %d accepted an initial message (%s) naming another base or identity key than the session of the message inside", n.idx, kind), "C02", "C10", "C09", "C03")
	}
	if pred.delOtpk == nil {
		for _, k := range t.changed {
			if k[0] == 'p' {
				s.fail("pre-key-lost", fmt.Sprintf("a changed initial message (%s) of an existing session deleted %s", kind, n.describe(k)), "C10")
			}
		}
	} else {
		for _, k := range t.changed {
			if k[0] == 'p' && k != pKey(*pred.delOtpk) {
				s.fail("pre-key-lost", fmt.Sprintf("a changed initial message (%s) deleted %s", kind, n.describe(k)), "C10")
			}
		}
		n.otHave[*pred.delOtpk] = n.lib.hasOtpk(*pred.delOtpk)
		if n.otHave[*pred.delOtpk] && !fault {
			s.fail("pre-key-kept", "a one-time pre-key was not deleted after its session was set up", "C10", "C07")
		}
	}
	if pred.newSess {
		pred.sess.reg = -1
	}
	s.commitDecrypt(n, peer, q, pred)
	s.syncPin(n, peer, pred.pin)
	s.afterDecrypt(t, peer, q, pred)
}

// --- operations of the application

func (s *Sim) fastForward(op *Op, n *Node) bool {
	c := n.conv(op.P)
	if c.cur == nil || op.K <= 0 || op.N == op.P {
		return false
	}
	if c.cur.freshDue || c.cur.sendRat == "" {
		c.cur.cntBad = true
	}
	c.cur.cnt += uint32(op.K)
	if n.ref != nil {
		m := n.ref.conv(op.P).cur
		for i := 0; i < op.K; i++ {
			m.sendCk, m.sendIdx = nextCk(m.sendCk), m.sendIdx+1
		}
		return true
	}
	rec := n.lib.record(op.P)
	if rec == nil || rec.State() == nil {
		return false
	}
	ck, err := rec.State().SenderChainKey()
	if err != nil {
		return false
	}
	for i := 0; i < op.K; i++ {
		ck = ck.Next()
	}
	rec.State().SetSenderChainKey(ck)
	if err := n.lib.D.sess.Store(bg, s.nodes[op.P].addr, rec); err != nil {
		bug("store: %v", err)
	}
	return true
}

// warp moves a sending chain and the receiving chain that follows it, which must be
// level, to a position far ahead: as if that many messages had been exchanged. A
// short way is walked; on a long one the chain keys stay the same, which nobody can
// tell because chains are not followed as far as that.
func (s *Sim) warp(op *Op, n *Node) bool {
	if op.N == op.P || s.cfg.Secrets || op.K <= 0 || op.K > maxWarp || s.shared && op.K > 20000 {
		return false
	}
	p := s.nodes[op.P]
	m, r := n.conv(op.P).cur, p.conv(op.N).cur
	if m == nil || r == nil || m.key == "" || m.key != r.key || m.sendRat == "" || m.freshDue {
		return false
	}
	ch := r.chain(m.sendRat)
	to := uint32(op.K)
	if ch == nil || ch.next >= to || len(unhex(m.sendRat)) != 33 {
		return false
	}
	rat, err := curve.NewPublicKey(unhex(m.sendRat))
	if err != nil {
		return false
	}
	var src, dst *session.Record
	var sck, dck ratchet.ChainKey
	var rch *refChain
	switch {
	case n.ref != nil:
		if c := n.ref.conv(op.P).cur; c == nil || c.sendIdx != ch.next {
			return false
		}
	default:
		if src = n.lib.record(op.P); src == nil || src.State() == nil {
			return false
		}
		if sck, err = src.State().SenderChainKey(); err != nil || sck.Index() != ch.next {
			return false
		}
		if sck, err = ratchet.NewChainKey(walkChain(sck.Key(), ch.next, to), to); err != nil {
			return false
		}
	}
	switch {
	case p.ref != nil:
		if c := p.ref.conv(op.N).cur; c != nil {
			for _, x := range c.recv {
				if bytes.Equal(x.rat, rat.Bytes()) {
					rch = x
				}
			}
		}
		if rch == nil || rch.idx != ch.next {
			return false
		}
	default:
		if dst = p.lib.record(op.N); dst == nil || dst.State() == nil {
			return false
		}
		ok := false
		if dck, ok, err = dst.State().ReceiverChainKey(rat); err != nil || !ok || dck.Index() != ch.next {
			return false
		}
		if dck, err = ratchet.NewChainKey(walkChain(dck.Key(), ch.next, to), to); err != nil {
			return false
		}
	}
	if src != nil {
		src.State().SetSenderChainKey(sck)
		if err := n.lib.D.sess.Store(bg, p.addr, src); err != nil {
			bug("store: %v", err)
		}
	} else {
		c := n.ref.conv(op.P).cur
		c.sendCk, c.sendIdx = walkChain(c.sendCk, c.sendIdx, to), to
	}
	if dst != nil {
		if err := dst.State().SetReceiverChainKey(rat, dck); err != nil {
			return false
		}
		if err := p.lib.D.sess.Store(bg, n.addr, dst); err != nil {
			bug("store: %v", err)
		}
		p.dig = p.lib.digests()
	} else {
		rch.ck, rch.idx = walkChain(rch.ck, rch.idx, to), to
	}
	ch.next = to
	m.cnt = to
	s.probe("chain moved far ahead")
	return true
}

// walkChain follows a chain if the way is short.
func walkChain(ck []byte, from, to uint32) []byte {
	if to-from > 3*limJump {
		return ck
	}
	for ; from < to; from++ {
		ck = nextCk(ck)
	}
	return ck
}

func (s *Sim) archive(op *Op, n *Node) bool {
	c := n.conv(op.P)
	if op.N == op.P || (c.cur == nil && len(c.prev) == 0) {
		return false
	}
	if n.ref != nil {
		n.ref.conv(op.P).archive()
		c.archive()
		return true
	}
	rec := n.lib.record(op.P)
	if rec == nil {
		s.fail("record-lost", "a session record disappeared", "C05", "C11", "C18")
	}
	rec.ArchiveCurrentState()
	if err := n.lib.D.sess.Store(bg, s.nodes[op.P].addr, rec); err != nil {
		bug("store: %v", err)
	}
	c.archive()
	return true
}

func (s *Sim) acceptIdentity(op *Op, n *Node) bool {
	if op.N == op.P {
		return false
	}
	id := s.nodes[op.P].ident.Pub
	if n.ref != nil {
		n.ref.pins[op.P] = id
		n.pins[op.P] = hx(id)
		return true
	}
	k, err := identity.NewKey(s.buf(id))
	if err != nil {
		bug("identity: %v", err)
	}
	old := n.pins[op.P]
	over, err := n.lib.D.id.Store(bg, s.nodes[op.P].addr, k)
	if err != nil {
		s.fail("identity-store", "storing an identity failed: "+err.Error(), "C09", n.storeProp())
	}
	if want := old != "" && old != hx(id); over != want {
		s.fail("identity-store", fmt.Sprintf("Store reported overwritten=%v, expected %v", over, want), "C09", n.storeProp())
	}
	n.pins[op.P] = hx(id)
	if n.lib.pin(op.P) != hx(id) {
		s.fail("identity-store", "an accepted identity is not the stored one", "C09", n.storeProp())
	}
	return true
}

// storeProp is C26 for a node on the library's stores.
func (n *Node) storeProp() string {
	if n.lib != nil && n.lib.D.mode == storeRepo {
		return "C26"
	}
	return ""
}

func (s *Sim) clear(op *Op, n *Node) bool {
	if n.ref != nil {
		n.ref.pins = map[int][]byte{}
	} else {
		base := runtime.NumGoroutine()
		if err := n.lib.D.id.Clear(); err != nil {
			s.fail("identity-store", "Clear failed: "+err.Error(), "C09", n.storeProp())
		}
		if op.Seed%2 == 0 {
			drainGoroutines(base)
		} else {
			s.drain = base // what Clear left running runs after the next operation
		}
		for i := range s.nodes {
			if n.lib.pin(i) != "" {
				s.fail("identity-store", "Clear left an identity behind", "C09", n.storeProp())
			}
		}
	}
	n.pins = map[int]string{}
	return true
}

func (s *Sim) reinstall(op *Op, n *Node) bool {
	n.epoch++
	ident := newRefKey(NewRng(sub(op.Seed, 11)).Bytes(32))
	if op.K == 1 { // same identity, lost sessions
		ident = n.ident
	}
	for _, f := range s.forks {
		if f.node == n {
			f.dead = true
		}
	}
	s.install(n, ident)
	return true
}

func (s *Sim) rotateSpk(n *Node) bool {
	if len(n.spks) > 6 {
		return false
	}
	s.newSpk(n, n.spks[len(n.spks)-1]+1000)
	return true
}

func (s *Sim) moreOtpks(n *Node, k int) bool {
	if len(n.otpks) > 60 {
		return false
	}
	for i := 0; i < k; i++ {
		last := s.cfg.Nodes[n.idx].OtID
		if len(n.otpks) > 0 {
			last = n.otpks[len(n.otpks)-1] + 1
		}
		s.newOtpk(n, last)
	}
	return true
}

// prepInit sets up both ends of a session from shared parameters, as the
// exported InitializeAliceSessionRecord and InitializeBobSessionRecord allow.
func (s *Sim) prepInit(op *Op, n *Node) *task {
	p := s.nodes[op.P]
	if n == p || n.lib == nil || p.lib == nil {
		return nil
	}
	if c := n.convs[op.P]; c != nil && (c.cur != nil || len(c.prev) > 0) {
		return nil
	}
	if c := p.convs[op.N]; c != nil && (c.cur != nil || len(c.prev) > 0) {
		return nil
	}
	if (n.pins[op.P] != "" && n.pins[op.P] != hx(p.ident.Pub)) || (p.pins[op.N] != "" && p.pins[op.N] != hx(n.ident.Pub)) {
		return nil
	}
	r := NewRng(sub(op.Seed, 13))
	base, spk, ot, rk := newRefKey(r.Bytes(32)), newRefKey(r.Bytes(32)), newRefKey(r.Bytes(32)), newRefKey(r.Bytes(32))
	pub := func(b []byte) curve.PublicKey {
		k, err := curve.NewPublicKey(b)
		if err != nil {
			bug("key: %v", err)
		}
		return k
	}
	ap := &ratchet.AliceParameters{OurIdentityKeyPair: libIdentity(n.ident), OurBaseKeyPair: libKeyPair(base), TheirIdentityKey: libIdentity(p.ident).IdentityKey(),
		TheirSignedPreKey: pub(spk.Pub), TheirRatchetKey: pub(rk.Pub)}
	bp := &ratchet.BobParameters{OurIdentityKeyPair: libIdentity(p.ident), OurSignedPreKeyPair: libKeyPair(spk), OurRatchetKeyPair: libKeyPair(rk),
		TheirIdentityKey: libIdentity(n.ident).IdentityKey(), TheirBaseKey: pub(base.Pub)}
	if op.K == 1 {
		ap.TheirOneTimePreKey = pub(ot.Pub)
		bp.OurOneTimePreKeyPair = libKeyPair(ot)
	}
	ra, err := session.InitializeAliceSessionRecord(setupReader{r}, ap)
	if err != nil {
		s.fail("init", "InitializeAliceSessionRecord: "+err.Error(), "C10")
	}
	rb, err := session.InitializeBobSessionRecord(bp)
	if err != nil {
		s.fail("init", "InitializeBobSessionRecord: "+err.Error(), "C10")
	}
	if n.lib.D.sess.Store(bg, p.addr, ra) != nil || p.lib.D.sess.Store(bg, n.addr, rb) != nil {
		bug("store failed")
	}
	key := fmt.Sprintf("init-%d", op.ID)
	ca, cb := n.conv(op.P), p.conv(op.N)
	ca.total++
	cb.total++
	ca.cur = &MSess{key: key, acked: true, local: hx(n.ident.Pub), remote: hx(p.ident.Pub), seen: map[string]bool{}, peer: op.P, freshGen: s.step}
	ca.cur.addChain(hx(rk.Pub))
	cb.cur = &MSess{key: key, acked: true, local: hx(p.ident.Pub), remote: hx(n.ident.Pub), seen: map[string]bool{}, peer: op.N, freshGen: s.step}
	n.dig, p.dig = n.lib.digests(), p.lib.digests()
	s.probe("session from shared parameters")
	return &task{op: op, n: n}
}

// prepSettle: once messages stop crossing, one message in each direction leaves
// both on the same session with plain messages. The exchange itself consists of
// ordinary sends and deliveries; this step only checks where it led.
func (s *Sim) prepSettle(op *Op, n *Node) *task {
	p := s.nodes[op.P]
	a, b := n.convs[op.P], p.convs[op.N]
	if a == nil || b == nil || a.cur == nil || b.cur == nil {
		return nil
	}
	if a.cur.key != b.cur.key {
		return nil // the exchange was not complete (only while minimising)
	}
	for _, x := range []struct {
		n    *Node
		peer int
		m    *MSess
	}{{n, op.P, a.cur}, {p, op.N, b.cur}} {
		if x.n.lib == nil {
			continue
		}
		cur, _ := x.n.lib.states(x.peer)
		if cur == nil || (!strings.HasPrefix(x.m.key, "init-") && hx(cur.AliceBaseKey()) != x.m.key) {
			s.fail("not-converged", fmt.Sprintf("after an exchange node %d does not use the common session", x.n.idx), "C11")
		}
	}
	s.probe("conversation settled")
	return &task{op: op, n: n}
}
