package main

// Attackers with copies of stored state (C07, C08), and checks of what is stored.

import (
	"fmt"
	"strings"

	"google.golang.org/protobuf/proto"

	v1 "github.com/RTann/libsignal-go/protocol/generated/v1"
	"github.com/RTann/libsignal-go/protocol/session"
)

// Fork is an attacker's copy of a node's stores: as captured, and one which keeps
// following the traffic.
type Fork struct {
	node *Node
	snap *LibNode
	prog *LibNode
	step int
	dead bool
}

// onFork runs f on a copy of a node with its own randomness and no faults.
func (s *Sim) onFork(f *LibNode, seed uint64, what string, fn func()) {
	t := &task{run: fn}
	saved, scr := s.cur, s.scrib
	s.cur = newOpCtx(f, seed, nil)
	s.guarded(t)
	s.cur, s.scrib = saved, scr
	if t.panicV != "" {
		s.fail("panic", fmt.Sprintf("%s panicked: %s", what, t.panicV), "C17")
	}
}

// --- used-up secrets

func (n *Node) dead(b []byte, what string) {
	if len(b) != 32 {
		return
	}
	var k [32]byte
	copy(k[:], b)
	if _, ok := n.secrets[k]; !ok {
		n.secrets[k] = what
	}
}

func (n *Node) deadChain(ck []byte, from, to uint32) {
	for i := from; ; i++ {
		if i-from < 24 || to-i < 24 {
			n.dead(ck, fmt.Sprintf("the chain key at position %d of a chain used up to %d", i, to))
		}
		if i == to {
			k := deriveMsgKeys(ck)
			n.dead(k.Cipher, fmt.Sprintf("the cipher key of a used message (position %d)", i))
			n.dead(k.Mac, fmt.Sprintf("the MAC key of a used message (position %d)", i))
			n.dead(hm(ck, []byte{1}), "the seed of a used message key")
			return
		}
		ck = nextCk(ck)
	}
}

func (s *Sim) beforeSecrets(t *task, peer int) {
	if !s.cfg.Secrets || t.n.lib == nil {
		return
	}
	cur, prev := t.n.lib.states(peer)
	if cur != nil {
		t.preCur = structOf(cur)
	}
	for _, p := range prev {
		t.prePrev = append(t.prePrev, structOf(p))
	}
}

func (s *Sim) afterSend(t *task, peer int) {
	if !s.cfg.Secrets || t.preCur == nil {
		return
	}
	ck := t.preCur.GetSenderChain().GetChainKey()
	if len(ck.GetKey()) == 32 {
		t.n.deadChain(ck.GetKey(), ck.GetIndex(), ck.GetIndex())
	}
}

func (s *Sim) learnBundleSecrets(t *task) {
	n := t.n
	if !s.cfg.Secrets || n.lib == nil {
		return
	}
	cur, _ := n.lib.states(t.peer)
	keep := ""
	if cur != nil {
		keep = hx(structOf(cur).GetSenderChain().GetSenderRatchetKey())
	}
	var all []byte
	for _, d := range t.ctx.draws {
		all = append(all, d...)
	}
	for i := 0; i+32 <= len(all); i += 32 {
		k := newRefKey(all[i : i+32])
		if hx(k.Pub) == keep {
			continue
		}
		n.dead(all[i:i+32], "the private base key of a session")
		n.dead(k.Priv, "the private base key of a session")
	}
}

func (s *Sim) afterDecrypt(t *task, peer int, q *Packet, pred Pred) {
	n := t.n
	s.followForks(t, peer, q)
	if !s.cfg.Secrets || n.lib == nil {
		return
	}
	if pred.newSess {
		if n.sessSeen == nil {
			n.sessSeen = map[string]bool{}
		}
		if n.sessSeen[q.Sess] {
			// The session was given up and is set up again from its start.
			n.secrets = map[[32]byte]string{}
		}
		n.sessSeen[q.Sess] = true
		if pred.delOtpk != nil && !n.otHave[*pred.delOtpk] {
			n.dead(n.otKey[*pred.delOtpk].Priv, "a used one-time pre-key")
		}
		spk, ok := n.spkKey[q.Spk]
		if !ok {
			return
		}
		var dhs [][]byte
		for _, x := range [][2][]byte{{spk.Priv, unhex(q.Ident)}, {n.ident.Priv, unhex(q.Sess)}, {spk.Priv, unhex(q.Sess)}} {
			d, err := dh(x[0], x[1])
			if err != nil {
				return
			}
			dhs = append(dhs, d)
		}
		if q.Otpk != nil {
			d, err := dh(n.otKey[*q.Otpk].Priv, unhex(q.Sess))
			if err != nil {
				return
			}
			dhs = append(dhs, d)
		}
		root, _ := x3dhKeys(dhs...)
		_, ck, err := rootStep(root, spk.Priv, unhex(q.Rat))
		if err == nil {
			n.deadChain(ck, 0, q.Ctr)
		}
		return
	}
	var st *v1.SessionStructure
	for _, x := range append([]*v1.SessionStructure{t.preCur}, t.prePrev...) {
		if x == nil {
			continue
		}
		if k := hx(x.GetAliceBaseKey()); k == q.Sess || (k == "" && strings.HasPrefix(q.Sess, "init-")) {
			st = x
		}
	}
	if st == nil {
		return
	}
	for _, ch := range st.GetReceiverChains() {
		if hx(ch.GetSenderRatchetKey()) != q.Rat {
			continue
		}
		ck := ch.GetChainKey()
		if len(ck.GetKey()) == 32 && q.Ctr >= ck.GetIndex() && q.Ctr-ck.GetIndex() <= 100000 {
			n.deadChain(ck.GetKey(), ck.GetIndex(), q.Ctr)
			return
		}
		for _, mk := range ch.GetMessageKeys() {
			if mk.GetIndex() == q.Ctr {
				n.dead(mk.GetCipherKey(), "the cipher key of a used message")
				n.dead(mk.GetMacKey(), "the MAC key of a used message")
			}
		}
		return
	}
	// A new chain of the peer: our previous ratchet key has served its purpose.
	priv := st.GetSenderChain().GetSenderRatchetKeyPrivate()
	if len(priv) == 32 && pred.newChain {
		if _, ck, err := rootStep(st.GetRootKey(), priv, unhex(q.Rat)); err == nil {
			n.deadChain(ck, 0, q.Ctr)
		}
		for _, k := range n.spkKey {
			if hx(k.Priv) == hx(priv) {
				return
			}
		}
		n.dead(priv, "a private ratchet key that was replaced")
	}
}

func (s *Sim) gseeds(n *Node, sender, d int) []*v1.SenderKeyStateStructure {
	var out []*v1.SenderKeyStateStructure
	if rec := n.lib.groupRecord(sender, d); rec != nil {
		walkAny(rec, func([]byte) {}, func(m proto.Message) {
			if x, ok := m.(*v1.SenderKeyStateStructure); ok {
				out = append(out, proto.Clone(x).(*v1.SenderKeyStateStructure))
			}
		})
	}
	return out
}

func (s *Sim) beforeGSecrets(t *task, sender, d int) {
	if !s.cfg.Secrets || t.n.lib == nil {
		return
	}
	t.preG = s.gseeds(t.n, sender, d)
}

func (n *Node) deadGroup(ck []byte, from, to uint32) {
	for i := from; ; i++ {
		if i-from < 24 || to-i < 24 {
			n.dead(ck, fmt.Sprintf("the sender chain key at position %d of a chain used up to %d", i, to))
		}
		if i == to {
			_, key := groupKeys(ck)
			n.dead(key, fmt.Sprintf("the cipher key of a used group message (position %d)", i))
			n.dead(hm(ck, []byte{1}), "the seed of a used group message key")
			return
		}
		ck = nextCk(ck)
	}
}

func (s *Sim) afterGSend(t *task, d int) {
	if len(t.preG) == 0 {
		return
	}
	k := t.n.gconv(t.n.idx, d).cur()
	for _, st := range t.preG {
		if ck := st.GetSenderChainKey(); st.GetChainId() == k.chain && len(ck.GetSeed()) == 32 {
			t.n.deadGroup(ck.GetSeed(), ck.GetIteration(), ck.GetIteration())
		}
	}
}

func (s *Sim) afterGDecrypt(t *task, sender int, q *Packet) {
	for _, st := range t.preG {
		if st.GetChainId() != q.Chain {
			continue
		}
		ck := st.GetSenderChainKey()
		if len(ck.GetSeed()) == 32 && q.Ctr >= ck.GetIteration() && q.Ctr-ck.GetIteration() <= 100000 {
			t.n.deadGroup(ck.GetSeed(), ck.GetIteration(), q.Ctr)
			continue
		}
		for _, mk := range st.GetSenderMessageKeys() {
			if mk.GetIteration() == q.Ctr {
				t.n.dead(mk.GetSeed(), "the seed of a used group message key")
			}
		}
	}
}

// scan looks for used-up secrets in a byte string.
func (n *Node) scan(b []byte) string {
	if len(n.secrets) == 0 {
		return ""
	}
	var k [32]byte
	for i := 0; i+32 <= len(b); i++ {
		copy(k[:], b[i:i+32])
		if w, ok := n.secrets[k]; ok {
			return w
		}
	}
	return ""
}

// --- what an operation left behind

// touched examines the items an operation changed.
func (n *Node) touched(s *Sim, t *task) {
	if n.lib == nil {
		return
	}
	for _, k := range t.changed {
		var rec any
		switch k[0] {
		case 's':
			var p int
			fmt.Sscanf(k, "s:%d", &p)
			s.checkSession(n, p)
			if s.cfg.Views {
				s.viewing = true
				s.viewSession(n, p)
				s.viewing = false
			}
			if r := n.lib.record(p); r != nil {
				rec = r
			}
		case 'g':
			var p, d int
			fmt.Sscanf(k, "g:%d:%d", &p, &d)
			if s.cfg.Views {
				s.viewing = true
				s.viewGroup(n, p, d)
				s.viewing = false
			}
			if s.cfg.Limits {
				s.checkGroup(n, p, d)
			}
			if r := n.lib.groupRecord(p, d); r != nil {
				rec = r
			}
		}
		if rec != nil && s.cfg.Secrets {
			walkAny(rec, func(b []byte) {
				if w := n.scan(b); w != "" {
					ps := []string{"C07"}
					if k[0] == 's' {
						ps = append(ps, "C02")
					} else {
						ps = append(ps, "C13")
					}
					s.fail("secret", fmt.Sprintf("after %s, %s still holds %s", t.op.Kind, n.describe(k), w), ps...)
				}
			}, nil)
		}
	}
}

func (s *Sim) checkSession(n *Node, peer int) {
	c := n.conv(peer)
	rec := n.lib.record(peer)
	if rec == nil {
		s.fail("record-lost", fmt.Sprintf("the session record for node %d disappeared", peer), "C05", "C11")
	}
	cur := rec.State()
	if (cur == nil) != (c.cur == nil) {
		s.fail("current-session", fmt.Sprintf("node %d: current session towards node %d present=%v, expected %v", n.idx, peer, cur != nil, c.cur != nil), append(s.context(n, peer), "C11")...)
	}
	if cur != nil && c.cur.key != "" && !strings.HasPrefix(c.cur.key, "init-") {
		if got := hx(cur.AliceBaseKey()); got != c.cur.key {
			s.fail("current-session", fmt.Sprintf("node %d uses session %s towards node %d, expected %s", n.idx, short(got), peer, short(c.cur.key)), append(s.context(n, peer), "C11")...)
		}
	}
	if !s.cfg.Limits {
		return
	}
	prev, err := rec.PreviousStates()
	if err != nil {
		s.fail("record", "archived sessions cannot be read: "+err.Error(), "C05", "C11")
	}
	if len(prev) > limArchived {
		s.fail("limit", fmt.Sprintf("%d archived sessions", len(prev)), "C16")
	}
	l := append([]*session.State(nil), prev...)
	if cur != nil {
		l = append(l, cur)
	}
	for _, st := range l {
		ss := structOf(st)
		if len(ss.GetReceiverChains()) > limChains {
			s.fail("limit", fmt.Sprintf("%d receiving chains in a session", len(ss.GetReceiverChains())), "C16")
		}
		for _, ch := range ss.GetReceiverChains() {
			if len(ch.GetMessageKeys()) > limSkipped {
				s.fail("limit", fmt.Sprintf("%d skipped message keys in a chain", len(ch.GetMessageKeys())), "C16")
			}
		}
	}
}

func (s *Sim) checkGroup(n *Node, sender, d int) {
	l := s.gseeds(n, sender, d)
	if len(l) > limSender {
		s.fail("limit", fmt.Sprintf("%d sender keys in a record", len(l)), "C16")
	}
	for _, st := range l {
		if len(st.GetSenderMessageKeys()) > limSkipped {
			s.fail("limit", fmt.Sprintf("%d skipped message keys of a sender key", len(st.GetSenderMessageKeys())), "C16")
		}
	}
}

// --- capture

// prepCapture copies all stored state of a node and lets an attacker try it on all
// recorded traffic.
func (s *Sim) prepCapture(op *Op, n *Node) *task {
	if n.lib == nil {
		return nil
	}
	f := n.lib.fork()
	f.D.id.Clear()
	tried := 0
	for i := len(s.packets) - 1; i >= 0 && tried < 60; i-- {
		q := s.packets[i]
		if q.IsDst {
			continue
		}
		if !q.consumed(n.idx) {
			continue
		}
		tried++
		seed := sub(op.Seed, 21, uint64(q.ID))
		if q.Group {
			if p := s.gpredict(n, q); p.out == oAccept {
				continue
			}
			s.onFork(f, seed, "group DecryptMessage", func() {
				if _, _, err := f.grecv(q.From, q.Wire, 0); err == nil {
					s.fail("past-readable", fmt.Sprintf("the state of node %d decrypts group message %d.%d, which it had decrypted before", n.idx, q.ID>>16, q.ID&0xffff), "C07", "C13")
				}
			})
			continue
		}
		for _, pre := range []bool{true, false} {
			if pre && !q.Pre {
				continue
			}
			w := q.Inner
			if pre {
				w = q.Wire
			}
			saved := n.pins
			n.pins = map[int]string{}
			p := s.predict(n, q.From, pre, q)
			n.pins = saved
			if p.out == oAccept || p.out == oReplay {
				continue
			}
			s.onFork(f, seed, "DecryptMessage", func() {
				if _, _, err := f.decrypt(q.From, pre, w, 0); err == nil {
					s.fail("past-readable", fmt.Sprintf("the state of node %d decrypts message %d.%d, which it had decrypted before", n.idx, q.ID>>16, q.ID&0xffff), "C07", "C02")
				}
			})
		}
		if q.Pre && q.Otpk != nil && q.ToEp == n.epoch && !n.otHave[*q.Otpk] {
			g := n.lib.fork()
			g.D.id.Clear()
			delete(g.D.sess.(*snapSess).m, s.nodes[q.From].addr)
			s.onFork(g, seed, "DecryptMessage", func() {
				if _, _, err := g.decrypt(q.From, true, q.Wire, 0); err == nil {
					s.fail("past-readable", fmt.Sprintf("the pre-keys of node %d still decrypt initial message %d.%d, whose one-time pre-key should be gone", n.idx, q.ID>>16, q.ID&0xffff), "C07", "C10")
				}
			})
		}
	}
	if s.cfg.Secrets {
		n.lib.blobs(func(where string, b []byte) {
			if w := n.scan(b); w != "" {
				s.fail("secret", fmt.Sprintf("a captured %s holds %s", where, w), "C07")
			}
		})
	}
	if op.K == 1 && len(s.forks) < 4 {
		s.forks = append(s.forks, &Fork{node: n, snap: n.lib.fork(), prog: n.lib.fork(), step: s.step})
	}
	s.stats.Probes["packets tried on captured state"] += tried
	s.note("capture", "done", bucket(tried))
	return &task{op: op, n: n}
}

// followForks lets attackers with older copies of the recipient's state try a
// message it just decrypted.
func (s *Sim) followForks(t *task, peer int, q *Packet) {
	for i, f := range s.forks {
		if f.dead || f.node != t.n {
			continue
		}
		healed := q.Dep != "" && s.rats[q.Dep] > f.step
		seed := sub(t.op.Seed, 31, uint64(i))
		for _, lib := range []*LibNode{f.prog, f.snap} {
			if lib == f.snap && !healed {
				continue
			}
			s.onFork(lib, seed, "DecryptMessage", func() {
				pre, w := q.Pre, q.Wire
				_, _, err := lib.decrypt(peer, pre, w, 0)
				if err != nil && pre {
					_, _, err = lib.decrypt(peer, false, q.Inner, 0)
				}
				if healed {
					s.probe("healed message tried on an older copy")
					if err == nil {
						s.fail("not-healed", fmt.Sprintf("state captured from node %d at step %d decrypts message %d.%d of node %d, sent on a chain derived from a ratchet key made at step %d", t.n.idx, f.step, q.ID>>16, q.ID&0xffff, peer, s.rats[q.Dep]), "C08")
					}
				} else if err == nil {
					s.probe("message before healing read by an older copy")
				}
			})
		}
	}
}

// prepTwin repeats an operation that must draw randomness on two copies of the
// node with different randomness: the results must differ.
func (s *Sim) prepTwin(op *Op, n *Node) *task {
	if n.lib == nil || op.N == op.P {
		return nil
	}
	var a, b [][]byte
	run := func(i int) [][]byte {
		f := n.lib.fork()
		var out [][]byte
		s.onFork(f, sub(op.Seed, 41, uint64(i)), "twin", func() {
			switch op.K {
			case 0: // ratchet turn
				q := s.byID[op.Pkt]
				if q == nil || q.Group || q.From != op.P || q.To != n.idx {
					return
				}
				p := s.predict(n, op.P, q.Pre, q)
				if p.out != oAccept || !p.newChain {
					return
				}
				if _, _, err := f.decrypt(op.P, q.Pre, q.Wire, 0); err != nil {
					return
				}
				w, pre, _, err := f.encrypt(op.P, []byte("twin"), 0)
				if err != nil || pre {
					return
				}
				if m, ok := parseSignal(w); ok {
					out = [][]byte{m.Rat, m.Body, st32(f, op.P, func(x *v1.SessionStructure) []byte { return x.GetRootKey() })}
					if _, old := s.rats[hx(m.Rat)]; old {
						s.fail("stale-ratchet", "a ratchet turn keeps a ratchet key used before", "C08")
					}
				}
			case 1: // session set-up
				bd := s.bundleOf(s.nodes[op.P], 0, NewRng(1))
				if pin := n.pins[op.P]; pin != "" && pin != hx(bd.Ident) {
					return
				}
				if err := f.processBundle(op.P, bd); err != nil {
					return
				}
				w, pre, _, err := f.encrypt(op.P, []byte("twin"), 0)
				if err != nil || !pre {
					return
				}
				if pm, ok := parsePre(w); ok {
					if m, ok := parseSignal(pm.Inner); ok {
						out = [][]byte{m.Rat, pm.Base, m.Body}
					}
				}
			case 2: // sender key
				if !s.dist(op.D) || len(n.gconv(n.idx, op.D).keys) > 0 || n.gconv(n.idx, op.D).unknown {
					return
				}
				w, err := f.gdist(op.D)
				if err != nil {
					return
				}
				if m, ok := parseDist(w); ok {
					out = [][]byte{m.Key, m.Sign, []byte(fmt.Sprint(m.Chain))}
				}
			}
		})
		return out
	}
	a, b = run(1), run(2)
	if a == nil || b == nil {
		return nil
	}
	for i := range a {
		if a[i] != nil && hx(a[i]) == hx(b[i]) {
			s.fail("not-fresh", fmt.Sprintf("operation %d on two copies with different randomness gave the same key material (%d)", op.K, i), "C08", "C20", "C06")
		}
	}
	s.note("twin", fmt.Sprint(op.K), 0)
	return &task{op: op, n: n}
}

func st32(f *LibNode, peer int, get func(*v1.SessionStructure) []byte) []byte {
	cur, _ := f.states(peer)
	if cur == nil {
		return nil
	}
	return get(structOf(cur))
}
