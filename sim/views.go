package main

// What stored records report about themselves (C24): identities, registration IDs,
// positions and pending pre-keys, compared with the reference model.

import (
	"errors"
	"fmt"
	"strings"

	"google.golang.org/protobuf/proto"

	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/identity"
	"github.com/RTann/libsignal-go/protocol/perrors"
	"github.com/RTann/libsignal-go/protocol/session"
)

func (s *Sim) untrue(n *Node, peer int, format string, a ...any) {
	s.fail("untrue-report", fmt.Sprintf("node %d's session record for node %d ", n.idx, peer)+fmt.Sprintf(format, a...), "C24")
}

// viewSession compares a stored session record with the model.
func (s *Sim) viewSession(n *Node, peer int) {
	if n.lib == nil {
		return
	}
	rec := n.lib.record(peer)
	c := n.conv(peer)
	if rec == nil {
		if c.cur != nil {
			s.untrue(n, peer, "is missing")
		}
		return
	}
	before := digest(rec)
	cur := rec.State()
	if (cur == nil) != (c.cur == nil) {
		s.untrue(n, peer, "has a current session: %v, expected %v", cur != nil, c.cur != nil)
	}
	s.viewRecord(n, peer, rec, c.cur)
	if c.cur != nil {
		s.viewState(n, peer, cur, c.cur)
		s.viewReread(n, peer, cur)
	}
	prev, err := rec.PreviousStates()
	if err != nil {
		s.untrue(n, peer, "does not list its archived sessions: %v", err)
	}
	if len(prev) != len(c.prev) {
		s.untrue(n, peer, "lists %d archived sessions, expected %d", len(prev), len(c.prev))
	}
	for _, m := range c.prev {
		if m.key == "" || strings.HasPrefix(m.key, "init-") {
			continue
		}
		var st *session.State
		for _, p := range prev {
			if hx(p.AliceBaseKey()) == m.key {
				st = p
			}
		}
		if st == nil {
			s.untrue(n, peer, "does not list archived session %s", short(m.key))
		}
		s.viewState(n, peer, st, m)
	}
	for _, m := range c.all() {
		if m.key == "" || strings.HasPrefix(m.key, "init-") {
			continue
		}
		if has, err := rec.HasSessionState(3, unhex(m.key)); err != nil || !has {
			s.untrue(n, peer, "denies having session %s (%v)", short(m.key), err)
		}
	}
	if digest(rec) != before {
		s.untrue(n, peer, "changed while it was read")
	}
}

// viewRecord asks the record itself, which speaks for its current session.
func (s *Sim) viewRecord(n *Node, peer int, rec *session.Record, m *MSess) {
	ver, verErr := rec.Version()
	local, localErr := rec.LocalIdentityKey()
	remote, has, remoteErr := rec.RemoteIdentityKey()
	send, sendErr := rec.SenderChainKey()
	some, err := curve.NewPublicKey(n.ident.Pub)
	if err != nil {
		bug("key: %v", err)
	}
	_, known, recvErr := rec.ReceiverChainKey(some)
	errs := []error{verErr, localErr, remoteErr, sendErr, recvErr}
	names := []string{"version", "own identity", "remote identity", "sending chain", "receiving chain"}
	if m == nil {
		for i, err := range errs {
			if !errors.Is(err, perrors.ErrNoCurrentSession) {
				s.untrue(n, peer, "has no current session, but asked for the %s it answers %v", names[i], err)
			}
		}
		return
	}
	for i, err := range errs {
		if err != nil {
			s.untrue(n, peer, "asked for the %s answers %v", names[i], err)
		}
	}
	switch {
	case ver != 3:
		s.untrue(n, peer, "reports version %d", ver)
	case hx(local.Bytes()) != m.local:
		s.untrue(n, peer, "reports the wrong own identity")
	case !has || hx(remote.Bytes()) != m.remote:
		s.untrue(n, peer, "reports the wrong remote identity")
	case known:
		s.untrue(n, peer, "reports a receiving chain which does not exist")
	case !m.cntBad && !m.freshDue && m.sendRat != "" && send.Index() != m.cnt:
		s.untrue(n, peer, "reports position %d of the sending chain, expected %d", send.Index(), m.cnt)
	}
	for _, ch := range m.chains {
		k, err := curve.NewPublicKey(unhex(ch.rat))
		if err != nil {
			continue
		}
		if ck, ok, err := rec.ReceiverChainKey(k); err != nil || !ok || ck.Index() != ch.next {
			s.untrue(n, peer, "reports position %d of receiving chain %s (found: %v, %v), expected %d", ck.Index(), short(ch.rat), ok, err, ch.next)
		}
	}
}

// viewState compares one session with the model's.
func (s *Sim) viewState(n *Node, peer int, st *session.State, m *MSess) {
	ss := structOf(st)
	if ss == nil {
		s.untrue(n, peer, "holds a session which cannot be read")
	}
	var self bool
	var local, remote identity.Key
	var has bool
	var err error
	if local, err = st.LocalIdentityKey(); err == nil {
		if remote, has, err = st.RemoteIdentityKey(); err == nil {
			self, err = st.SessionWithSelf()
		}
	}
	pend, perr := st.UnacknowledgedPreKeyMessages()
	made := !strings.HasPrefix(m.key, "init-")
	switch {
	case err != nil || perr != nil:
		s.untrue(n, peer, "cannot tell the identities or the pending pre-keys of a session: %v %v", err, perr)
	case st.Version() != 3:
		s.untrue(n, peer, "reports version %d", st.Version())
	case hx(local.Bytes()) != m.local || !has || hx(remote.Bytes()) != m.remote:
		s.untrue(n, peer, "holds a session with the wrong identities")
	case self != (m.local == m.remote):
		s.untrue(n, peer, "reports a session with oneself: %v", self)
	case made && st.LocalRegistrationID() != n.reg:
		s.untrue(n, peer, "reports own registration ID %d instead of %d", st.LocalRegistrationID(), n.reg)
	case m.init && ss.GetRemoteRegistrationId() != m.bundle.Reg:
		s.untrue(n, peer, "reports registration ID %d instead of %d of the bundle", ss.GetRemoteRegistrationId(), m.bundle.Reg)
	case !m.init && made && m.reg >= 0 && int64(ss.GetRemoteRegistrationId()) != m.reg:
		s.untrue(n, peer, "reports registration ID %d instead of %d of the initial message", ss.GetRemoteRegistrationId(), m.reg)
	case made && m.key != "" && hx(st.AliceBaseKey()) != m.key:
		s.untrue(n, peer, "holds a session under the wrong base key")
	case (pend != nil) != (m.init && !m.acked):
		s.untrue(n, peer, "waits for a reply: %v, expected %v", pend != nil, m.init && !m.acked)
	case pend != nil && (uint32(pend.SignedPreKeyID()) != m.bundle.Spk || (pend.PreKeyID() == nil) != (m.bundle.Otpk == nil) || pend.PreKeyID() != nil && uint32(*pend.PreKeyID()) != *m.bundle.Otpk || m.key != "" && hx(pend.BaseKey().Bytes()) != m.key):
		s.untrue(n, peer, "names the wrong keys of the handshake it waits for")
	}
	if len(ss.GetReceiverChains()) != len(m.chains) {
		s.untrue(n, peer, "holds %d receiving chains of a session, expected %d", len(ss.GetReceiverChains()), len(m.chains))
	}
	for _, ch := range m.chains {
		k, err := curve.NewPublicKey(unhex(ch.rat))
		if err != nil {
			continue
		}
		if ck, ok, err := st.ReceiverChainKey(k); err != nil || !ok || ck.Index() != ch.next {
			s.untrue(n, peer, "reports position %d of receiving chain %s of a session (found: %v, %v), expected %d", ck.Index(), short(ch.rat), ok, err, ch.next)
		}
		if i, c := st.ReceiverChain(k); i >= 0 && len(c.GetMessageKeys()) != len(ch.skipped) {
			s.untrue(n, peer, "keeps %d message keys of a receiving chain, expected %d", len(c.GetMessageKeys()), len(ch.skipped))
		}
		if l := len(ch.skipped); l > 0 && l < 60 {
			at := ch.skipped[s.step%l]
			if mk, ok, err := st.Clone().MessageKeys(k, at); err != nil || !ok || mk.Counter() != at {
				s.untrue(n, peer, "asked for the message key of position %d answers with that of %d (found: %v, %v)", at, mk.Counter(), ok, err)
			}
		}
	}
	if m.freshDue && !m.cntBad {
		if ck, err := st.SenderChainKey(); err != nil || ck.Index() != 0 {
			s.untrue(n, peer, "reports position %d of a sending chain which was not used yet (%v)", ck.Index(), err)
		}
	}
	if !m.cntBad && !m.freshDue && m.sendRat != "" {
		k, err := st.SenderRatchetKey()
		ck, err2 := st.SenderChainKey()
		if err != nil || err2 != nil || hx(k.Bytes()) != m.sendRat || ck.Index() != m.cnt {
			s.untrue(n, peer, "reports the wrong sending chain of a session, or position %d instead of %d", ck.Index(), m.cnt)
		}
	}
}

// viewReread writes a session out and reads it back.
func (s *Sim) viewReread(n *Node, peer int, st *session.State) {
	r, err := session.NewRecordBytes(st.Bytes())
	if err != nil || r.State() == nil {
		s.untrue(n, peer, "cannot be read back: %v", err)
	}
	if !proto.Equal(structOf(r.State()), structOf(st)) {
		s.untrue(n, peer, "differs after being written and read back")
	}
}

// viewGroup compares a stored group record with the model.
func (s *Sim) viewGroup(n *Node, sender, d int) {
	if n.lib == nil {
		return
	}
	bad := func(format string, a ...any) {
		s.fail("untrue-report", fmt.Sprintf("node %d's record of the sender keys of node %d ", n.idx, sender)+fmt.Sprintf(format, a...), "C24")
	}
	c := n.gconv(sender, d)
	rec := n.lib.groupRecord(sender, d)
	if rec == nil {
		if len(c.keys) > 0 {
			bad("is missing")
		}
		return
	}
	before := digest(rec)
	if cur := c.cur(); cur != nil && !c.unknown {
		st, err := rec.State()
		if err != nil || st.ChainID() != cur.chain {
			bad("does not report its newest key (%v)", err)
		}
	}
	for _, k := range c.keys {
		st := rec.StateForChainID(k.chain)
		if st == nil {
			bad("lacks key %d", k.chain)
		}
		pub, err := st.PublicSigningKey()
		if err != nil || hx(pub.Bytes()) != k.sign || st.Version() != 3 {
			bad("reports the wrong signing key or version for key %d (%v)", k.chain, err)
		}
		if it := st.SenderChainKey().Iteration(); it != k.next {
			bad("reports position %d of key %d, expected %d", it, k.chain, k.next)
		}
		priv, err := st.PrivateSigningKey()
		if sender == n.idx && (err != nil || len(priv.Bytes()) != 32) {
			bad("lacks the private signing key of key %d (%v)", k.chain, err)
		}
		if sender != n.idx && err == nil && priv != nil && len(priv.Bytes()) > 0 {
			bad("reports a private signing key for key %d of another party", k.chain)
		}
	}
	if digest(rec) != before {
		bad("changed while it was read")
	}
}

// viewAll compares everything a node stores with the model.
func (s *Sim) viewAll(n *Node) {
	if n.lib == nil {
		return
	}
	for p := range s.nodes {
		if p != n.idx {
			s.viewSession(n, p)
		}
		for d := range s.dists {
			s.viewGroup(n, p, d)
		}
	}
}
