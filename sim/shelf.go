package main

// The stores the library supplies (C26): two sets of them live through the run and
// take copies of whatever sessions, sender keys and keys its conversations have
// come to. What they return is compared with plain maps, in the face of callers
// that go on using and changing what they stored or loaded.

import (
	"fmt"
	"sort"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/direction"
	"github.com/RTann/libsignal-go/protocol/distribution"
	"github.com/RTann/libsignal-go/protocol/identity"
	"github.com/RTann/libsignal-go/protocol/prekey"
	protostore "github.com/RTann/libsignal-go/protocol/protocol"
	"github.com/RTann/libsignal-go/protocol/session"
)

type shelf struct {
	own  refKey
	reg  uint32
	sess session.Store
	grp  session.GroupStore
	pk   prekey.Store
	spk  prekey.SignedStore
	id   identity.Store

	mSess map[address.Address]string
	mGrp  map[grpKey]heldRec
	mPk   map[prekey.ID]string
	mSpk  map[prekey.ID]string
	mID   map[address.Address]string

	held []heldRec // loaded or stored earlier, still in the caller's hands
}

type heldRec struct {
	rec    any
	says   string
	chains []uint32 // of sender keys: those asked for
}

var shelfIDs = []prekey.ID{0, 1, 2, 127, 128, 0xffff, 0x10000, 0x10001, 0xffffff, 0x1000000, 0x7fffffff, 0x80000000, 0xffffffff}

func (s *Sim) newShelf(r *Rng) *shelf {
	h := &shelf{own: newRefKey(r.Bytes(32)), reg: uint32(r.U64()), mSess: map[address.Address]string{}, mGrp: map[grpKey]heldRec{}, mPk: map[prekey.ID]string{}, mSpk: map[prekey.ID]string{}, mID: map[address.Address]string{}}
	if r.P(0.5) {
		st := protostore.NewInMemStore(libIdentity(h.own), h.reg)
		h.sess, h.grp, h.pk, h.spk, h.id = st.SessionStore(), st.GroupStore(), st.PreKeyStore(), st.SignedPreKeyStore(), st.IdentityStore()
	} else {
		h.sess, h.grp, h.pk, h.spk, h.id = session.NewInMemStore(), session.NewInMemGroupStore(), prekey.NewInMemStore(), prekey.NewInMemSignedStore(), identity.NewInMemStore(libIdentity(h.own), h.reg)
	}
	return h
}

func (s *Sim) misplaced(format string, a ...any) {
	s.fail("store", fmt.Sprintf(format, a...), "C26")
}

// saysSess is everything a session record consists of, as it tells itself.
func saysSess(r *session.Record) string {
	out := "none"
	if st := r.State(); st != nil {
		out = hx(st.Bytes())
	}
	prev, err := r.PreviousStates()
	if err != nil {
		return "unreadable"
	}
	for _, p := range prev {
		out += "|" + hx(p.Bytes())
	}
	return out
}

func saysGrp(r *session.GroupRecord, chains []uint32) string {
	one := func(st *session.GroupState) string {
		if st == nil {
			return "none"
		}
		pub, err := st.PublicSigningKey()
		if err != nil {
			return "unreadable"
		}
		priv := ""
		if k, err := st.PrivateSigningKey(); err == nil && k != nil {
			priv = hx(k.Bytes())
		}
		ck := st.SenderChainKey()
		return fmt.Sprintf("%d/%d/%d/%x/%x/%s", st.Version(), st.ChainID(), ck.Iteration(), ck.Seed(), pub.Bytes(), priv)
	}
	out := "none"
	if st, err := r.State(); err == nil {
		out = one(st)
	}
	for _, c := range chains {
		out += "|" + one(r.StateForChainID(c))
	}
	return out
}

func heldGrp(rec *session.GroupRecord, chains []uint32) heldRec {
	return heldRec{rec: rec, says: saysGrp(rec, chains), chains: chains}
}

// chainIDs lists the chains that group records of the run may have.
func (s *Sim) chainIDs() []uint32 {
	seen := map[uint32]bool{1: true, 2: true, 3: true}
	for _, q := range s.packets {
		if q.Group {
			seen[q.Chain] = true
		}
	}
	var out []uint32
	for c := range seen {
		out = append(out, c)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	if len(out) > 20 {
		out = out[len(out)-20:]
	}
	return out
}

// sessionOf copies a session of the conversations of the run.
func (s *Sim) sessionOf(r *Rng) *session.Record {
	for i := 0; i < 4; i++ {
		n, p := s.nodes[r.N(len(s.nodes))], r.N(len(s.nodes))
		if n.lib == nil {
			continue
		}
		if rec := n.lib.record(p); rec != nil {
			return rec.Clone()
		}
	}
	return session.NewRecord(nil)
}

func (s *Sim) senderKeysOf(r *Rng) *session.GroupRecord {
	for i := 0; i < 4; i++ {
		n, p := s.nodes[r.N(len(s.nodes))], r.N(len(s.nodes))
		if n.lib == nil || len(s.dists) == 0 {
			continue
		}
		if rec := n.lib.groupRecord(p, r.N(len(s.dists))); rec != nil {
			return rec.Clone()
		}
	}
	rec := session.NewGroupRecord()
	s.addChain(rec, r)
	return rec
}

func (s *Sim) addChain(rec *session.GroupRecord, r *Rng) {
	pub, err := curve.NewPublicKey(newRefKey(r.Bytes(32)).Pub)
	if err != nil {
		bug("%v", err)
	}
	if err := rec.AddState(session.NewGroupState(session.GroupStateConfig{MessageVersion: 3, ChainID: uint32(1 + r.N(3)), Iteration: uint32(r.N(5)), ChainKey: r.Bytes(32), SignatureKey: pub})); err != nil {
		bug("%v", err)
	}
}

// useSess changes a record as an application or the library would.
func (s *Sim) useSess(rec *session.Record, r *Rng) {
	st := rec.State()
	switch r.N(5) {
	case 0:
		rec.ArchiveCurrentState()
	case 1:
		if st != nil {
			st.SetRemoteRegistrationID(uint32(r.U64()))
		}
	case 2:
		if st != nil {
			if ck, err := st.SenderChainKey(); err == nil && len(ck.Key()) == 32 {
				st.SetSenderChainKey(ck.Next())
			}
		}
	case 3:
		if st != nil {
			st.SetPreviousCounter(uint32(r.U64()))
			st.ClearUnacknowledgedPreKeyMessage()
		}
	default:
		o := s.sessionOf(r)
		if o.State() != nil {
			rec.PromoteState(o.State())
		}
	}
}

func (s *Sim) useGrp(rec *session.GroupRecord, r *Rng) {
	st, err := rec.State()
	switch r.N(3) {
	case 0:
		s.addChain(rec, r)
	case 1:
		if err == nil && len(st.SenderChainKey().Seed()) == 32 {
			st.SetSenderChainKey(st.SenderChainKey().Next())
		}
	default:
		if err == nil {
			rec.RemoveStates(st.ChainID())
		}
	}
}

// prepShelf uses the supplied stores for a while.
func (s *Sim) prepShelf(op *Op, n *Node) *task {
	r := NewRng(sub(op.Seed, 83))
	t := &task{n: n, op: op}
	s.cur = nil
	t.run = func() {
		for len(s.shelves) < 2 {
			s.shelves = append(s.shelves, s.newShelf(r))
		}
		for i := 0; i < 15+op.K*3; i++ {
			s.shelfStep(s.shelves[r.N(2)], r)
		}
		for _, h := range s.shelves {
			s.shelfAll(h)
		}
	}
	t.finish = func() { s.note("shelf", "ok", bucket(len(s.shelves[0].mSess)+len(s.shelves[1].mGrp))) }
	s.guarded(t)
	if t.panicV != "" {
		s.fail("panic", "a store panicked: "+t.panicV, "C17", "C26")
	}
	t.finish()
	return &task{op: op, n: n}
}

func (s *Sim) shelfStep(h *shelf, r *Rng) {
	addrs := trickyAddrs
	a := addrs[r.N(len(addrs))]
	var d distribution.ID
	if len(s.dists) > 0 {
		d = s.dists[r.N(len(s.dists))]
	}
	id := shelfIDs[r.N(len(shelfIDs))]
	key := func() (refKey, identity.Key) {
		k := newRefKey(NewRng(sub(s.cfg.Seed, 301, uint64(r.N(5)))).Bytes(32))
		if r.P(0.15) {
			k = h.own
		}
		x, err := identity.NewKey(append([]byte(nil), k.Pub...))
		if err != nil {
			bug("%v", err)
		}
		return k, x
	}
	ck := func(what string, err error) {
		if err != nil {
			s.misplaced("%s: %v", what, err)
		}
	}
	switch r.N(14) {
	case 0, 1:
		rec := s.sessionOf(r)
		h.mSess[a] = saysSess(rec)
		ck("storing a session", h.sess.Store(bg, a, rec))
		if r.P(0.6) {
			s.useSess(rec, r)
		} else {
			h.held = append(h.held, heldRec{rec: rec, says: h.mSess[a]})
		}
	case 2, 3: // load, change, store again or not
		rec, ok, err := h.sess.Load(bg, a)
		ck("loading a session", err)
		if !ok || rec == nil {
			break
		}
		if r.P(0.3) {
			h.held = append(h.held, heldRec{rec: rec, says: saysSess(rec)})
			break
		}
		s.useSess(rec, r)
		if r.P(0.5) {
			h.mSess[a] = saysSess(rec)
			ck("storing a session", h.sess.Store(bg, a, rec))
		}
	case 4:
		rec := s.senderKeysOf(r)
		x := heldGrp(rec, s.chainIDs())
		h.mGrp[grpKey{a, d}] = x
		ck("storing sender keys", h.grp.Store(bg, a, d, rec))
		if r.P(0.6) {
			s.useGrp(rec, r)
		} else {
			h.held = append(h.held, x)
		}
	case 5:
		rec, ok, err := h.grp.Load(bg, a, d)
		ck("loading sender keys", err)
		if !ok || rec == nil {
			break
		}
		if r.P(0.3) {
			h.held = append(h.held, heldGrp(rec, s.chainIDs()))
			break
		}
		s.useGrp(rec, r)
		if r.P(0.5) {
			h.mGrp[grpKey{a, d}] = heldGrp(rec, s.chainIDs())
			ck("storing sender keys", h.grp.Store(bg, a, d, rec))
		}
	case 6:
		k, _ := key()
		ck("storing a pre-key", h.pk.Store(bg, id, prekey.NewPreKey(id, libKeyPair(k))))
		h.mPk[id] = hx(k.Pub)
	case 7:
		ck("deleting a pre-key", h.pk.Delete(bg, id))
		delete(h.mPk, id)
	case 8:
		k, _ := key()
		ck("storing a signed pre-key", h.spk.Store(bg, id, prekey.NewSigned(id, r.U64(), libKeyPair(k), r.Bytes(64))))
		h.mSpk[id] = hx(k.Pub)
	case 9, 10:
		k, x := key()
		over, err := h.id.Store(bg, a, x)
		ck("storing an identity key", err)
		if old, had := h.mID[a]; over != (had && old != hx(k.Pub)) {
			s.misplaced("storing an identity key reports overwritten=%v (had one: %v, the same one: %v)", over, had, old == hx(k.Pub))
		}
		h.mID[a] = hx(k.Pub)
	case 11, 12:
		k, x := key()
		dir := direction.Direction(direction.Sending)
		if r.P(0.5) {
			dir = direction.Receiving
		}
		ok, err := h.id.IsTrustedIdentity(bg, a, x, dir)
		ck("asking for trust", err)
		if old, had := h.mID[a]; ok != (!had || old == hx(k.Pub)) {
			s.misplaced("an identity key is trusted: %v (had one: %v, the same one: %v)", ok, had, old == hx(k.Pub))
		}
	default:
		if r.P(0.2) {
			ck("clearing", h.id.Clear())
			h.mID = map[address.Address]string{}
		} else {
			s.shelfAll(h)
		}
	}
	if len(h.held) > 30 {
		h.held = h.held[10:]
	}
}

// shelfAll compares all that a set of stores has with what was put there.
func (s *Sim) shelfAll(h *shelf) {
	for _, a := range trickyAddrs {
		rec, ok, err := h.sess.Load(bg, a)
		want, has := h.mSess[a]
		if err != nil || ok != has {
			s.misplaced("a session for %v is there: %v, expected %v (%v)", a, ok, has, err)
		}
		if ok && saysSess(rec) != want {
			s.misplaced("the session for %v is not the one stored last", a)
		}
		for _, d := range s.dists {
			rec, ok, err := h.grp.Load(bg, a, d)
			want, has := h.mGrp[grpKey{a, d}]
			if err != nil || ok != has {
				s.misplaced("sender keys for %v, %v are there: %v, expected %v (%v)", a, d, ok, has, err)
			}
			if ok && saysGrp(rec, want.chains) != want.says {
				s.misplaced("the sender keys for %v, %v are not those stored last", a, d)
			}
		}
		k, ok, err := h.id.Load(bg, a)
		want, has = h.mID[a]
		if err != nil || ok != has || ok && hx(k.Bytes()) != want {
			s.misplaced("the identity key for %v is not the one stored last (there: %v, expected %v, %v)", a, ok, has, err)
		}
	}
	for _, id := range shelfIDs {
		k, ok, err := h.pk.Load(bg, id)
		want, has := h.mPk[id]
		if err != nil || ok != has {
			s.misplaced("pre-key %d is there: %v, expected %v (%v)", id, ok, has, err)
		}
		if ok {
			if kp, err := k.KeyPair(); err != nil || hx(kp.PublicKey().Bytes()) != want {
				s.misplaced("pre-key %d is not the one stored last", id)
			}
		}
		sk, ok, err := h.spk.Load(bg, id)
		want, has = h.mSpk[id]
		if err != nil || ok != has {
			s.misplaced("signed pre-key %d is there: %v, expected %v (%v)", id, ok, has, err)
		}
		if ok {
			if kp, err := sk.KeyPair(); err != nil || hx(kp.PublicKey().Bytes()) != want {
				s.misplaced("signed pre-key %d is not the one stored last", id)
			}
		}
	}
	if kp := h.id.KeyPair(bg); hx(kp.IdentityKey().Bytes()) != hx(h.own.Pub) || hx(kp.PrivateKey().Bytes()) != hx(h.own.Priv) || h.id.LocalRegistrationID(bg) != h.reg {
		s.misplaced("the own identity or registration ID changed")
	}
	for _, x := range h.held {
		says := ""
		switch rec := x.rec.(type) {
		case *session.Record:
			says = saysSess(rec)
		case *session.GroupRecord:
			says = saysGrp(rec, x.chains)
		}
		if says != x.says {
			s.misplaced("a record in the hands of the application changed when the store was used")
		}
	}
	s.probe("contents of supplied stores compared")
}
