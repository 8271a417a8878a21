package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"sort"

	"google.golang.org/protobuf/proto"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/distribution"
	v1 "github.com/RTann/libsignal-go/protocol/generated/v1"
	"github.com/RTann/libsignal-go/protocol/identity"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/perrors"
	"github.com/RTann/libsignal-go/protocol/prekey"
	"github.com/RTann/libsignal-go/protocol/session"
)

// Bundle is what a party publishes for others to contact it.
type Bundle struct {
	Reg     uint32
	Otpk    *uint32
	OtpkPub []byte
	Spk     uint32
	SpkPub  []byte
	Sig     []byte
	Ident   []byte
}

// Node is one device: a party using the library or the reference implementation.
type Node struct {
	idx   int
	addr  address.Address
	ident refKey
	reg   uint32
	epoch int
	lib   *LibNode
	ref   *refParty

	spks   []uint32 // ids, newest last
	spkKey map[uint32]refKey
	spkSig map[uint32][]byte
	otpks  []uint32 // all ids ever made in this epoch
	otKey  map[uint32]refKey
	handed []uint32 // ids handed out
	nextID uint32

	// Model.
	convs    map[int]*MConv
	pins     map[int]string
	block    map[int]int // bits: what the application does not trust a peer's identity for
	otHave   map[uint32]bool
	gconvs   map[[2]int]*GConv // sender, dist
	secrets  map[[32]byte]string
	sessSeen map[string]bool
	dig      map[string]uint64 // digests of everything stored, as of the last operation
}

// LibNode runs the library under test on top of durable storage.
type LibNode struct {
	sim  *Sim
	node *Node
	D    *Durable
	sess map[int]*session.Session

	gsess map[[2]int]*session.GroupSession

	policy bool // a copy to which the application's blocks apply
}

func libKeyPair(k refKey) *curve.KeyPair {
	return keyPairFrom(append([]byte(nil), k.Priv...), append([]byte(nil), k.Pub...))
}

func keyPairFrom(priv, pub []byte) *curve.KeyPair {
	kp, err := curve.NewKeyPair(priv, pub)
	if err != nil {
		panic(err)
	}
	return kp
}

func libIdentity(k refKey) identity.KeyPair {
	id, err := identity.NewKey(append([]byte(nil), k.Pub...))
	if err != nil {
		panic(err)
	}
	return identity.NewKeyPair(libKeyPair(k).PrivateKey(), id)
}

// buf returns a copy of data to hand to the library, in a buffer of the caller
// which is overwritten after the operation in runs that do so.
func (s *Sim) buf(data []byte) []byte {
	b := append([]byte(nil), data...)
	if s.cfg.Scribble {
		s.scrib = append(s.scrib, func() { overwrite(b) })
	}
	return b
}

func overwrite(b []byte) {
	for i := range b {
		b[i] = b[i]*7 + 0x5d
	}
}

// keyPair and identityPair are as libKeyPair and libIdentity, from buffers of the
// caller.
func (s *Sim) keyPair(k refKey) *curve.KeyPair { return keyPairFrom(s.buf(k.Priv), s.buf(k.Pub)) }

func (s *Sim) identityPair(k refKey) identity.KeyPair {
	id, err := identity.NewKey(s.buf(k.Pub))
	if err != nil {
		panic(err)
	}
	return identity.NewKeyPair(s.keyPair(k).PrivateKey(), id)
}

var bg = context.Background()

func (n *LibNode) session(peer int) *session.Session {
	if n.sim.cfg.Reuse {
		if s := n.sess[peer]; s != nil {
			return s
		}
	}
	s := &session.Session{
		RemoteAddress:     n.sim.nodes[peer].addr,
		SessionStore:      wSess{n},
		PreKeyStore:       wPk{n},
		SignedPreKeyStore: wSpk{n},
		IdentityKeyStore:  wID{n},
	}
	n.sess[peer] = s
	return s
}

func (n *LibNode) restart() { n.sess, n.gsess = map[int]*session.Session{}, nil }

// arena places data into a larger buffer, so that writes next to it are seen.
type arena struct {
	buf  []byte
	orig []byte
	off  int
	n    int
}

func (s *Sim) arena(data []byte, seed uint64) *arena {
	if !s.cfg.Arena {
		b := append([]byte(nil), data...)
		return &arena{buf: b, orig: append([]byte(nil), b...), n: len(b)}
	}
	r := NewRng(seed)
	off := r.N(40)
	buf := r.Bytes(off + len(data) + 8 + r.N(64))
	copy(buf[off:], data)
	return &arena{buf: buf, orig: append([]byte(nil), buf...), off: off, n: len(data)}
}

func (a *arena) slice() []byte { return a.buf[a.off : a.off+a.n] }

// intact reports whether the buffer still holds what it held.
func (a *arena) intact() bool { return bytes.Equal(a.buf, a.orig) }

// scribble overwrites buffers handed to or returned by the library, once the
// operation is over and the state was looked at.
func (n *LibNode) scribble(bs ...[]byte) {
	if !n.sim.cfg.Scribble {
		return
	}
	n.sim.scrib = append(n.sim.scrib, func() {
		for _, b := range bs {
			overwrite(b)
		}
	})
}

// scribbleLoaded overwrites what the library returns for stored items.
func (n *LibNode) scribbleLoaded() {
	if !n.sim.cfg.Scribble || n.sim.step%16 != 0 {
		return
	}
	own := n.D.id.KeyPair(bg)
	for _, b := range [][]byte{own.PrivateKey().Bytes(), own.PublicKey().Bytes(), own.PublicKey().KeyBytes(), own.IdentityKey().Bytes()} {
		overwrite(b)
	}
	for i, p := range n.sim.nodes {
		if k, ok, err := n.D.id.Load(bg, p.addr); err == nil && ok {
			overwrite(k.Bytes())
			overwrite(k.PublicKey().Bytes())
			overwrite(k.PublicKey().KeyBytes())
		}
		if r := n.record(i); r != nil && r.State() != nil {
			st := r.State()
			overwrite(st.AliceBaseKey())
			if k, err := st.RootKey(); err == nil {
				overwrite(k.Bytes())
			}
			if k, err := st.SenderChainKey(); err == nil {
				overwrite(k.Key())
			}
			if k, err := st.SenderRatchetKey(); err == nil {
				overwrite(k.Bytes())
			}
			if k, err := st.SenderRatchetPrivateKey(); err == nil {
				overwrite(k.Bytes())
			}
			overwrite(st.Bytes())
		}
		for d := range n.sim.dists {
			if r := n.groupRecord(i, d); r != nil {
				if st, err := r.State(); err == nil {
					overwrite(st.SenderChainKey().Seed())
					if k, err := st.PublicSigningKey(); err == nil {
						overwrite(k.Bytes())
					}
				}
			}
		}
	}
	pairs := func(k *curve.KeyPair, err error) {
		if err == nil {
			overwrite(k.PublicKey().Bytes())
			overwrite(k.PublicKey().KeyBytes())
			overwrite(k.PrivateKey().Bytes())
		}
	}
	for _, id := range n.node.otpks {
		if k, ok, err := n.D.pk.Load(bg, prekey.ID(id)); err == nil && ok {
			pairs(k.KeyPair())
		}
	}
	for _, id := range n.node.spks {
		if k, ok, err := n.D.spk.Load(bg, prekey.ID(id)); err == nil && ok {
			pairs(k.KeyPair())
		}
	}
}

func (n *LibNode) processBundle(peer int, b *Bundle) error {
	id, err := identity.NewKey(n.sim.buf(b.Ident))
	if err != nil {
		return err
	}
	spk, err := curve.NewPublicKey(n.sim.buf(b.SpkPub))
	if err != nil {
		return err
	}
	sig := append([]byte(nil), b.Sig...)
	lb := &prekey.Bundle{RegistrationID: b.Reg, DeviceID: n.sim.nodes[peer].addr.DeviceID, SignedPreKeyID: prekey.ID(b.Spk),
		SignedPreKeyPublic: spk, SignedPreKeySignature: sig, IdentityKey: id}
	var pid prekey.ID
	if b.Otpk != nil {
		pid = prekey.ID(*b.Otpk)
		lb.PreKeyID = &pid
		lb.PreKeyPublic, err = curve.NewPublicKey(n.sim.buf(b.OtpkPub))
		if err != nil {
			return err
		}
	}
	err = n.session(peer).ProcessPreKeyBundle(bg, n.sim.random(), lb)
	n.tell("ProcessPreKeyBundle", peer, err)
	n.scribble(sig)
	return err
}

func (n *LibNode) encrypt(peer int, pt []byte, seed uint64) (wire []byte, pre bool, intact bool, err error) {
	a := n.sim.arena(pt, seed)
	mac, from, to, ctr := n.sendKeys(peer)
	msg, err := n.session(peer).EncryptMessage(bg, a.slice())
	n.tell("EncryptMessage", peer, err)
	intact = a.intact()
	n.scribble(a.buf)
	if err != nil {
		return nil, false, intact, err
	}
	if msg == nil {
		return nil, false, intact, errors.New("no message and no error")
	}
	wire = append([]byte(nil), msg.Bytes()...)
	pre = msg.Type() == message.PreKeyType
	if sm, ok := parseSignal(innerOf(pre, wire)); !ok || sm.Ctr != ctr {
		mac = nil // somebody else sent in between
	}
	n.sim.sawMade(msg, wire, mac, from, to)
	n.sim.keep(wire, msg)
	if pm, ok := msg.(*message.PreKey); ok && n.sim.cfg.Objects && pm.Message() != nil {
		n.sim.keep(pm.Message().Bytes(), pm.Message())
	}
	n.returned(msg.Bytes(), "a message", "C18", "C01")
	n.scribble(msg.Bytes())
	return wire, pre, intact, nil
}

// keep remembers a message as returned by the library. Runs with Objects deliver
// it itself, as an application could that does not go through bytes.
func (s *Sim) keep(wire []byte, msg any) {
	if s.cfg.Objects {
		s.objs[string(wire)] = msg
	}
}

var errParse = errors.New("does not parse")

func parseCiphertext(pre bool, b []byte) (message.Ciphertext, error) {
	if pre {
		return message.NewPreKeyFromBytes(b)
	}
	return message.NewSignalFromBytes(b)
}

func (n *LibNode) decrypt(peer int, pre bool, wire []byte, seed uint64) (pt []byte, intact bool, err error) {
	if n.sim.selfJump(n, pre, wire) {
		return nil, true, errSelfJump
	}
	n.sim.sawWire(wire)
	a := n.sim.arena(wire, seed)
	msg, err := parseCiphertext(pre, a.slice())
	if err != nil {
		return nil, a.intact(), fmt.Errorf("%w: %w", errParse, err)
	}
	if o, ok := n.sim.objs[string(wire)].(message.Ciphertext); ok && (o.Type() == message.PreKeyType) == pre {
		msg = o
	}
	used := n.sim.using(msg)
	out, err := n.session(peer).DecryptMessage(bg, n.sim.random(), msg)
	if pre {
		n.tell("DecryptMessage of an initial message", peer, err)
	} else {
		n.tell("DecryptMessage", peer, err)
	}
	used()
	intact = a.intact()
	if out != nil {
		pt = append([]byte{}, out...)
	}
	n.returned(out, "a plaintext", "C18", "C01")
	n.scribble(a.buf, out)
	return pt, intact, err
}

// returned remembers a buffer the library returned, unless this run overwrites
// those: nothing that happens later may change it.
func (n *LibNode) returned(b []byte, what string, props ...string) {
	s := n.sim
	if s.cfg.Scribble || len(b) == 0 {
		return
	}
	r := retBuf{b: b, want: append([]byte(nil), b...), what: what, step: s.step, props: props}
	if len(s.rets) < 32 {
		s.rets = append(s.rets, r)
	} else {
		s.rets[s.retN%32] = r
	}
	s.retN++
}

type retBuf struct {
	b, want []byte
	what    string
	step    int
	props   []string
}

// checkReturned compares the buffers returned earlier with what they held.
func (s *Sim) checkReturned(kind string) {
	for _, r := range s.rets {
		if !bytes.Equal(r.b, r.want) {
			s.fail("returned-buffer", fmt.Sprintf("%s returned in step %d was changed by %s later", r.what, r.step, kind), r.props...)
		}
	}
}

var errSelfJump = errors.New("not tried: a far jump in a session with oneself")

// selfJump tells messages that could make the library walk a chain of a session
// with oneself for hours: the library sets no limit for those, by design.
func (s *Sim) selfJump(n *LibNode, pre bool, wire []byte) bool {
	w := append([]byte(nil), wire...)
	self := s.shared
	var m *message.Signal
	if pre {
		msg, err := message.NewPreKeyFromBytes(w)
		if err != nil {
			return false
		}
		pm, ok := msg.(*message.PreKey)
		if !ok {
			return false
		}
		m = pm.Message()
		self = self || bytes.Equal(pm.IdentityKey().Bytes(), n.node.ident.Pub)
	} else {
		msg, err := message.NewSignalFromBytes(w)
		if err != nil {
			return false
		}
		m, _ = msg.(*message.Signal)
	}
	return self && m != nil && m.Counter() > 200000
}

func (n *LibNode) group(sender, dist int) *session.GroupSession {
	if n.sim.cfg.Reuse {
		if g := n.gsess[[2]int{sender, dist}]; g != nil {
			return g
		}
	}
	g := &session.GroupSession{SenderAddress: n.sim.nodes[sender].addr, DistID: n.sim.dists[dist], SenderKeyStore: wGrp{n}}
	if n.gsess == nil {
		n.gsess = map[[2]int]*session.GroupSession{}
	}
	n.gsess[[2]int{sender, dist}] = g
	return g
}

func (n *LibNode) gdist(dist int) ([]byte, error) {
	m, err := n.group(n.node.idx, dist).NewSenderKeyDistribution(bg, n.sim.random())
	n.tell("group NewSenderKeyDistribution", n.node.idx, err)
	if err != nil {
		return nil, err
	}
	if m == nil {
		return nil, errors.New("no message and no error")
	}
	w := append([]byte(nil), m.Bytes()...)
	n.sim.sawMade(m, w, nil, "", "")
	n.sim.keep(w, m)
	n.returned(m.Bytes(), "a distribution message", "C18", "C12")
	n.scribble(m.Bytes())
	n.scribble(m.ChainKey())
	return w, nil
}

func (n *LibNode) gproc(sender int, wire []byte, seed uint64) (bool, error) {
	n.sim.sawWire(wire)
	a := n.sim.arena(wire, seed)
	m, err := message.NewSenderKeyDistributionFromBytes(a.slice())
	if err != nil {
		return a.intact(), fmt.Errorf("%w: %w", errParse, err)
	}
	if o, ok := n.sim.objs[string(wire)].(*message.SenderKeyDistribution); ok {
		m = o
	}
	used := n.sim.using(m)
	err = n.group(sender, 0).ProcessSenderKeyDistribution(bg, m)
	n.tell("group ProcessSenderKeyDistribution", sender, err)
	used()
	ok := a.intact()
	n.scribble(a.buf)
	n.scribble(m.ChainKey())
	return ok, err
}

func (n *LibNode) gsend(dist int, pt []byte, seed uint64) (wire []byte, intact bool, err error) {
	a := n.sim.arena(pt, seed)
	m, err := n.group(n.node.idx, dist).EncryptMessage(bg, n.sim.random(), a.slice())
	n.tell("group EncryptMessage", n.node.idx, err)
	intact = a.intact()
	n.scribble(a.buf)
	if err != nil {
		return nil, intact, err
	}
	if m == nil {
		return nil, intact, errors.New("no message and no error")
	}
	wire = append([]byte(nil), m.Bytes()...)
	n.sim.sawMade(m, wire, nil, "", "")
	n.sim.keep(wire, m)
	n.returned(m.Bytes(), "a group message", "C18", "C12")
	n.scribble(m.Bytes())
	return wire, intact, nil
}

func (n *LibNode) grecv(sender int, wire []byte, seed uint64) (pt []byte, intact bool, err error) {
	n.sim.sawWire(wire)
	a := n.sim.arena(wire, seed)
	m, err := message.NewSenderKeyFromBytes(a.slice())
	if err != nil {
		return nil, a.intact(), fmt.Errorf("%w: %w", errParse, err)
	}
	if o, ok := n.sim.objs[string(wire)].(*message.SenderKey); ok {
		m = o
	}
	// The receiving side's own distribution ID is documented as unused.
	used := n.sim.using(m)
	out, err := n.group(sender, int(seed%uint64(len(n.sim.dists)))).DecryptMessage(bg, m)
	n.tell("group DecryptMessage", sender, err)
	used()
	intact = a.intact()
	if out != nil {
		pt = append([]byte{}, out...)
	}
	n.returned(out, "a plaintext", "C18", "C12")
	n.scribble(a.buf, out)
	return pt, intact, err
}

// --- inspection of durable state

func isDup(err error) bool {
	return errors.Is(err, perrors.ErrDuplicateMessage) || errors.Is(err, errDup)
}

func isUntrusted(err error) bool {
	for e := err; e != nil; e = errors.Unwrap(e) {
		if e == errUntrusted || perrors.IsErrUntrustedIdentity(e) {
			return true
		}
	}
	return false
}

func (n *LibNode) record(peer int) *session.Record {
	r, ok, err := n.D.sess.Load(bg, n.sim.nodes[peer].addr)
	if err != nil || !ok {
		return nil
	}
	return r
}

func (n *LibNode) groupRecord(sender, dist int) *session.GroupRecord {
	r, ok, err := n.D.grp.Load(bg, n.sim.nodes[sender].addr, n.sim.dists[dist])
	if err != nil || !ok {
		return nil
	}
	return r
}

func (n *LibNode) pin(peer int) string {
	k, ok, err := n.D.id.Load(bg, n.sim.nodes[peer].addr)
	if err != nil || !ok {
		return ""
	}
	return hx(k.Bytes())
}

func (n *LibNode) hasOtpk(id uint32) bool {
	_, ok, err := n.D.pk.Load(bg, prekey.ID(id))
	return err == nil && ok
}

// states returns the structures of all sessions of a record, the current one first.
func (n *LibNode) states(peer int) (cur *session.State, prev []*session.State) {
	r := n.record(peer)
	if r == nil {
		return nil, nil
	}
	prev, _ = r.PreviousStates()
	return r.State(), prev
}

func structOf(st *session.State) *v1.SessionStructure {
	ss := new(v1.SessionStructure)
	if err := proto.Unmarshal(st.Bytes(), ss); err != nil {
		return nil
	}
	return ss
}

// stateOf returns the stored state of the session with the given base key.
func (n *LibNode) stateOf(peer int, key string) *session.State {
	cur, prev := n.states(peer)
	if cur != nil && (hx(cur.AliceBaseKey()) == key || len(cur.AliceBaseKey()) == 0) {
		return cur
	}
	for _, p := range prev {
		if hx(p.AliceBaseKey()) == key {
			return p
		}
	}
	return nil
}

// digests returns a hash of every stored item.
func (n *LibNode) digests() map[string]uint64 {
	own := n.D.id.KeyPair(bg)
	out := map[string]uint64{"o": digest(struct {
		priv, pub, id []byte
		reg           uint32
	}{own.PrivateKey().Bytes(), own.PublicKey().Bytes(), own.IdentityKey().Bytes(), n.D.id.LocalRegistrationID(bg)})}
	for i, p := range n.sim.nodes {
		if r, ok, err := n.D.sess.Load(bg, p.addr); err == nil && ok {
			out[fmt.Sprintf("s:%d", i)] = digest(r)
		}
		if k, ok, err := n.D.id.Load(bg, p.addr); err == nil && ok {
			out[fmt.Sprintf("i:%d", i)] = digest(k.Bytes())
		}
		for d, id := range n.sim.dists {
			if r, ok, err := n.D.grp.Load(bg, p.addr, id); err == nil && ok {
				out[fmt.Sprintf("g:%d:%d", i, d)] = digest(r)
			}
		}
	}
	for _, id := range n.node.otpks {
		if k, ok, err := n.D.pk.Load(bg, prekey.ID(id)); err == nil && ok {
			out[fmt.Sprintf("p:%d", id)] = digest(k)
		}
	}
	for _, id := range n.node.spks {
		if k, ok, err := n.D.spk.Load(bg, prekey.ID(id)); err == nil && ok {
			out[fmt.Sprintf("k:%d", id)] = digest(k)
		}
	}
	return out
}

func diffKeys(a, b map[string]uint64) []string {
	var out []string
	for k, v := range a {
		if w, ok := b[k]; !ok || w != v {
			out = append(out, k)
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return out
}

// blobs calls f for every byte string stored under the given key (all if empty).
func (n *LibNode) blobs(f func(where string, b []byte)) {
	for i, p := range n.sim.nodes {
		if r, ok, err := n.D.sess.Load(bg, p.addr); err == nil && ok {
			walkAny(r, func(b []byte) { f(fmt.Sprintf("session record for node %d", i), b) }, nil)
		}
		for d, id := range n.sim.dists {
			if r, ok, err := n.D.grp.Load(bg, p.addr, id); err == nil && ok {
				walkAny(r, func(b []byte) { f(fmt.Sprintf("sender keys of node %d for group %d", i, d), b) }, nil)
			}
		}
	}
	for _, id := range n.node.otpks {
		if k, ok, err := n.D.pk.Load(bg, prekey.ID(id)); err == nil && ok {
			walkAny(k, func(b []byte) { f(fmt.Sprintf("one-time pre-key %d", id), b) }, nil)
		}
	}
}

// fork copies all durable state into an attacker's copy of the node.
func (n *LibNode) fork() *LibNode {
	f := &LibNode{sim: n.sim, node: n.node, sess: map[int]*session.Session{}}
	f.D = newDurable(storeSnap, libIdentity(n.node.ident), n.node.reg)
	for _, p := range n.sim.nodes {
		if r, ok, err := n.D.sess.Load(bg, p.addr); err == nil && ok {
			f.D.sess.Store(bg, p.addr, r)
		}
		if k, ok, err := n.D.id.Load(bg, p.addr); err == nil && ok {
			f.D.id.Store(bg, p.addr, k)
		}
		for _, id := range n.sim.dists {
			if r, ok, err := n.D.grp.Load(bg, p.addr, id); err == nil && ok {
				f.D.grp.Store(bg, p.addr, id, r)
			}
		}
	}
	for _, id := range n.node.otpks {
		if k, ok, err := n.D.pk.Load(bg, prekey.ID(id)); err == nil && ok {
			f.D.pk.Store(bg, prekey.ID(id), k)
		}
	}
	for _, id := range n.node.spks {
		if k, ok, err := n.D.spk.Load(bg, prekey.ID(id)); err == nil && ok {
			f.D.spk.Store(bg, prekey.ID(id), k)
		}
	}
	return f
}

func mustDist(s string) distribution.ID { return distribution.MustParse(s) }
