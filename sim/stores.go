package main

// Storage seam. Every store interface of the library is implemented by a
// wrapper which is the simulator's fault and scheduling point; behind it lies one
// of three kinds of durable storage: the library's own in-memory stores (real
// code), a store of deep copies, or a store of serialized sessions.

import (
	"context"
	"crypto/rand"
	"errors"
	"io"

	"google.golang.org/protobuf/proto"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/direction"
	"github.com/RTann/libsignal-go/protocol/distribution"
	v1 "github.com/RTann/libsignal-go/protocol/generated/v1"
	"github.com/RTann/libsignal-go/protocol/identity"
	"github.com/RTann/libsignal-go/protocol/prekey"
	protostore "github.com/RTann/libsignal-go/protocol/protocol"
	"github.com/RTann/libsignal-go/protocol/session"
)

const (
	storeRepo = 0 // the library's in-memory stores
	storeSnap = 1 // deep copies
	storeSer  = 2 // serialized sessions
)

var storeNames = []string{"inmem", "snapshot", "serialized"}

var errInjected = errors.New("injected I/O error")

type crashSignal struct{}

// Durable is what survives a crash of a node.
type Durable struct {
	mode int
	sess session.Store
	grp  session.GroupStore
	pk   prekey.Store
	spk  prekey.SignedStore
	id   identity.Store
}

func newDurable(mode int, kp identity.KeyPair, reg uint32) *Durable {
	if mode == storeRepo {
		st := protostore.NewInMemStore(kp, reg)
		return &Durable{mode: mode, sess: st.SessionStore(), grp: st.GroupStore(), pk: st.PreKeyStore(), spk: st.SignedPreKeyStore(), id: st.IdentityStore()}
	}
	d := &Durable{mode: mode,
		grp: &snapGrp{m: map[grpKey]*session.GroupRecord{}},
		pk:  &snapPk{m: map[prekey.ID]*prekey.PreKey{}},
		spk: &snapSpk{m: map[prekey.ID]*prekey.SignedPreKey{}},
		id:  &snapID{kp: kp, reg: reg, m: map[address.Address]identity.Key{}},
	}
	if mode == storeSer {
		d.sess = &serSess{m: map[address.Address]*serRec{}}
	} else {
		d.sess = &snapSess{m: map[address.Address]*session.Record{}}
	}
	return d
}

// --- deep-copying stores

type snapSess struct {
	m map[address.Address]*session.Record
}

func (s *snapSess) Load(_ context.Context, a address.Address) (*session.Record, bool, error) {
	r, ok := s.m[a]
	if !ok {
		return nil, false, nil
	}
	return deepCopy(r), true, nil
}

func (s *snapSess) Store(_ context.Context, a address.Address, r *session.Record) error {
	s.m[a] = deepCopy(r)
	return nil
}

// serSess keeps sessions the way an application with a database would: as the
// serialized current and archived states.
type serSess struct {
	m map[address.Address]*serRec
}

type serRec struct {
	cur  []byte
	prev [][]byte
}

func (s *serSess) Load(_ context.Context, a address.Address) (*session.Record, bool, error) {
	r, ok := s.m[a]
	if !ok {
		return nil, false, nil
	}
	rec := session.NewRecord(nil)
	for _, b := range r.prev {
		st := new(v1.SessionStructure)
		if err := proto.Unmarshal(b, st); err != nil {
			return nil, false, err
		}
		rec.PromoteState(session.NewState(st))
	}
	if len(r.prev) > 0 {
		rec.ArchiveCurrentState()
	}
	if r.cur != nil {
		cur, err := session.NewRecordBytes(r.cur)
		if err != nil {
			return nil, false, err
		}
		rec.SetSessionState(cur.State())
	}
	return rec, true, nil
}

func (s *serSess) Store(_ context.Context, a address.Address, r *session.Record) error {
	n := &serRec{}
	prev, err := r.PreviousStates()
	if err != nil {
		return err
	}
	for _, p := range prev {
		n.prev = append(n.prev, p.Bytes())
	}
	if st := r.State(); st != nil {
		n.cur = st.Bytes()
		if n.cur == nil {
			n.cur = []byte{}
		}
	}
	s.m[a] = n
	return nil
}

type grpKey struct {
	a address.Address
	d distribution.ID
}

type snapGrp struct {
	m map[grpKey]*session.GroupRecord
}

func (s *snapGrp) Load(_ context.Context, a address.Address, d distribution.ID) (*session.GroupRecord, bool, error) {
	r, ok := s.m[grpKey{a, d}]
	if !ok {
		return nil, false, nil
	}
	return deepCopy(r), true, nil
}

func (s *snapGrp) Store(_ context.Context, a address.Address, d distribution.ID, r *session.GroupRecord) error {
	s.m[grpKey{a, d}] = deepCopy(r)
	return nil
}

type snapPk struct {
	m map[prekey.ID]*prekey.PreKey
}

func (s *snapPk) Load(_ context.Context, id prekey.ID) (*prekey.PreKey, bool, error) {
	r, ok := s.m[id]
	if !ok {
		return nil, false, nil
	}
	return deepCopy(r), true, nil
}

func (s *snapPk) Store(_ context.Context, id prekey.ID, r *prekey.PreKey) error {
	s.m[id] = deepCopy(r)
	return nil
}

func (s *snapPk) Delete(_ context.Context, id prekey.ID) error {
	delete(s.m, id)
	return nil
}

type snapSpk struct {
	m map[prekey.ID]*prekey.SignedPreKey
}

func (s *snapSpk) Load(_ context.Context, id prekey.ID) (*prekey.SignedPreKey, bool, error) {
	r, ok := s.m[id]
	if !ok {
		return nil, false, nil
	}
	return deepCopy(r), true, nil
}

func (s *snapSpk) Store(_ context.Context, id prekey.ID, r *prekey.SignedPreKey) error {
	s.m[id] = deepCopy(r)
	return nil
}

type snapID struct {
	kp  identity.KeyPair
	reg uint32
	m   map[address.Address]identity.Key
}

func (s *snapID) KeyPair(context.Context) identity.KeyPair   { return s.kp }
func (s *snapID) LocalRegistrationID(context.Context) uint32 { return s.reg }
func (s *snapID) Clear() error                               { s.m = map[address.Address]identity.Key{}; return nil }
func (s *snapID) Load(_ context.Context, a address.Address) (identity.Key, bool, error) {
	k, ok := s.m[a]
	if !ok {
		return identity.Key{}, false, nil
	}
	return deepCopy(k), true, nil
}

func (s *snapID) Store(_ context.Context, a address.Address, k identity.Key) (bool, error) {
	old, ok := s.m[a]
	s.m[a] = deepCopy(k)
	return ok && hx(old.Bytes()) != hx(k.Bytes()), nil
}

func (s *snapID) IsTrustedIdentity(_ context.Context, a address.Address, k identity.Key, _ direction.Direction) (bool, error) {
	old, ok := s.m[a]
	return !ok || hx(old.Bytes()) == hx(k.Bytes()), nil
}

// --- faults

// Fault kinds. K is the index of the store call (or read of randomness) within the operation.
const (
	fErrBefore   = "err_before"   // the call fails without effect
	fErrAfter    = "err_after"    // the call takes effect and reports failure
	fCrashBefore = "crash_before" // the node dies before the call
	fCrashAfter  = "crash_after"  // the node dies after the call took effect
	fCrashRnd    = "crash_rnd"    // the node dies at the K-th read of randomness
	fCancel      = "cancel"       // the call reports a cancelled context
	fRndErr      = "rnd_err"      // randomness fails from this read on
	fRndEOF      = "rnd_eof"      // randomness ends after K bytes
	fRndChunk    = "rnd_chunk"    // randomness arrives in pieces of 1..K bytes
	fRndStuck    = "rnd_stuck"    // randomness repeats (K selects the constant stream)
)

type Fault struct {
	Kind string `json:"kind"`
	K    int    `json:"k"`
}

// OpCtx is one operation in flight.
type OpCtx struct {
	node    *LibNode
	calls   int // store calls so far
	reads   int // reads of randomness so far
	faults  []Fault
	fired   []string // "kind@site"
	firedIO bool     // a store fault or crash fired
	rndBad  bool     // randomness failed at some point (sticky)
	rng     *Rng
	rndN    int // bytes delivered
	draws   [][]byte
	applied map[string]int
	trace   []string
	yield   func()
	told    []told
	ioErrs  []error // errors the stores reported
	nilRnd  bool    // no source is passed to the library
}

func newOpCtx(n *LibNode, seed uint64, faults []Fault) *OpCtx {
	return &OpCtx{nilRnd: sub(seed, 97)%6 == 0, node: n, faults: faults, rng: NewRng(seed), applied: map[string]int{}}
}

// enter is called at every store call; it decides what goes wrong there.
func (s *Sim) enter(site string, mutates bool) (before error, after error, crashAfter bool) {
	op := s.cur
	if op == nil {
		return nil, nil, false
	}
	k := op.calls
	op.calls++
	s.stats.Calls++
	if op.yield != nil {
		op.yield()
	}
	op.trace = append(op.trace, site)
	for _, f := range op.faults {
		if f.K != k {
			continue
		}
		switch f.Kind {
		case fErrBefore:
			s.fire(op, f.Kind, site)
			op.ioErrs = append(op.ioErrs, errInjected)
			return errInjected, nil, false
		case fCancel:
			s.fire(op, f.Kind, site)
			op.ioErrs = append(op.ioErrs, context.Canceled)
			return context.Canceled, nil, false
		case fErrAfter:
			s.fire(op, f.Kind, site)
			op.ioErrs = append(op.ioErrs, errInjected)
			if !mutates {
				return errInjected, nil, false
			}
			return nil, errInjected, false
		case fCrashBefore:
			s.fire(op, f.Kind, site)
			panic(crashSignal{})
		case fCrashAfter:
			s.fire(op, f.Kind, site)
			return nil, nil, true
		}
	}
	return nil, nil, false
}

func (s *Sim) fire(op *OpCtx, kind, site string) {
	op.fired = append(op.fired, kind+"@"+site)
	op.firedIO = true
	s.stats.Faults[kind+"@"+site]++
}

func (s *Sim) done(site string, after error, crashAfter bool) error {
	if op := s.cur; op != nil {
		op.applied[site]++
	}
	if crashAfter {
		panic(crashSignal{})
	}
	return after
}

// --- wrappers

type wSess struct{ n *LibNode }

func (w wSess) Load(ctx context.Context, a address.Address) (*session.Record, bool, error) {
	before, _, ca := w.n.sim.enter("sess.Load", false)
	if before != nil {
		return nil, false, before
	}
	r, ok, err := w.n.D.sess.Load(ctx, a)
	if ca {
		panic(crashSignal{})
	}
	return r, ok, err
}

func (w wSess) Store(ctx context.Context, a address.Address, r *session.Record) error {
	before, after, ca := w.n.sim.enter("sess.Store", true)
	if before != nil {
		return before
	}
	if err := w.n.D.sess.Store(ctx, a, r); err != nil {
		return err
	}
	return w.n.sim.done("sess.Store", after, ca)
}

type wGrp struct{ n *LibNode }

func (w wGrp) Load(ctx context.Context, a address.Address, d distribution.ID) (*session.GroupRecord, bool, error) {
	before, _, ca := w.n.sim.enter("grp.Load", false)
	if before != nil {
		return nil, false, before
	}
	r, ok, err := w.n.D.grp.Load(ctx, a, d)
	if ca {
		panic(crashSignal{})
	}
	return r, ok, err
}

func (w wGrp) Store(ctx context.Context, a address.Address, d distribution.ID, r *session.GroupRecord) error {
	before, after, ca := w.n.sim.enter("grp.Store", true)
	if before != nil {
		return before
	}
	if err := w.n.D.grp.Store(ctx, a, d, r); err != nil {
		return err
	}
	return w.n.sim.done("grp.Store", after, ca)
}

type wPk struct{ n *LibNode }

func (w wPk) Load(ctx context.Context, id prekey.ID) (*prekey.PreKey, bool, error) {
	before, _, ca := w.n.sim.enter("pk.Load", false)
	if before != nil {
		return nil, false, before
	}
	r, ok, err := w.n.D.pk.Load(ctx, id)
	if ca {
		panic(crashSignal{})
	}
	return r, ok, err
}

func (w wPk) Store(ctx context.Context, id prekey.ID, p *prekey.PreKey) error {
	before, after, ca := w.n.sim.enter("pk.Store", true)
	if before != nil {
		return before
	}
	if err := w.n.D.pk.Store(ctx, id, p); err != nil {
		return err
	}
	return w.n.sim.done("pk.Store", after, ca)
}

func (w wPk) Delete(ctx context.Context, id prekey.ID) error {
	before, after, ca := w.n.sim.enter("pk.Delete", true)
	if before != nil {
		return before
	}
	if err := w.n.D.pk.Delete(ctx, id); err != nil {
		return err
	}
	return w.n.sim.done("pk.Delete", after, ca)
}

type wSpk struct{ n *LibNode }

func (w wSpk) Load(ctx context.Context, id prekey.ID) (*prekey.SignedPreKey, bool, error) {
	before, _, ca := w.n.sim.enter("spk.Load", false)
	if before != nil {
		return nil, false, before
	}
	r, ok, err := w.n.D.spk.Load(ctx, id)
	if ca {
		panic(crashSignal{})
	}
	return r, ok, err
}

func (w wSpk) Store(ctx context.Context, id prekey.ID, p *prekey.SignedPreKey) error {
	before, after, ca := w.n.sim.enter("spk.Store", true)
	if before != nil {
		return before
	}
	if err := w.n.D.spk.Store(ctx, id, p); err != nil {
		return err
	}
	return w.n.sim.done("spk.Store", after, ca)
}

// wID adds a policy to the identity store, which the library asks with the
// direction an identity is to be trusted for: the application may have blocked an
// address for sending, receiving or both.
type wID struct{ n *LibNode }

const (
	blockSend = 1
	blockRecv = 2
)

func (n *Node) blocked(peer int, sending bool) bool {
	if sending {
		return n.block[peer]&blockSend != 0
	}
	return n.block[peer]&blockRecv != 0
}

func (w wID) KeyPair(ctx context.Context) identity.KeyPair { return w.n.D.id.KeyPair(ctx) }
func (w wID) LocalRegistrationID(ctx context.Context) uint32 {
	return w.n.D.id.LocalRegistrationID(ctx)
}
func (w wID) Clear() error { return w.n.D.id.Clear() }

func (w wID) Load(ctx context.Context, a address.Address) (identity.Key, bool, error) {
	before, _, ca := w.n.sim.enter("id.Load", false)
	if before != nil {
		return identity.Key{}, false, before
	}
	k, ok, err := w.n.D.id.Load(ctx, a)
	if ca {
		panic(crashSignal{})
	}
	return k, ok, err
}

func (w wID) Store(ctx context.Context, a address.Address, k identity.Key) (bool, error) {
	before, after, ca := w.n.sim.enter("id.Store", true)
	if before != nil {
		return false, before
	}
	o, err := w.n.D.id.Store(ctx, a, k)
	if err != nil {
		return false, err
	}
	return o, w.n.sim.done("id.Store", after, ca)
}

func (w wID) IsTrustedIdentity(ctx context.Context, a address.Address, k identity.Key, d direction.Direction) (bool, error) {
	before, _, ca := w.n.sim.enter("id.IsTrusted", false)
	if before != nil {
		// What a store returns next to an error means nothing.
		return w.n.sim.junkTrust, before
	}
	ok, err := w.n.D.id.IsTrustedIdentity(ctx, a, k, d)
	if ca {
		panic(crashSignal{})
	}
	if w.n == w.n.node.lib || w.n.policy {
		for i, p := range w.n.sim.nodes {
			if p.addr == a && w.n.node.blocked(i, d == direction.Sending) {
				w.n.sim.probe("identity not trusted in one direction")
				return false, err
			}
		}
	}
	return ok, err
}

// --- randomness

// simRand is the random source of every operation and replaces crypto/rand.Reader.
type simRand struct{ s *Sim }

func (r simRand) Read(p []byte) (int, error) {
	s := r.s
	op := s.cur
	if op == nil {
		s.setup.Fill(p)
		return len(p), nil
	}
	if len(p) == 0 {
		return 0, nil
	}
	k := op.reads
	op.reads++
	s.stats.Calls++
	if op.yield != nil {
		op.yield()
	}
	op.trace = append(op.trace, "rnd.Read")
	if op.rndBad {
		return 0, errInjected
	}
	n := len(p)
	for _, f := range op.faults {
		switch f.Kind {
		case fRndErr:
			if f.K <= k {
				op.rndBad = true
				s.fire(op, f.Kind, "rnd.Read")
				// A failing source may have delivered a part.
				if m := int(op.rng.N(n + 1)); m < n {
					op.rng.Fill(p[:m])
					return m, errInjected
				}
				return 0, errInjected
			}
		case fRndEOF:
			if op.rndN+n > f.K {
				n = f.K - op.rndN
				s.fire(op, f.Kind, "rnd.Read")
				if n <= 0 {
					op.rndBad = true
					return 0, io.EOF
				}
			}
		case fRndChunk:
			if f.K > 0 && n > f.K {
				n = 1 + op.rng.N(f.K)
				s.stats.Faults["rnd_chunk@rnd.Read"]++
			}
		case fCrashRnd:
			if f.K == k {
				s.fire(op, f.Kind, "rnd.Read")
				panic(crashSignal{})
			}
		}
	}
	stuck := false
	for _, f := range op.faults {
		if f.Kind == fRndStuck {
			stuck = true
			x := NewRng(uint64(f.K))
			x.Fill(p[:n])
			s.stats.Faults["rnd_stuck@rnd.Read"]++
		}
	}
	if !stuck {
		op.rng.Fill(p[:n])
	}
	op.rndN += n
	op.draws = append(op.draws, append([]byte(nil), p[:n]...))
	return n, nil
}

// random is the source handed to the library: now and then none, which means
// crypto/rand.Reader, which is the same simulated source.
func (s *Sim) random() io.Reader {
	if s.cur != nil && s.cur.nilRnd {
		s.stats.Faults["rnd_none@call"]++
		return nil
	}
	return simRand{s}
}

func (s *Sim) installRand() { rand.Reader = simRand{s} }
