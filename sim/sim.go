package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/distribution"
	v1 "github.com/RTann/libsignal-go/protocol/generated/v1"
	"github.com/RTann/libsignal-go/protocol/prekey"
	"github.com/RTann/libsignal-go/protocol/session"
)

// Config is everything about a run besides its operations.
type Config struct {
	Seed     uint64    `json:"seed"`
	Nodes    []NodeCfg `json:"nodes"`
	Dists    []string  `json:"dists"`
	Arena    bool      `json:"arena,omitempty"`    // inputs lie inside larger buffers
	Scribble bool      `json:"scribble,omitempty"` // buffers are overwritten after each operation
	Reuse    bool      `json:"reuse,omitempty"`    // Session values are kept until a restart
	Objects  bool      `json:"objects,omitempty"`  // messages are delivered as the values the library returned
	Junk     bool      `json:"junk,omitempty"`     // values returned next to errors
	Secrets  bool      `json:"secrets,omitempty"`  // search stored state for used-up keys
	Twins    bool      `json:"twins,omitempty"`    // repeat operations on copies with other randomness
	Messages bool      `json:"messages,omitempty"` // compare what messages report with their bytes
	Views    bool      `json:"views,omitempty"`    // compare what records report with the model
	Limits   bool      `json:"limits,omitempty"`   // count everything stored after each operation
}

type NodeCfg struct {
	Name  string `json:"name"`
	Dev   uint32 `json:"dev"`
	Ident int    `json:"ident"` // nodes with equal Ident share the identity key
	Reg   uint32 `json:"reg"`
	Mode  int    `json:"mode"`
	Ref   bool   `json:"ref,omitempty"` // reference implementation instead of the library
	SpkID uint32 `json:"spk"`
	OtID  uint32 `json:"ot"`
	NOt   int    `json:"not"`
}

// Op is one step of a run. Pkt and Pkt2 name packets by the step that made them.
type Op struct {
	ID     int     `json:"id"`
	Kind   string  `json:"op"`
	Seed   uint64  `json:"seed"`
	N      int     `json:"n"`
	P      int     `json:"p"`
	D      int     `json:"d,omitempty"`
	K      int     `json:"k,omitempty"`
	Pkt    int     `json:"pkt,omitempty"`
	Pkt2   int     `json:"pkt2,omitempty"`
	Mut    string  `json:"mut,omitempty"`
	Inner  bool    `json:"inner,omitempty"`
	Faults []Fault `json:"faults,omitempty"`
	Par    []*Op   `json:"par,omitempty"`
}

func (o *Op) String() string {
	s := fmt.Sprintf("#%d %s n=%d p=%d", o.ID, o.Kind, o.N, o.P)
	if o.Kind[0] == 'g' {
		s += fmt.Sprintf(" d=%d", o.D)
	}
	if o.K != 0 {
		s += fmt.Sprintf(" k=%d", o.K)
	}
	if o.Pkt != 0 {
		s += fmt.Sprintf(" pkt=%d.%d", o.Pkt>>16, o.Pkt&0xffff)
	}
	if o.Pkt2 != 0 {
		s += fmt.Sprintf(" pkt2=%d.%d", o.Pkt2>>16, o.Pkt2&0xffff)
	}
	if o.Mut != "" {
		s += " mut=" + o.Mut
	}
	if o.Inner {
		s += " inner"
	}
	for _, f := range o.Faults {
		s += fmt.Sprintf(" !%s@%d", f.Kind, f.K)
	}
	for _, p := range o.Par {
		s += " {" + p.String() + "}"
	}
	return s
}

// Packet is a genuine ciphertext or distribution message on the network.
type Packet struct {
	ID    int
	From  int
	To    int
	ToEp  int // epoch of the recipient the bundle was taken from (session set-up) or at sending
	Group bool
	IsDst bool
	Pre   bool
	Wire  []byte
	Inner []byte
	Plain []byte
	Sess  string
	Rat   string
	Ctr   uint32
	Ident string // sender's identity in that session
	Otpk  *uint32
	Spk   uint32
	Reg   uint32
	Dist  int
	Chain uint32
	Sign  string
	Step  int
	Dep   string // ratchet key of the recipient the sending chain was derived from

	got    map[int]int // node -> step of the consuming operation
	sentBy *MSess
	fromEp int
}

func (q *Packet) consumed(n int) bool { _, ok := q.got[n]; return ok }

// Violation is a property found broken.
type Violation struct {
	Props  []string `json:"props"`
	Oracle string   `json:"oracle"`
	Detail string   `json:"detail"`
	OpID   int      `json:"op"`
}

func (v *Violation) has(p string) bool {
	for _, x := range v.Props {
		if x == p {
			return true
		}
	}
	return false
}

// Stats of runs.
type Stats struct {
	Runs     int            `json:"runs"`
	Ops      map[string]int `json:"ops"`
	Outcomes map[string]int `json:"outcomes"`
	Faults   map[string]int `json:"faults"`
	Probes   map[string]int `json:"probes"`
	Profiles map[string]int `json:"profiles"`
	Stores   map[string]int `json:"stores"`
	Calls    int            `json:"calls"`
	Crashes  int            `json:"crashes"`
	Steps    int            `json:"steps"`
	Real     int            `json:"real_operations"`
	RefOps   int            `json:"reference_operations"`

	states map[uint64]bool
	traces map[uint64]bool
}

func newStats() *Stats {
	return &Stats{Ops: map[string]int{}, Outcomes: map[string]int{}, Faults: map[string]int{}, Probes: map[string]int{},
		Profiles: map[string]int{}, Stores: map[string]int{}, states: map[uint64]bool{}, traces: map[uint64]bool{}}
}

// Sim is one run.
type Sim struct {
	hadSess  map[[2]string]bool
	over     bool      // the run ends here
	full     uint64    // everything observed: outcomes, stored state, messages
	saw      []seenMsg // messages of this operation
	keptMsgs []keptMsg
	shelves  []*shelf
	reading  bool // looking at messages
	shared   bool // two nodes have the same identity key

	cfg       Config
	nodes     []*Node
	dists     []distribution.ID
	cur       *OpCtx
	setup     *Rng
	stats     *Stats
	step      int
	junkTrust bool
	drain     int
	scrib     []func()
	rets      []retBuf // buffers returned by the library
	retN      int
	setupV    *Violation // found while setting up the nodes

	packets  []*Packet
	byID     map[int]*Packet
	byWire   map[string]*Packet // exact wire bytes -> packet
	byInner  map[string]*Packet // message inside an initial message -> packet
	alts     []*altRec          // signatures of alternate identities
	signPriv map[string][]byte  // private parts of the signing keys on the network
	signers  []signer
	viewing  bool              // stored records are asked what they report
	altHave  map[string]bool   // signer, key and signature of all that were made
	objs     map[string]any    // messages as returned by the library, by their bytes
	used     map[string]int    // ratchet key and counter, or sender key and iteration -> step
	blocks   map[string]int    // first ciphertext block of plaintexts starting with constBlock -> step
	nonces   map[string]string // signing key and signature nonce -> signed content
	rats     map[string]int    // ratchet keys seen on the wire -> generation step
	ratDep   map[string]string
	rejects  map[[2]int]int // node, peer -> rejected inputs so far
	faulted  map[int]int    // node -> operations in which a fault fired
	forks    []*Fork
	log      func(string)
	trace    uint64
	isPar    bool
	groupN   int // last generated key number
	hist     []string
}

const constBlock = "SIM-CONST-BLOCK!"

// fail stops the run with a violation of the given properties.
func (s *Sim) fail(oracle, detail string, props ...string) {
	seen := map[string]bool{}
	var out []string
	for _, p := range props {
		if p != "" && !seen[p] {
			seen[p] = true
			out = append(out, p)
		}
	}
	sort.Strings(out)
	panic(&Violation{Props: out, Oracle: oracle, Detail: detail, OpID: s.step})
}

// internalError is trouble of the simulator itself.
type internalError struct{ msg string }

func bug(format string, a ...any) { panic(internalError{fmt.Sprintf(format, a...)}) }

func (s *Sim) probe(name string) { s.stats.Probes[name]++ }

func newSim(cfg Config, stats *Stats) *Sim {
	s := &Sim{cfg: cfg, stats: stats, setup: NewRng(sub(cfg.Seed, 1)), junkTrust: cfg.Junk,
		altHave: map[string]bool{}, signPriv: map[string][]byte{}, objs: map[string]any{}, hadSess: map[[2]string]bool{}, byID: map[int]*Packet{}, byWire: map[string]*Packet{}, byInner: map[string]*Packet{}, used: map[string]int{}, blocks: map[string]int{},
		nonces: map[string]string{}, rats: map[string]int{}, ratDep: map[string]string{}, rejects: map[[2]int]int{}, faulted: map[int]int{}}
	s.installRand()
	for _, d := range cfg.Dists {
		s.dists = append(s.dists, mustDist(d))
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				v, ok := r.(*Violation)
				if !ok {
					panic(r)
				}
				s.setupV = v // reported by the first operation
			}
		}()
		s.installAll()
	}()
	return s
}

func (s *Sim) installAll() {
	cfg, stats := s.cfg, s.stats
	for i, nc := range cfg.Nodes {
		for _, o := range cfg.Nodes[:i] {
			if o.Ident == nc.Ident {
				s.shared = true
			}
		}
		n := &Node{idx: i, addr: address.Address{Name: nc.Name, DeviceID: address.DeviceID(nc.Dev)}}
		s.nodes = append(s.nodes, n)
		s.install(n, newRefKey(NewRng(sub(cfg.Seed, 2, uint64(nc.Ident))).Bytes(32)))
		if nc.Ref {
			stats.Stores["reference peer"]++
		} else {
			stats.Stores[storeNames[nc.Mode]]++
		}
	}
}

// install gives a node fresh stores and keys.
func (s *Sim) install(n *Node, ident refKey) {
	nc := s.cfg.Nodes[n.idx]
	n.ident = ident
	n.reg = nc.Reg
	if n.epoch > 0 { // a new installation has a new registration ID
		n.reg = uint32(sub(uint64(nc.Reg), 91, uint64(n.epoch))) % 16381
	}
	n.convs = map[int]*MConv{}
	n.pins = map[int]string{}
	n.block = map[int]int{}
	n.otHave = map[uint32]bool{}
	n.gconvs = map[[2]int]*GConv{}
	n.secrets = map[[32]byte]string{}
	n.spks, n.otpks, n.handed = nil, nil, nil
	n.spkKey, n.otKey, n.spkSig = map[uint32]refKey{}, map[uint32]refKey{}, map[uint32][]byte{}
	n.dig = map[string]uint64{}
	n.sessSeen = nil
	if nc.Ref {
		n.ref = newRefParty(ident, n.reg)
	} else {
		n.lib = &LibNode{sim: s, node: n, D: newDurable(nc.Mode, s.identityPair(ident), n.reg), sess: map[int]*session.Session{}}
	}
	s.newSpk(n, nc.SpkID+uint32(n.epoch))
	for i := 0; i < nc.NOt; i++ {
		s.newOtpk(n, nc.OtID+uint32(i))
	}
	if n.lib != nil {
		n.dig = n.lib.digests()
		s.overwriteBuffers(n, "setting up")
	}
}

func (s *Sim) newSpk(n *Node, id uint32) {
	k := newRefKey(s.setup.Bytes(32))
	var sig []byte
	if n.lib != nil {
		var err error
		sig, err = libIdentity(n.ident).PrivateKey().Sign(s.setupReader(), k.Pub)
		if err != nil {
			s.fail("sign", "signing a pre-key failed: "+err.Error(), "C10", "C19")
		}
		if !xeddsaVerify(n.ident.Pub, sig, k.Pub) {
			s.fail("sign-interop", "a signature of the library does not verify under XEdDSA", "C10", "C19")
		}
		if err := n.lib.D.spk.Store(bg, prekey.ID(id), prekey.NewSigned(prekey.ID(id), 1, s.keyPair(k), sig)); err != nil {
			bug("store: %v", err)
		}
	} else {
		sig = xeddsaSign(n.ident.Priv, s.setup.Bytes(64), k.Pub)
		n.ref.spk[id] = k
	}
	n.spks = append(n.spks, id)
	n.spkKey[id] = k
	n.spkSig[id] = sig
}

func (s *Sim) newOtpk(n *Node, id uint32) {
	k := newRefKey(s.setup.Bytes(32))
	if n.lib != nil {
		if err := n.lib.D.pk.Store(bg, prekey.ID(id), prekey.NewPreKey(prekey.ID(id), s.keyPair(k))); err != nil {
			bug("store: %v", err)
		}
	} else {
		n.ref.otpk[id] = k
	}
	n.otpks = append(n.otpks, id)
	n.otKey[id] = k
	n.otHave[id] = true
}

type setupReader struct{ r *Rng }

func (r setupReader) Read(p []byte) (int, error) { r.r.Fill(p); return len(p), nil }

func (s *Sim) setupReader() setupReader { return setupReader{s.setup} }

// --- tasks

// task is one operation of a node: prepared against the model, run against the
// real code, then judged.
type task struct {
	op      *Op
	n       *Node
	peer    int
	ctx     *OpCtx
	run     func()
	finish  func()
	mine    map[string]bool // stored items this operation may legitimately touch
	changed []string        // what it changed among them
	crashed bool
	panicV  string
	faulty  bool // a fault fired
	preCur  *v1.SessionStructure
	prePrev []*v1.SessionStructure
	preG    []*v1.SenderKeyStateStructure
}

func (t *task) did(prefix string) bool {
	for _, k := range t.changed {
		if strings.HasPrefix(k, prefix) {
			return true
		}
	}
	return false
}

func (s *Sim) guarded(t *task) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case crashSignal:
				t.crashed = true
			case *Violation, internalError:
				panic(r)
			default:
				st := strings.Split(string(debug.Stack()), "\n")
				where := ""
				for i, l := range st {
					if strings.Contains(l, "libsignal-go/protocol") && i+1 < len(st) {
						where = strings.TrimSpace(st[i+1])
						if j := strings.Index(where, " +"); j > 0 {
							where = where[:j]
						}
						break
					}
				}
				t.panicV = fmt.Sprintf("%v at %s", r, where)
			}
		}
	}()
	t.run()
}

// runTasks runs the tasks, interleaved at their store and randomness calls if
// there are several, then judges each.
func (s *Sim) runTasks(ts []*task, seed uint64) {
	s.isPar = len(ts) > 1
	if len(ts) == 1 {
		s.cur = ts[0].ctx
		s.guarded(ts[0])
		s.cur = nil
	} else {
		s.interleave(ts, seed)
	}
	n := ts[0].n
	crashed := false
	for _, t := range ts {
		if t.ctx != nil {
			t.faulty = t.ctx.firedIO
			if t.faulty {
				s.faulted[n.idx]++
			}
		}
		crashed = crashed || t.crashed
	}
	if crashed {
		s.stats.Crashes++
		n.lib.restart()
	}
	if n.lib != nil {
		after := n.lib.digests()
		changed := diffKeys(n.dig, after)
		n.dig = after
		for _, k := range changed {
			s.full = sub(s.full, strHash(k), after[k])
			owned := false
			for _, t := range ts {
				if t.mine[k] {
					t.changed = append(t.changed, k)
					owned = true
					break
				}
			}
			if !owned {
				t := ts[0]
				props := []string{"C18", "C04"}
				switch k[0] {
				case 'p', 'k':
					props = append(props, "C10")
				case 'i':
					props = append(props, "C09")
				case 's':
					props = append(props, "C01", "C11")
				case 'g':
					props = append(props, "C12")
				}
				s.fail("foreign-change", fmt.Sprintf("%s changed %s, which it has nothing to do with", t.op.Kind, n.describe(k)), props...)
			}
		}
		s.overwriteBuffers(n, ts[0].op.Kind)
		s.checkReturned(ts[0].op.Kind)
	}
	for _, t := range ts {
		if t.panicV != "" {
			props := []string{"C17"}
			if t.faulty {
				if t.op.Kind[0] == 'g' {
					props = append(props, "C15")
				} else {
					props = append(props, "C05")
				}
			}
			if t.ctx != nil && t.ctx.rndBad {
				props = append(props, "C20")
			}
			if s.isPar {
				props = append(props, "C18")
			}
			s.fail("panic", fmt.Sprintf("%s panicked: %s", t.op.Kind, t.panicV), props...)
		}
		t.finish()
		s.checkTold(t)
		n.touched(s, t)
	}
	s.isPar = false
}

// overwriteBuffers overwrites what was handed to or returned by the library during
// an operation, once the state was looked at.
func (s *Sim) overwriteBuffers(n *Node, what string) {
	if len(s.scrib) == 0 {
		return
	}
	for _, f := range s.scrib {
		f()
	}
	s.scrib = nil
	n.lib.scribbleLoaded()
	if d := diffKeys(n.dig, n.lib.digests()); len(d) > 0 {
		s.fail("aliasing", fmt.Sprintf("overwriting the buffers of %s afterwards changed %s", what, n.describe(d[0])), "C18", "C04")
	}
}

// describe names a stored item.
func (n *Node) describe(k string) string {
	switch k[0] {
	case 's':
		return "the session record for node " + k[2:]
	case 'i':
		return "the trusted identity of node " + k[2:]
	case 'g':
		return "the sender keys " + k[2:]
	case 'p':
		return "one-time pre-key " + k[2:]
	case 'k':
		return "signed pre-key " + k[2:]
	case 'o':
		return "the identity key pair"
	}
	return k
}

type resumeMsg struct{}

// interleave runs the tasks as coroutines: exactly one runs at any moment, and
// the seeded scheduler picks the next one at each store or randomness call.
func (s *Sim) interleave(ts []*task, seed uint64) {
	r := NewRng(seed)
	type co struct {
		t      *task
		resume chan resumeMsg
		done   bool
		fatal  any
	}
	back := make(chan *co)
	var cos []*co
	for _, t := range ts {
		c := &co{t: t, resume: make(chan resumeMsg)}
		cos = append(cos, c)
		if t.ctx != nil {
			t.ctx.yield = func() {
				back <- c
				<-c.resume
			}
		}
		go func() {
			<-c.resume
			defer func() {
				c.fatal = recover()
				c.done = true
				back <- c
			}()
			s.guarded(c.t)
		}()
	}
	live := append([]*co(nil), cos...)
	sw := 0
	var last *co
	for len(live) > 0 {
		i := r.N(len(live))
		c := live[i]
		if last != nil && c != last {
			sw++
		}
		last = c
		s.cur = c.t.ctx
		c.resume <- resumeMsg{}
		<-back
		if c.done {
			live = append(live[:i], live[i+1:]...)
		}
	}
	s.cur = nil
	s.stats.Probes["interleaving switches"] += sw
	for _, c := range cos {
		if c.t.ctx != nil {
			c.t.ctx.yield = nil
		}
		if c.fatal != nil {
			panic(c.fatal)
		}
	}
}

// exec runs one operation; it reports false if the operation does not apply in the
// present state (which happens while a failing run is being minimised).
func (s *Sim) exec(op *Op) (ok bool, v *Violation) {
	defer func() {
		s.cur = nil
		if r := recover(); r != nil {
			if vv, is := r.(*Violation); is {
				vv.OpID = op.ID
				v, ok = vv, true
				return
			}
			// The library was asked something outside of an operation, such as
			// what a record reports.
			if at := libPanic(r); at != "" {
				props := []string{"C17"}
				if s.viewing {
					props = []string{"C24", "C17"}
				}
				if s.reading {
					props = []string{"C25", "C17"}
				}
				v, ok = &Violation{Props: props, Oracle: "panic", Detail: fmt.Sprintf("reading what is stored panicked: %v at %s", r, at), OpID: op.ID}, true
				return
			}
			panic(r)
		}
	}()
	s.step = op.ID
	if v := s.setupV; v != nil {
		v.OpID = op.ID
		return true, v
	}
	s.scrib = nil
	s.stats.Steps++
	s.setup = NewRng(sub(op.Seed, 77))
	var ts []*task
	if op.Kind == "par" {
		seen := map[string]bool{}
		for i, o := range op.Par {
			o.ID = op.ID
			t := s.prepare(o, i)
			if t == nil || t.n.lib == nil || (len(ts) > 0 && t.n != ts[0].n) {
				continue
			}
			clash := false
			for k := range t.mine {
				clash = clash || seen[k]
			}
			if clash {
				continue
			}
			for k := range t.mine {
				seen[k] = true
			}
			ts = append(ts, t)
		}
		if len(ts) < 2 {
			return false, nil
		}
	} else {
		t := s.prepare(op, 0)
		if t == nil {
			return false, nil
		}
		if t.run == nil { // done already
			s.stats.Ops[op.Kind]++
			s.note(op.Kind, "done", 0)
			return true, nil
		}
		ts = []*task{t}
	}
	for _, t := range ts {
		s.stats.Ops[t.op.Kind]++
		if t.n.lib != nil {
			s.stats.Real++
		} else {
			s.stats.RefOps++
		}
	}
	s.runTasks(ts, op.Seed)
	if s.drain > 0 {
		drainGoroutines(s.drain)
		s.drain = 0
	}
	if s.cfg.Messages {
		s.reading = true
		s.viewMessages()
		s.reading = false
	}
	if s.cfg.Nodes != nil && s.step%16 == 0 {
		s.others(ts[0].n)
		if s.cfg.Views {
			s.viewing = true
			for _, n := range s.nodes {
				s.viewAll(n)
			}
			s.viewing = false
		}
	}
	return true, nil
}

// libPanic returns where in the library a panic began, if that is where it did.
func libPanic(r any) string {
	switch r.(type) {
	case internalError, stopRun, crashSignal:
		return ""
	}
	st := strings.Split(string(debug.Stack()), "\n")
	from := 0
	for i, l := range st {
		if strings.HasPrefix(l, "panic(") {
			from = i + 2
		}
	}
	for i := from; from > 0 && i+1 < len(st); i += 2 {
		if strings.HasPrefix(st[i], "runtime.") {
			continue
		}
		if !strings.Contains(st[i], "libsignal-go/protocol") {
			return ""
		}
		at, _, _ := strings.Cut(strings.TrimSpace(st[i+1]), " +")
		return at
	}
	return ""
}

// others checks that operations of one party do not change another party's state.
func (s *Sim) others(active *Node) {
	for _, n := range s.nodes {
		if n == active || n.lib == nil {
			continue
		}
		now := n.lib.digests()
		if d := diffKeys(n.dig, now); len(d) > 0 {
			s.fail("foreign-change", fmt.Sprintf("operations of other parties changed %s of node %d", n.describe(d[0]), n.idx), "C18")
		}
	}
}

// note records the outcome of an operation in the event log and in the coverage
// measures.
func (s *Sim) note(kind, outcome string, situation uint64) {
	s.stats.Outcomes[kind+":"+outcome]++
	h := sub(situation, strHash(kind), strHash(outcome))
	s.stats.states[h] = true
	s.trace = sub(s.trace, h)
	s.full = sub(s.full, h)
	if s.log != nil {
		s.log(fmt.Sprintf("  %d %s -> %s [%x]", s.step, kind, outcome, h&0xffffff))
	}
}

func strHash(x string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(x); i++ {
		h = (h ^ uint64(x[i])) * 1099511628211
	}
	return h
}

func (s *Sim) addPacket(op *Op, i int, q *Packet) *Packet {
	q.ID = op.ID<<16 | i<<8
	for s.byID[q.ID] != nil {
		q.ID++
	}
	q.Step = s.step
	q.got = map[int]int{}
	s.packets = append(s.packets, q)
	s.full = sub(s.full, strHash(string(q.Wire)))
	s.byID[q.ID] = q
	s.byWire[string(q.Wire)] = q
	return q
}

func okeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func set(ks ...string) map[string]bool {
	m := map[string]bool{}
	for _, k := range ks {
		m[k] = true
	}
	return m
}

func bucket(x int) uint64 {
	switch {
	case x < 4:
		return uint64(x)
	case x < 8:
		return 4
	case x < 32:
		return 5
	case x < 256:
		return 6
	case x < 2000:
		return 7
	case x < 25000:
		return 8
	}
	return 9
}

func short(s string) string {
	if len(s) > 16 {
		return s[:16] + ".."
	}
	return s
}

var debugf = func(string, ...any) {}

func init() {
	if os.Getenv("SIM_DEBUG") != "" {
		debugf = func(f string, a ...any) { fmt.Printf(f, a...) }
	}
}
