package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"strings"

	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/identity"
	"github.com/RTann/libsignal-go/protocol/message"
)

// What messages report about themselves (C25), against the independent parser of
// the wire format: every message the library makes, every input it is given and
// every piece of garbage is read as each kind of message. Messages read are kept
// for a while and asked again later.

type msgKind int

const (
	mkSignal msgKind = iota
	mkPre
	mkGroup
	mkDist
	mkPlain
	mkKinds
)

var msgNames = [mkKinds]string{"a regular message", "an initial message", "a group message", "a distribution message", "a plaintext message"}

// snap is what a message says.
type snap struct {
	Type    int
	Version byte
	Bytes   string
	Key     string // ratchet, base or signing key
	Ident   string
	Counter uint32 // counter, registration ID or iteration
	ID      uint32 // signed pre-key ID or chain ID
	Otpk    string
	Dist    string
	Body    string
	Inner   *snap
}

func (a snap) String() string {
	s := fmt.Sprintf("type %d version %d key %s identity %s counter %d id %d one-time %s distribution %s body %s (%d bytes)", a.Type, a.Version, short(a.Key), short(a.Ident), a.Counter, a.ID, a.Otpk, a.Dist, short(a.Body), len(a.Bytes)/2)
	if a.Inner != nil {
		s += " around " + a.Inner.String()
	}
	return s
}

func (a snap) equal(b snap) bool {
	x, y := a.Inner, b.Inner
	a.Inner, b.Inner = nil, nil
	return a == b && (x == nil) == (y == nil) && (x == nil || x.equal(*y))
}

// snapOf asks a message of the library.
func snapOf(msg any) (snap, bool) {
	switch m := msg.(type) {
	case *message.Signal:
		if m == nil {
			return snap{}, false
		}
		return snap{Type: int(m.Type()), Version: m.Version(), Bytes: hx(m.Bytes()), Key: hx(m.SenderRatchetKey().Bytes()), Counter: m.Counter(), Body: hx(m.Message())}, true
	case *message.PreKey:
		if m == nil {
			return snap{}, false
		}
		s := snap{Type: int(m.Type()), Version: m.Version(), Bytes: hx(m.Bytes()), Key: hx(m.BaseKey().Bytes()), Ident: hx(m.IdentityKey().Bytes()), Counter: m.RegistrationID(), ID: uint32(m.SignedPreKeyID()), Otpk: "none"}
		if id := m.PreKeyID(); id != nil {
			s.Otpk = fmt.Sprint(uint32(*id))
		}
		if in, ok := snapOf(m.Message()); ok {
			s.Inner = &in
		}
		return s, true
	case *message.SenderKey:
		if m == nil {
			return snap{}, false
		}
		return snap{Type: int(m.Type()), Version: m.Version(), Bytes: hx(m.Bytes()), Counter: m.Iteration(), ID: m.ChainID(), Dist: m.DistributionID().String(), Body: hx(m.Message())}, true
	case *message.SenderKeyDistribution:
		if m == nil {
			return snap{}, false
		}
		return snap{Type: -1, Version: m.Version(), Bytes: hx(m.Bytes()), Counter: m.Iteration(), ID: m.ChainID(), Dist: m.DistributionID().String(), Key: hx(m.SigningKey().Bytes()), Body: hx(m.ChainKey())}, true
	case *message.Plaintext:
		if m == nil {
			return snap{}, false
		}
		return snap{Type: int(m.Type()), Bytes: hx(m.Bytes()), Body: hx(m.Message())}, true
	}
	return snap{}, false
}

func parseAs(k msgKind, b []byte) (any, error) {
	switch k {
	case mkSignal:
		return message.NewSignalFromBytes(b)
	case mkPre:
		return message.NewPreKeyFromBytes(b)
	case mkGroup:
		return message.NewSenderKeyFromBytes(b)
	case mkDist:
		return message.NewSenderKeyDistributionFromBytes(b)
	default:
		return message.NewPlaintextFromBytes(b)
	}
}

// reading is what the format says about some bytes.
type reading struct {
	must   bool // a well-formed message in its plain encoding: is read
	refuse string
	known  bool // what it says is beyond doubt
	anyID  bool // ... but for the distribution, which is written in an unusual way
	says   snap
}

// keyOf: a public key, perhaps with something behind it.
func keyOf(b []byte) (string, bool) {
	if len(b) < 33 || b[0] != 5 {
		return "", false
	}
	return hx(b[:33]), true
}

// uuidOf reads a distribution ID. Only its two usual notations are understood.
func uuidOf(b []byte) (id string, known, bad bool) {
	t := strings.ToLower(string(b))
	switch len(b) {
	case 36:
		if t[8] != '-' || t[13] != '-' || t[18] != '-' || t[23] != '-' {
			return "", false, true
		}
		t = t[:8] + t[9:13] + t[14:18] + t[19:23] + t[24:]
	case 32:
	case 38, 45:
		return "", false, false
	default:
		return "", false, true
	}
	if _, err := hex.DecodeString(t); err != nil {
		return "", false, true
	}
	return t[:8] + "-" + t[8:12] + "-" + t[12:16] + "-" + t[16:20] + "-" + t[20:], true, false
}

func readingOf(k msgKind, b []byte) reading {
	no := func(why string) reading { return reading{refuse: why} }
	if k == mkPlain {
		if len(b) == 0 || b[0] != 0xC0 {
			return no("its first byte is another")
		}
		return reading{must: true, known: true, says: snap{Type: 8, Bytes: hx(b), Body: hx(b[1:])}}
	}
	min := [mkKinds]int{9, 1, 65, 1, 1}[k]
	if len(b) < min {
		return no("it is too short")
	}
	if b[0]>>4 != 3 {
		return no("its version is another")
	}
	plain := b[0] == 0x33
	r := reading{known: true}
	switch k {
	case mkSignal:
		fs, ok := parseFields(b[1 : len(b)-8])
		if !ok {
			return reading{}
		}
		key, good := keyOf(fieldBytes(fs, 1))
		if !good {
			return no("its ratchet key is not a key")
		}
		m, ok := parseSignal(b)
		ctr, _ := fieldU32(fs, 2)
		r.says = snap{Type: 2, Version: 3, Bytes: hx(b), Key: key, Counter: ctr, Body: hx(fieldBytes(fs, 4))}
		r.must = ok && plain && bytes.Equal(m.enc(), b)
	case mkPre:
		fs, ok := parseFields(b[1:])
		if !ok {
			return reading{}
		}
		base, ok1 := keyOf(fieldBytes(fs, 2))
		ident, ok2 := keyOf(fieldBytes(fs, 3))
		if !ok1 || !ok2 {
			return no("its base or identity key is not a key")
		}
		in := readingOf(mkSignal, fieldBytes(fs, 4))
		if in.refuse != "" {
			return no("of the message inside: " + in.refuse)
		}
		if !in.known {
			return reading{}
		}
		m, ok := parsePre(b)
		r.says = snap{Type: 3, Version: 3, Bytes: hx(b), Key: base, Ident: ident, Otpk: "none", Inner: &in.says}
		r.says.Counter, _ = fieldU32(fs, 5)
		r.says.ID, _ = fieldU32(fs, 6)
		if id, ok := fieldU32(fs, 1); ok {
			r.says.Otpk = fmt.Sprint(id)
		}
		r.must = ok && plain && in.must && len(m.Base) == 33 && len(m.Ident) == 33 && bytes.Equal(m.enc(), b)
	case mkGroup:
		m, ok := parseGrp(b)
		if !ok {
			return reading{}
		}
		id, known, bad := uuidOf(m.Dist)
		if bad {
			return no("its distribution ID is not one")
		}
		r.anyID = !known
		r.says = snap{Type: 7, Version: 3, Bytes: hx(b), Counter: m.Iter, ID: m.Chain, Dist: id, Body: hx(m.Body)}
		r.must = known && len(m.Dist) == 36 && plain && bytes.Equal(m.enc(), b)
	case mkDist:
		m, ok := parseDist(b)
		if !ok {
			return reading{}
		}
		id, known, bad := uuidOf(m.Dist)
		if bad {
			return no("its distribution ID is not one")
		}
		key, good := keyOf(m.Sign)
		if !good {
			return no("its signing key is not a key")
		}
		if len(m.Key) != 32 {
			return no("its chain key does not have 32 bytes")
		}
		r.anyID = !known
		r.says = snap{Type: -1, Version: 3, Bytes: hx(b), Counter: m.Iter, ID: m.Chain, Dist: id, Key: key, Body: hx(m.Key)}
		r.must = known && len(m.Dist) == 36 && len(m.Sign) == 33 && plain && bytes.Equal(m.enc(), b)
	}
	return r
}

// seenMsg is something to look at once the operation is over.
type seenMsg struct {
	made bool
	msg  any   // as made, if nobody will overwrite it
	then *snap // what a message that was used reports after the operation
	kind msgKind
	says snap
	wire []byte
	mac  []byte // of the message key, if known
	from string
	to   string
	q    *Packet
}

type keptMsg struct {
	msg  any
	kind msgKind
	says snap
}

// sawMade notes a message that the library made, sawWire bytes that it was given.
func (s *Sim) sawMade(msg any, wire, mac []byte, from, to string) {
	if !s.cfg.Messages {
		return
	}
	k := mkKinds
	switch msg.(type) {
	case *message.Signal:
		k = mkSignal
	case *message.PreKey:
		k = mkPre
	case *message.SenderKey:
		k = mkGroup
	case *message.SenderKeyDistribution:
		k = mkDist
	}
	says, ok := snapOf(msg)
	if !ok {
		k = mkKinds
	}
	if s.cfg.Scribble {
		msg = nil
	}
	s.saw = append(s.saw, seenMsg{made: true, msg: msg, kind: k, says: says, wire: append([]byte(nil), wire...), mac: mac, from: from, to: to})
}

func (s *Sim) sawWire(wire []byte) {
	if s.cfg.Messages && len(s.saw) < 200 {
		s.saw = append(s.saw, seenMsg{wire: append([]byte(nil), wire...)})
	}
}

// using remembers what a message reports before it is used; the function returned
// compares that with what it reports afterwards.
func (s *Sim) using(msg any) func() {
	if !s.cfg.Messages {
		return func() {}
	}
	before, ok := snapOf(msg)
	return func() {
		if after, _ := snapOf(msg); ok {
			s.saw = append(s.saw, seenMsg{says: before, then: &after})
		}
	}
}

func (s *Sim) misread(format string, a ...any) {
	s.fail("misread-message", fmt.Sprintf(format, a...), "C25")
}

// sendKeys returns the MAC key of the next message to a peer and the identities.
func (n *LibNode) sendKeys(peer int) (mac []byte, from, to string, ctr uint32) {
	if !n.sim.cfg.Messages {
		return
	}
	rec := n.record(peer)
	if rec == nil || rec.State() == nil {
		return
	}
	st := structOf(rec.State())
	ck := st.GetSenderChain().GetChainKey()
	if len(ck.GetKey()) != 32 {
		return
	}
	return deriveMsgKeys(ck.GetKey()).Mac, hx(st.GetLocalIdentityPublic()), hx(st.GetRemoteIdentityPublic()), ck.GetIndex()
}

// viewMessages looks at all messages of the operation, and again at earlier ones.
func (s *Sim) viewMessages() {
	saw := s.saw
	s.saw = nil
	r := NewRng(sub(s.cfg.Seed, 300, uint64(s.step)))
	for _, x := range saw {
		if x.then != nil {
			if !x.then.equal(x.says) {
				s.misread("a message reported %v before it was processed, and %v afterwards", x.says, *x.then)
			}
			s.probe("message compared before and after it was processed")
			continue
		}
		if x.made {
			if x.msg != nil {
				s.keepMsg(x.msg, x.kind, x.says, r)
			}
			if x.kind == mkKinds {
				s.misread("made a message of no known kind")
			}
			want := readingOf(x.kind, x.wire)
			if !want.known || !want.must {
				s.misread("%s that the library made is not in the plain form of one (%s): %x", msgNames[x.kind], want.refuse, x.wire)
			}
			if !x.says.equal(want.says) {
				s.misread("%s as made reports %v, but carries %v", msgNames[x.kind], x.says, want.says)
			}
			s.probe("made message compared with its bytes")
		}
		for k := msgKind(0); k < mkKinds; k++ {
			s.viewWire(k, x, r)
		}
		if x.made {
			for i := 0; i < 4; i++ {
				w := respell(x.kind, x.wire, r)
				if r.P(0.3) {
					w = respell(x.kind, w, r)
				}
				for k := msgKind(0); k < mkKinds; k++ {
					s.viewWire(k, seenMsg{wire: w}, r)
				}
			}
		}
	}
	for _, m := range s.keptMsgs {
		if says, ok := snapOf(m.msg); !ok || !says.equal(m.says) {
			s.misread("%s read earlier reports %v, and now %v", msgNames[m.kind], m.says, says)
		}
	}
}

func (s *Sim) keepMsg(msg any, k msgKind, says snap, r *Rng) {
	if len(s.keptMsgs) < 24 {
		s.keptMsgs = append(s.keptMsgs, keptMsg{msg, k, says})
	} else if r.P(0.3) {
		s.keptMsgs[r.N(len(s.keptMsgs))] = keptMsg{msg, k, says}
	}
}

func (s *Sim) viewWire(k msgKind, x seenMsg, r *Rng) {
	want := readingOf(k, x.wire)
	b := append([]byte(nil), x.wire...)
	msg, err := parseAs(k, b)
	if !bytes.Equal(b, x.wire) {
		s.misread("reading %s changed its bytes", msgNames[k])
	}
	if err != nil {
		if want.must {
			s.misread("%s is refused (%v): %x", msgNames[k], err, x.wire)
		}
		s.probe("bytes refused as a message of some kind")
		return
	}
	if want.refuse != "" {
		s.misread("%s is accepted although %s: %x", msgNames[k], want.refuse, x.wire)
	}
	says, ok := snapOf(msg)
	if !ok {
		s.misread("%s: neither a message nor an error", msgNames[k])
	}
	if !want.known {
		return
	}
	if want.anyID {
		want.says.Dist = says.Dist
	}
	if !says.equal(want.says) {
		s.misread("%s reports %v, but carries %v", msgNames[k], says, want.says)
	}
	s.probe("read " + msgNames[k])
	s.keepMsg(msg, k, says, r)
	switch m := msg.(type) {
	case *message.Signal:
		if x.made && x.kind == mkSignal && x.mac != nil {
			s.viewMAC(m, x, r)
		}
	case *message.PreKey:
		if x.made && x.kind == mkPre && x.mac != nil {
			s.viewMAC(m.Message(), x, r)
		}
	case *message.SenderKey:
		if q := s.byWire[string(x.wire)]; q != nil && q.Sign != "" && r.P(0.3) {
			s.viewSig(m, q, r)
		}
	}
}

// viewMAC: a regular message is authentic for its own keys and nothing else.
func (s *Sim) viewMAC(m *message.Signal, x seenMsg, r *Rng) {
	from, err1 := identity.NewKey(unhex(x.from))
	to, err2 := identity.NewKey(unhex(x.to))
	if err1 != nil || err2 != nil {
		return
	}
	check := func(what string, want bool, m *message.Signal, mac []byte, from, to identity.Key) {
		ok, err := m.VerifyMAC(mac, from, to)
		if err != nil || ok != want {
			s.misread("the MAC of %s verifies: %v (%v)", what, ok, err)
		}
	}
	check("a message as sent", true, m, x.mac, from, to)
	if x.from != x.to {
		check("a message with its parties swapped", false, m, x.mac, to, from)
	}
	other := newRefKey(r.Bytes(32))
	if k, err := identity.NewKey(other.Pub); err == nil {
		check("a message for another recipient", false, m, x.mac, from, k)
		check("a message of another sender", false, m, x.mac, k, to)
	}
	mac := append([]byte(nil), x.mac...)
	mac[r.N(len(mac))] ^= 1 << r.N(8)
	check("a message under another key", false, m, mac, from, to)
	b := append([]byte(nil), m.Bytes()...)
	b[r.N(len(b))] ^= 1 << r.N(8)
	if a, err := message.NewSignalFromBytes(b); err == nil {
		if a, ok := a.(*message.Signal); ok {
			check("an altered message", false, a, x.mac, from, to)
		}
	}
	s.probe("MAC checked directly")
}

// viewSig: a group message verifies under its signing key and no other.
func (s *Sim) viewSig(m *message.SenderKey, q *Packet, r *Rng) {
	check := func(what string, want bool, m *message.SenderKey, key []byte) {
		k, err := curve.NewPublicKey(key)
		if err != nil {
			return
		}
		ok, err := m.VerifySignature(k)
		if err != nil || ok != want {
			s.misread("the signature of %s verifies: %v (%v)", what, ok, err)
		}
	}
	check("a group message as sent", true, m, unhex(q.Sign))
	check("a group message under another key", false, m, newRefKey(r.Bytes(32)).Pub)
	b := append([]byte(nil), m.Bytes()...)
	b[r.N(len(b)-64)] ^= 1 << r.N(8)
	if a, err := message.NewSenderKeyFromBytes(b); err == nil {
		check("an altered group message", false, a, unhex(q.Sign))
	}
	s.probe("signature checked directly")
}

func innerOf(pre bool, wire []byte) []byte {
	if !pre {
		return wire
	}
	if m, ok := parsePre(wire); ok {
		return m.Inner
	}
	return nil
}

// respell returns variants of a message: fields left out, repeated, reordered,
// cut short or of another type, other versions, a cut or longer message.
func respell(k msgKind, wire []byte, r *Rng) []byte {
	tail := [mkKinds]int{8, 0, 64, 0, 0}[k]
	if k == mkPlain || len(wire) < 1+tail {
		return append([]byte{0xC0}, wire...)
	}
	ver, end := wire[0], wire[len(wire)-tail:]
	fs, ok := parseFields(wire[1 : len(wire)-tail])
	if !ok || len(fs) == 0 {
		return wire
	}
	fs = append([]field(nil), fs...)
	i := r.N(len(fs))
	f := &fs[i]
	cp := func() { f.data = append([]byte(nil), f.data...) }
	switch r.N(14) {
	case 0:
		fs = append(fs[:i], fs[i+1:]...)
	case 1: // the later one counts
		g := *f
		if g.wt == 0 {
			g.v = uint64(uint32(r.U64()))
		} else if len(g.data) > 0 {
			g.data = append([]byte(nil), g.data...)
			g.data[r.N(len(g.data))] ^= 1
		}
		at := r.N(len(fs) + 1)
		fs = append(fs[:at], append([]field{g}, fs[at:]...)...)
	case 2:
		j := r.N(len(fs))
		fs[i], fs[j] = fs[j], fs[i]
	case 3:
		if f.wt == 2 && len(f.data) > 0 {
			f.data = f.data[:r.Pick(len(f.data)-1, r.N(len(f.data)), 0)]
		} else {
			f.v = uint64(uint32(r.U64()))
		}
	case 4:
		if f.wt == 2 {
			cp()
			f.data = append(f.data, r.Bytes(1+r.N(3))...)
		} else {
			f.v = uint64(r.Pick(0, 1, 127, 128, 1<<31, 1<<32-1, 1<<32, 1<<35+5))
		}
	case 5:
		if f.wt == 2 && len(f.data) > 0 {
			cp()
			f.data[r.Pick(0, r.N(len(f.data)))] ^= 1 << r.N(8)
		}
	case 6:
		ver = byte(r.Pick(0x23, 0x43, 0x03, 0x30, 0x34, 0x3f, 0xf3, 0xc0, 0x13))
	case 7:
		fs = append(fs, fv(r.Between(7, 40), r.U64()))
	case 8:
		fs = append(fs, fb(r.Between(7, 40), r.Bytes(r.N(9))))
	case 9:
		f.num = r.Between(1, 7)
	case 10:
		if f.wt == 2 {
			*f = fv(f.num, r.U64())
		} else {
			*f = fb(f.num, r.Bytes(r.N(5)))
		}
	case 11:
		return wire[:r.N(len(wire)+1)]
	case 12:
		if k == mkPre && len(fieldBytes(fs, 4)) > 0 {
			for j := range fs {
				if fs[j].num == 4 && fs[j].wt == 2 {
					fs[j].data = respell(mkSignal, fs[j].data, r)
				}
			}
		} else if (k == mkGroup || k == mkDist) && len(fs[0].data) == 36 {
			id := string(fs[0].data)
			switch r.N(3) {
			case 0:
				id = strings.ToUpper(id)
			case 1:
				id = strings.ReplaceAll(id, "-", "")
			default:
				b := []byte(id)
				b[r.N(36)] = byte(r.Pick('g', '-', '0', ' ', 0))
				id = string(b)
			}
			fs[0].data = []byte(id)
		}
	case 13:
		for j := range fs {
			if fs[j].wt == 0 {
				fs[j].v = uint64(uint32(r.Pick(0, 1, 127, 128, 16383, 16384, 1<<21, 1<<28, 1<<31, 1<<32-1)))
			}
		}
	}
	return append(append([]byte{ver}, encFields(fs)...), end...)
}
