package main

// Hostile and damaged inputs (C17), the stores by themselves (C09, C10, C18), and
// failing or repeating randomness (C20).

import (
	"bytes"
	crand "crypto/rand"
	"errors"
	"fmt"
	"io"
	"runtime"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/direction"
	v1 "github.com/RTann/libsignal-go/protocol/generated/v1"
	"github.com/RTann/libsignal-go/protocol/identity"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/prekey"
	protostore "github.com/RTann/libsignal-go/protocol/protocol"
	"github.com/RTann/libsignal-go/protocol/ratchet"
	"github.com/RTann/libsignal-go/protocol/session"
)

// drainGoroutines lets goroutines started by the library run to their end.
func drainGoroutines(base int) {
	for i := 0; i < 10000 && runtime.NumGoroutine() > base; i++ {
		runtime.Gosched()
	}
}

// --- garbage

func weirdKey(r *Rng) []byte {
	switch r.N(7) {
	case 0:
		return nil
	case 1:
		return r.Bytes(r.N(40))
	case 2:
		return append([]byte{byte(r.N(8))}, r.Bytes(32)...)
	case 3:
		return lowKey(r)
	case 4:
		return append([]byte{5}, r.Bytes(31)...)
	case 5:
		return append([]byte{5}, r.Bytes(32+r.N(9))...)
	}
	return newRefKey(r.Bytes(32)).Pub
}

func weirdInt(r *Rng) uint64 {
	switch r.N(5) {
	case 0:
		return uint64(r.N(4))
	case 1:
		return r.U64()
	case 2:
		return 0xffffffff - uint64(r.N(3))
	case 3:
		return 0x7fffffff + uint64(r.N(3))
	}
	return uint64(r.N(1 << 16))
}

// chew damages bytes: cuts, doubles, fills, flips.
func chew(r *Rng, b []byte) []byte {
	b = append([]byte(nil), b...)
	for k := 0; k <= r.N(4); k++ {
		if len(b) == 0 {
			return r.Bytes(r.N(12))
		}
		i := r.N(len(b))
		j := i + r.N(min(len(b)-i, 40)+1)
		switch r.N(6) {
		case 0:
			b = append(append([]byte(nil), b[:i]...), b[j:]...)
		case 1:
			b = append(append(append([]byte(nil), b[:j]...), b[i:j]...), b[j:]...)
		case 2:
			for x := i; x < j; x++ {
				b[x] = byte(r.Pick(0, 0xff, 0x80, 0x7f))
			}
		case 3:
			b[i] ^= 1 << r.N(8)
		case 4:
			b = append(append(append([]byte(nil), b[:i]...), r.Bytes(r.N(9))...), b[i:]...)
		default:
			b = b[:i]
		}
	}
	return b
}

func version(r *Rng) byte {
	if r.P(0.85) {
		return 0x33
	}
	return byte(r.U64())
}

func weirdSignal(r *Rng, dist []string) []byte {
	var fs []field
	for _, n := range []int{1, 2, 3, 4} {
		if r.P(0.1) {
			continue
		}
		switch n {
		case 1:
			fs = append(fs, fb(1, weirdKey(r)))
		case 4:
			fs = append(fs, fb(4, r.Bytes(r.Pick(0, 1, 15, 16, 17, 32, 48))))
		default:
			fs = append(fs, fv(n, weirdInt(r)))
		}
	}
	return append(append([]byte{version(r)}, encFields(fs)...), r.Bytes(r.Pick(8, 8, 8, 7, 0, 9))...)
}

func weirdPre(r *Rng, n *Node, inner []byte) []byte {
	var fs []field
	if r.P(0.5) {
		id := weirdInt(r)
		if len(n.otpks) > 0 && r.P(0.6) {
			id = uint64(n.otpks[r.N(len(n.otpks))])
		}
		fs = append(fs, fv(1, id))
	}
	if r.P(0.95) {
		fs = append(fs, fb(2, weirdKey(r)))
	}
	if r.P(0.95) {
		fs = append(fs, fb(3, weirdKey(r)))
	}
	if r.P(0.95) {
		fs = append(fs, fb(4, inner))
	}
	fs = append(fs, fv(5, weirdInt(r)))
	if r.P(0.95) {
		id := weirdInt(r)
		if len(n.spks) > 0 && r.P(0.8) {
			id = uint64(n.spks[r.N(len(n.spks))])
		}
		fs = append(fs, fv(6, id))
	}
	return append([]byte{version(r)}, encFields(fs)...)
}

func weirdDist(r *Rng, s *Sim) []byte {
	id := []byte(s.dists[r.N(len(s.dists))].String())
	if r.P(0.3) {
		id = [][]byte{nil, r.Bytes(16), r.Bytes(36), []byte("not-a-uuid"), id[:35], append([]byte("urn:uuid:"), id...), bytes.ToUpper(id), append(append([]byte("{"), id...), '}')}[r.N(8)]
	}
	return id
}

func weirdSK(r *Rng, s *Sim, chains []uint32) []byte {
	ch := weirdInt(r)
	if len(chains) > 0 && r.P(0.7) {
		ch = uint64(chains[r.N(len(chains))])
	}
	fs := []field{fb(1, weirdDist(r, s)), fv(2, ch), fv(3, weirdInt(r)), fb(4, r.Bytes(r.Pick(0, 1, 15, 16, 17, 32)))}
	if r.P(0.2) {
		fs = append(fs[:r.N(4)], fs[3:]...)
	}
	return append(append([]byte{version(r)}, encFields(fs)...), r.Bytes(r.Pick(64, 64, 64, 63, 0, 65))...)
}

func weirdSKDM(r *Rng, s *Sim) []byte {
	fs := []field{fb(1, weirdDist(r, s)), fv(2, weirdInt(r)), fv(3, weirdInt(r)), fb(4, r.Bytes(r.Pick(32, 32, 32, 31, 33, 0))), fb(5, weirdKey(r))}
	if r.P(0.2) {
		fs = append(fs[:r.N(5)], fs[4:]...)
	}
	return append([]byte{version(r)}, encFields(fs)...)
}

// prepGarbage throws bytes at every entry point of a copy of the node.
func (s *Sim) prepGarbage(op *Op, n *Node) *task {
	if n.lib == nil || op.N == op.P {
		return nil
	}
	r := NewRng(sub(op.Seed, 61))
	f := n.lib.fork()
	if r.P(0.3) {
		f.D.id.Clear()
	}
	dig := f.digests()
	var pool, gpool, dpool [][]byte
	var chains []uint32
	for i := len(s.packets) - 1; i >= 0 && i > len(s.packets)-60; i-- {
		q := s.packets[i]
		switch {
		case q.IsDst:
			dpool = append(dpool, q.Wire)
			chains = append(chains, q.Chain)
		case q.Group:
			gpool = append(gpool, q.Wire)
		default:
			pool = append(pool, q.Wire)
		}
	}
	pick := func(p [][]byte) []byte {
		if len(p) == 0 {
			return r.Bytes(r.N(100))
		}
		return p[r.N(len(p))]
	}
	same := func(what string) {
		if d := diffKeys(dig, f.digests()); len(d) > 0 {
			s.fail("trace", fmt.Sprintf("%s refused garbage but changed %s", what, n.describe(d[0])), "C04", "C17")
		}
	}
	for i := 0; i < 6+op.K; i++ {
		var b []byte
		derived := false
		kind := r.N(5)
		switch r.N(4) {
		case 0: // bytes
			b = r.Bytes(r.Pick(0, 1, 2, 3, 7, 8, 9, 10, 16, 33, 64, 65, 66, 100, 200))
			if len(b) > 0 && r.P(0.7) {
				b[0] = byte(r.Pick(0x33, 0x33, 0x30, 0xc0))
			}
		case 1, 2: // right shape, odd contents
			switch kind {
			case 0:
				b = weirdSignal(r, nil)
			case 1:
				in := weirdSignal(r, nil)
				b = weirdPre(r, n, in)
			case 2:
				b = weirdSK(r, s, chains)
			case 3:
				b = weirdSKDM(r, s)
			default:
				b = append([]byte{0xc0}, r.Bytes(r.N(5))...)
			}
		default: // damaged traffic
			derived = true
			switch kind {
			case 0, 1:
				b = chew(r, pick(pool))
			case 2:
				b = chew(r, pick(gpool))
			case 3:
				b = chew(r, pick(dpool))
			default:
				b = chew(r, pick(append(append(pool, gpool...), dpool...)))
			}
		}
		seed := sub(op.Seed, 62, uint64(i))
		switch kind {
		case 0, 1:
			if s.byWire[string(b)] != nil || s.byInner[string(b)] != nil {
				continue
			}
			s.onFork(f, seed, "DecryptMessage", func() {
				pt, _, err := f.decrypt(op.P, kind == 1, b, seed)
				if err == nil && !(derived && kind == 1) {
					s.fail("forgery", fmt.Sprintf("node %d accepted garbage as a message", n.idx), "C03")
				}
				if err != nil && len(pt) > 0 {
					s.fail("plaintext-with-error", "DecryptMessage returned a plaintext together with an error", "C03", "C04")
				}
				if err != nil {
					same("DecryptMessage")
				} else {
					dig = f.digests()
				}
			})
		case 2:
			if s.byWire[string(b)] != nil {
				continue
			}
			s.onFork(f, seed, "group DecryptMessage", func() {
				_, _, err := f.grecv(op.P, b, seed)
				if err == nil {
					s.fail("forgery", fmt.Sprintf("node %d accepted garbage as a group message", n.idx), "C14")
				}
				same("group DecryptMessage")
			})
		case 3:
			if s.byWire[string(b)] != nil {
				continue
			}
			g := n.lib.fork()
			s.onFork(g, seed, "ProcessSenderKeyDistribution", func() {
				_, err := g.gproc(op.P, b, seed)
				if err != nil {
					if d := diffKeys(n.dig, g.digests()); len(d) > 0 {
						s.fail("trace", fmt.Sprintf("a refused distribution message changed %s", n.describe(d[0])), "C04", "C17")
					}
					return
				}
				// Whatever it said is used next.
				for _, w := range gpool {
					g.grecv(op.P, w, seed)
				}
				for k := 0; k < 3; k++ {
					g.grecv(op.P, weirdSK(r, s, chains), seed)
				}
			})
		default:
			s.sawWire(b)
			s.onFork(f, seed, "parsing", func() {
				if m, err := message.NewPlaintextFromBytes(b); err == nil {
					m.Type()
					m.Bytes()
					m.Message()
					if _, err := f.session(op.P).DecryptMessage(bg, simRand{s}, m); err == nil {
						s.fail("forgery", "DecryptMessage accepted a plaintext message", "C03")
					}
					same("DecryptMessage")
				}
				if m, err := message.NewSenderKeyFromBytes(b); err == nil {
					if _, err := f.session(op.P).DecryptMessage(bg, simRand{s}, m); err == nil {
						s.fail("forgery", "DecryptMessage accepted a group message", "C03")
					}
				}
				message.NewSenderKeyDistributionFromBytes(b)
				message.NewSignalFromBytes(b)
				message.NewPreKeyFromBytes(b)
			})
		}
	}
	s.note("garbage", "done", bucket(len(pool)))
	return &task{op: op, n: n}
}

// --- a malicious peer

// craft makes a message that is authentic in the session but has arbitrary contents.
func (m *refSess) craft(rat []byte, ctr, prev uint32, body []byte, ver byte) []byte {
	k := deriveMsgKeys(m.sendCk)
	w := encSignalBody(ver, rat, ctr, prev, body)
	return append(w, hm(k.Mac, m.local, m.remote, w)[:8]...)
}

func badBody(r *Rng, key, iv []byte) []byte {
	raw := func(p []byte) []byte { // without padding
		c := cbcEnc(key, iv, p)
		return c[:len(c)-16]
	}
	switch r.N(7) {
	case 0:
		return nil
	case 1:
		return r.Bytes(1 + r.N(15))
	case 2:
		return r.Bytes(17 + r.N(14))
	case 3:
		p := r.Bytes(16)
		p[15] = byte(r.Pick(0, 17, 32, 255, 128))
		return raw(p)
	case 4:
		p := r.Bytes(32)
		p[31] = 5
		p[30] = 4
		return raw(p)
	case 5:
		return raw(bytes.Repeat([]byte{16}, 16)) // empty
	}
	p := bytes.Repeat([]byte{17}, 32)
	return raw(p)
}

func (s *Sim) prepDegenerate(op *Op, n *Node) *task {
	if n.lib == nil || op.N == op.P {
		return nil
	}
	r := NewRng(sub(op.Seed, 63))
	f := n.lib.fork()
	f.D.id.Clear()
	dig := f.digests()
	seed := sub(op.Seed, 64)
	check := func(what string, err error) {
		now := f.digests()
		if err != nil {
			if d := diffKeys(dig, now); len(d) > 0 {
				s.fail("trace", fmt.Sprintf("%s failed (%v) but changed %s", what, err, n.describe(d[0])), "C04", "C17")
			}
		}
		dig = now
	}
	kind := op.K % 4
	s.onFork(f, seed, "degenerate input", func() {
		switch kind {
		case 0: // bundles with degenerate keys, properly signed
			id := newRefKey(r.Bytes(32))
			spk := newRefKey(r.Bytes(32))
			b := &Bundle{Reg: 5, Spk: 9, SpkPub: spk.Pub, Ident: id.Pub}
			switch r.N(4) {
			case 0:
				b.SpkPub = lowKey(r)
			case 1:
				x := uint32(4)
				b.Otpk, b.OtpkPub = &x, lowKey(r)
			case 2:
				b.SpkPub = altKey(r, spk.Pub)
			default:
				b.Ident = lowKey(r)
			}
			b.Sig = xeddsaSign(id.Priv, r.Bytes(64), b.SpkPub[:33])
			if r.P(0.2) {
				b.Sig = r.Bytes(r.Pick(0, 1, 63, 64, 65))
			}
			err := f.processBundle(op.P, b)
			check("ProcessPreKeyBundle", err)
			if err == nil {
				_, _, _, err = f.encrypt(op.P, []byte("x"), seed)
				check("EncryptMessage", err)
			}
		case 1, 2: // authentic messages with odd contents
			spk := n.spks[len(n.spks)-1]
			b := &Bundle{Reg: n.reg, Spk: spk, SpkPub: n.spkKey[spk].Pub, Sig: n.spkSig[spk], Ident: n.ident.Pub}
			a := newRefParty(newRefKey(r.Bytes(32)), 7)
			if err := a.processBundle(0, r, b); err != nil {
				bug("attacker: %v", err)
			}
			first := r.P(0.5)
			if !first {
				w, p, err := a.encrypt(0, []byte("hello"))
				if err != nil {
					bug("attacker: %v", err)
				}
				if _, _, err := f.decrypt(op.P, p, w, seed); err != nil {
					s.fail("undecryptable", "an initial message of an independent peer cannot be decrypted: "+err.Error(), "C19", "C10")
				}
				dig = f.digests()
			}
			m := a.conv(0).cur
			for i := 0; i < 4; i++ {
				k := deriveMsgKeys(m.sendCk)
				rat, ctr, ver := m.sendRat.Pub, m.sendIdx, byte(0x33)
				switch r.N(6) {
				case 0:
					rat = weirdKey(r)
				case 1:
					ctr = uint32(weirdInt(r))
					if ctr > m.sendIdx+30000 && ctr < m.sendIdx+400000 {
						ctr = 0xffffffff
					}
				case 2:
					ver = byte(r.Pick(0x33, 0x32, 0x34, 0x30))
				}
				in := m.craft(rat, ctr, uint32(weirdInt(r)), badBody(r, k.Cipher, k.IV), ver)
				w, p := in, false
				if m.pend && r.P(0.7) {
					pm := &preMsg{Ver: 0x33, Reg: 7, Spk: m.pSpk, Base: m.base, Ident: m.local, Inner: in}
					if r.P(0.3) {
						pm.Base = weirdKey(r)
					}
					if r.P(0.2) {
						pm.Ident = weirdKey(r)
					}
					if r.P(0.2) {
						x := uint32(r.N(3))
						pm.Otpk = &x
					}
					w, p = pm.enc(), true
				}
				pt, _, err := f.decrypt(op.P, p, w, seed)
				if err != nil && len(pt) > 0 {
					s.fail("plaintext-with-error", "DecryptMessage returned a plaintext together with an error", "C03", "C04")
				}
				check("DecryptMessage", err)
			}
		case 3: // a member with odd sender keys and messages
			sk := newRefKey(r.Bytes(32))
			d := r.N(len(s.dists))
			dm := &distMsg{Ver: 0x33, Dist: []byte(s.dists[d].String()), Chain: uint32(r.U64()), Iter: uint32(weirdInt(r)), Key: r.Bytes(32), Sign: sk.Pub}
			switch r.N(5) {
			case 0:
				dm.Sign = lowKey(r)
			case 1:
				dm.Sign = weirdKey(r)
			case 2:
				dm.Sign = altKey(r, sk.Pub)
			}
			_, err := f.gproc(op.P, dm.enc(), seed)
			check("ProcessSenderKeyDistribution", err)
			if err != nil {
				return
			}
			for i := 0; i < 4; i++ {
				iv, key := groupKeys(dm.Key)
				gm := &grpMsg{Ver: 0x33, Dist: dm.Dist, Chain: dm.Chain, Iter: dm.Iter, Body: badBody(r, key, iv)}
				switch r.N(5) {
				case 0:
					gm.Iter = dm.Iter + 1 + uint32(r.N(4))
				case 1:
					gm.Iter = dm.Iter + 30000 + uint32(weirdInt(r))
				case 2:
					gm.Ver = byte(r.Pick(0x33, 0x32, 0x34))
				}
				gm.Sig = xeddsaSign(sk.Priv, r.Bytes(64), gm.signed())
				pt, _, err := f.grecv(op.P, gm.enc(), seed)
				if err != nil && len(pt) > 0 {
					s.fail("plaintext-with-error", "group DecryptMessage returned a plaintext together with an error", "C14", "C04")
				}
				check("group DecryptMessage", err)
			}
		}
	})
	s.note("degen", fmt.Sprint(kind), 0)
	return &task{op: op, n: n}
}

// --- damaged storage

func damageProto(r *Rng, m protoreflect.Message) {
	type leaf struct {
		m protoreflect.Message
		f protoreflect.FieldDescriptor
	}
	var leaves []leaf
	var collect func(m protoreflect.Message)
	collect = func(m protoreflect.Message) {
		fs := m.Descriptor().Fields()
		for i := 0; i < fs.Len(); i++ {
			fd := fs.Get(i)
			if !m.Has(fd) {
				continue
			}
			leaves = append(leaves, leaf{m, fd})
			switch {
			case fd.IsList() && fd.Message() != nil:
				l := m.Get(fd).List()
				for j := 0; j < l.Len() && j < 6; j++ {
					collect(l.Get(j).Message())
				}
			case fd.Message() != nil && !fd.IsMap():
				collect(m.Get(fd).Message())
			}
		}
	}
	collect(m)
	if len(leaves) == 0 {
		return
	}
	l := leaves[r.N(len(leaves))]
	if r.P(0.4) || l.f.IsList() || l.f.Message() != nil {
		l.m.Clear(l.f)
		return
	}
	switch l.f.Kind() {
	case protoreflect.BytesKind:
		b := l.m.Get(l.f).Bytes()
		switch r.N(4) {
		case 0:
			b = chew(r, b)
		case 1:
			b = r.Bytes(len(b))
		case 2:
			b = lowKey(r)
		default:
			b = make([]byte, len(b))
		}
		l.m.Set(l.f, protoreflect.ValueOfBytes(b))
	case protoreflect.Uint32Kind:
		// Positions far ahead only make decryption slow.
		l.m.Set(l.f, protoreflect.ValueOfUint32(uint32(weirdInt(r))))
	default:
		l.m.Clear(l.f)
	}
}

// prepDamage lets a copy of the node work with damaged stored sessions.
func (s *Sim) prepDamage(op *Op, n *Node) *task {
	if n.lib == nil || op.N == op.P {
		return nil
	}
	rec := n.lib.record(op.P)
	if rec == nil {
		return nil
	}
	r := NewRng(sub(op.Seed, 65))
	cur := rec.State()
	prev, err := rec.PreviousStates()
	if err != nil {
		return nil
	}
	var ser [][]byte
	for _, p := range prev {
		ser = append(ser, p.Bytes())
	}
	if cur != nil {
		ser = append(ser, cur.Bytes())
	}
	if len(ser) == 0 {
		return nil
	}
	if len(ser) > 4 {
		ser = ser[len(ser)-4:]
	}
	bad := func(b []byte) *session.State {
		if r.P(0.3) {
			b = chew(r, b)
		}
		st := new(v1.SessionStructure)
		if err := proto.Unmarshal(b, st); err != nil {
			return nil
		}
		hits := 1 + r.N(3)
		switch r.N(10) {
		case 0:
			hits = 15
		case 1:
			st = new(v1.SessionStructure) // nothing is left
		}
		for i := 0; i < hits; i++ {
			damageProto(r, st.ProtoReflect())
		}
		return session.NewState(st)
	}
	f := n.lib.fork()
	if r.P(0.5) {
		f.D.id.Clear()
	}
	seed := sub(op.Seed, 66)
	s.onFork(f, seed, "reading damaged sessions", func() {
		if _, err := session.NewRecordBytes(chew(r, ser[len(ser)-1])); err == nil {
			s.probe("damaged session parsed")
		}
		nr := session.NewRecord(nil)
		for i, b := range ser {
			st := bad(b)
			if st == nil {
				continue
			}
			nr.PromoteState(st)
			if i == len(ser)-1 && r.P(0.3) {
				nr.ArchiveCurrentState()
			}
		}
		f.D.sess.Store(bg, s.nodes[op.P].addr, nr)
	})
	ops := 0
	for i := len(s.packets) - 1; i >= 0 && ops < 4; i-- {
		q := s.packets[i]
		if q.Group || q.To != n.idx || q.From != op.P {
			continue
		}
		ops++
		s.onFork(f, seed, "DecryptMessage with a damaged session", func() { f.decrypt(op.P, q.Pre, q.Wire, seed) })
		if q.Pre {
			s.onFork(f, seed, "DecryptMessage with a damaged session", func() { f.decrypt(op.P, false, q.Inner, seed) })
		}
	}
	s.onFork(f, seed, "EncryptMessage with a damaged session", func() { f.encrypt(op.P, []byte("x"), seed) })
	s.onFork(f, seed, "ProcessPreKeyBundle with a damaged session", func() {
		f.processBundle(op.P, s.bundleOf(s.nodes[op.P], 0, r))
		f.encrypt(op.P, []byte("x"), seed)
	})
	s.damageGroup(op, n, f, r)
	s.note("damage", "done", bucket(len(ser)))
	return &task{op: op, n: n}
}

// damageGroup lets the fork work with sender-key records that are not as the
// library leaves them.
func (s *Sim) damageGroup(op *Op, n *Node, f *LibNode, r *Rng) {
	d := r.N(len(s.dists))
	seed := sub(op.Seed, 67)
	sk := newRefKey(r.Bytes(32))
	pub, err := curve.NewPublicKey(append([]byte{5}, lowKey(r)[1:]...))
	if err != nil || r.P(0.7) {
		if pub, err = curve.NewPublicKey(sk.Pub); err != nil {
			bug("signing key: %v", err)
		}
	}
	made := func() *session.GroupRecord {
		rec := session.NewGroupRecord()
		for i := r.N(3); i > 0; i-- {
			cfg := session.GroupStateConfig{MessageVersion: uint8(r.Pick(0, 2, 3, 3, 3, 3, 4)), ChainID: uint32(i), Iteration: uint32(weirdInt(r)), ChainKey: r.Bytes(r.Pick(0, 1, 31, 32, 32, 33)), SignatureKey: pub}
			if r.P(0.5) {
				cfg.SignaturePrivateKey = s.keyPair(sk).PrivateKey()
			}
			rec.AddState(session.NewGroupState(cfg))
		}
		return rec
	}
	for _, who := range []int{n.idx, op.P} {
		rec := made()
		s.onFork(f, seed, "storing a sender-key record", func() { f.D.grp.Store(bg, s.nodes[who].addr, s.dists[d], rec) })
	}
	s.onFork(f, seed, "group EncryptMessage with a damaged record", func() { f.gsend(d, []byte("x"), seed) })
	s.onFork(f, seed, "distributing a damaged record", func() { f.gdist(d) })
	for i := 0; i < 3; i++ {
		gm := &grpMsg{Ver: 0x33, Dist: []byte(s.dists[d].String()), Chain: uint32(1 + i), Iter: uint32(weirdInt(r)), Body: r.Bytes(r.Pick(0, 16, 16, 17, 32))}
		gm.Sig = xeddsaSign(sk.Priv, r.Bytes(64), gm.signed())
		s.onFork(f, seed, "group DecryptMessage with a damaged record", func() { f.grecv(op.P, gm.enc(), seed) })
	}
	dm := &distMsg{Ver: 0x33, Dist: []byte(s.dists[d].String()), Chain: uint32(r.N(4)), Iter: uint32(r.N(3)), Key: r.Bytes(32), Sign: sk.Pub}
	s.onFork(f, seed, "processing a distribution message over a damaged record", func() { f.gproc(op.P, dm.enc(), seed) })
}

// --- stores by themselves

var trickyAddrs = []address.Address{{Name: "bob", DeviceID: 1}, {Name: "bob", DeviceID: 2}, {Name: "bob", DeviceID: 257}, {Name: "bob", DeviceID: 65537}, {Name: "bob", DeviceID: 11},
	{Name: "bob1", DeviceID: 1}, {Name: "bob.1", DeviceID: 1}, {Name: "Bob", DeviceID: 1}, {Name: "", DeviceID: 0}, {Name: "bob ", DeviceID: 1}, {Name: "bob", DeviceID: 4294967295}, {Name: "bob.1", DeviceID: 11}}

func (s *Sim) prepIDStore(op *Op, n *Node) *task {
	r := NewRng(sub(op.Seed, 67))
	own := newRefKey(r.Bytes(32))
	st := protostore.NewInMemStore(libIdentity(own), 4711)
	t := &task{n: n, op: op}
	s.cur = nil
	t.run = func() {
		ids := st.IdentityStore()
		model := map[address.Address]string{}
		var keys []refKey
		for i := 0; i < 4; i++ {
			keys = append(keys, newRefKey(r.Bytes(32)))
		}
		keys = append(keys, own)
		lib := func(k refKey) identity.Key {
			x, err := identity.NewKey(append([]byte(nil), k.Pub...))
			if err != nil {
				bug("%v", err)
			}
			return x
		}
		check := func(at string) {
			for _, a := range trickyAddrs {
				k, ok, err := ids.Load(bg, a)
				want, has := model[a]
				if err != nil || ok != has || (ok && hx(k.Bytes()) != want) {
					s.fail("identity-store", fmt.Sprintf("after %s, the key stored for %v is wrong (present=%v, expected %v)", at, a, ok, has), "C09", "C18", "C26")
				}
			}
		}
		base := runtime.NumGoroutine()
		for i := 0; i < 20+op.K; i++ {
			a := trickyAddrs[r.N(len(trickyAddrs))]
			k := keys[r.N(len(keys))]
			switch r.N(8) {
			case 0, 1, 2:
				over, err := ids.Store(bg, a, lib(k))
				old, had := model[a]
				if err != nil || over != (had && old != hx(k.Pub)) {
					s.fail("identity-store", fmt.Sprintf("Store reported overwritten=%v (had a key: %v, same key: %v)", over, had, old == hx(k.Pub)), "C09", "C26")
				}
				model[a] = hx(k.Pub)
			case 3, 4, 5:
				dir := direction.Direction(direction.Sending)
				if r.P(0.5) {
					dir = direction.Receiving
				}
				ok, err := ids.IsTrustedIdentity(bg, a, lib(k), dir)
				old, had := model[a]
				if err != nil || ok != (!had || old == hx(k.Pub)) {
					s.fail("identity-store", fmt.Sprintf("IsTrustedIdentity=%v (had a key: %v, same key: %v)", ok, had, old == hx(k.Pub)), "C09", "C26")
				}
			case 6:
				if r.P(0.4) {
					if err := ids.Clear(); err != nil {
						s.fail("identity-store", "Clear: "+err.Error(), "C09", "C26")
					}
					model = map[address.Address]string{}
					if r.P(0.5) {
						drainGoroutines(base)
						check("Clear")
					}
				}
			default:
				check("a sequence of operations")
			}
		}
		drainGoroutines(base)
		check("a sequence of operations")
		if kp := ids.KeyPair(bg); hx(kp.IdentityKey().Bytes()) != hx(own.Pub) || ids.LocalRegistrationID(bg) != 4711 {
			s.fail("identity-store", "the local identity changed", "C09", "C26")
		}
		// Pre-keys.
		pm := map[uint32]string{}
		for i := 0; i < 20; i++ {
			id := uint32(r.Pick(0, 1, 2, 0xffff, 0x10000, 0x10001, 0x7fffffff, 0xffffffff))
			switch r.N(3) {
			case 0:
				k := keys[r.N(len(keys))]
				if err := st.PreKeyStore().Store(bg, prekey.ID(id), prekey.NewPreKey(prekey.ID(id), libKeyPair(k))); err != nil {
					s.fail("pre-key-store", err.Error(), "C10", "C26")
				}
				pm[id] = hx(k.Pub)
			case 1:
				if err := st.PreKeyStore().Delete(bg, prekey.ID(id)); err != nil {
					s.fail("pre-key-store", err.Error(), "C10", "C26")
				}
				delete(pm, id)
			}
			for _, id := range []uint32{0, 1, 2, 0xffff, 0x10000, 0x10001, 0x7fffffff, 0xffffffff} {
				k, ok, err := st.PreKeyStore().Load(bg, prekey.ID(id))
				want, has := pm[id]
				if err != nil || ok != has {
					s.fail("pre-key-store", fmt.Sprintf("pre-key %d present=%v, expected %v", id, ok, has), "C10", "C26")
				}
				if ok {
					kp, err := k.KeyPair()
					if err != nil || hx(kp.PublicKey().Bytes()) != want {
						s.fail("pre-key-store", fmt.Sprintf("pre-key %d is another key", id), "C10", "C26")
					}
				}
			}
		}
		// Sessions and sender keys.
		sm := map[address.Address]uint32{}
		gm := map[grpKey]uint32{}
		for i := uint32(1); i < 14; i++ {
			a := trickyAddrs[r.N(len(trickyAddrs))]
			d := s.dists[r.N(len(s.dists))]
			ss := session.NewState(&v1.SessionStructure{SessionVersion: 3, LocalRegistrationId: i})
			if err := st.SessionStore().Store(bg, a, session.NewRecord(ss)); err != nil {
				s.fail("session-store", err.Error(), "C18", "C26")
			}
			sm[a] = i
			gr := session.NewGroupRecord()
			pub, _ := curve.NewPublicKey(own.Pub)
			gr.AddState(session.NewGroupState(session.GroupStateConfig{MessageVersion: 3, ChainID: i, ChainKey: make([]byte, 32), SignatureKey: pub}))
			if err := st.GroupStore().Store(bg, a, d, gr); err != nil {
				s.fail("session-store", err.Error(), "C18", "C26")
			}
			gm[grpKey{a, d}] = i
			ss.SetLocalRegistrationID(9999) // the caller keeps using its record
			for _, a := range trickyAddrs {
				rec, ok, err := st.SessionStore().Load(bg, a)
				want, has := sm[a]
				if err != nil || ok != has || (ok && rec.State().LocalRegistrationID() != want) {
					s.fail("session-store", fmt.Sprintf("the session stored for %v is wrong", a), "C18", "C04", "C05", "C26")
				}
				for _, d := range s.dists {
					g, ok, err := st.GroupStore().Load(bg, a, d)
					want, has := gm[grpKey{a, d}]
					if err != nil || ok != has {
						s.fail("session-store", fmt.Sprintf("the sender keys of %v are wrong", a), "C18", "C15", "C26")
					}
					if ok {
						if x, err := g.State(); err != nil || x.ChainID() != want {
							s.fail("session-store", fmt.Sprintf("the sender keys of %v are another sender's", a), "C18", "C15", "C26")
						}
					}
				}
			}
		}
	}
	t.finish = func() { s.note("idop", "ok", 0) }
	s.guarded(t)
	if t.panicV != "" {
		s.fail("panic", "a store panicked: "+t.panicV, "C17", "C09", "C26")
	}
	t.finish()
	return &task{op: op, n: n}
}

// --- randomness

// badReader is a source of randomness that misbehaves.
type badReader struct {
	r     *Rng
	kind  string
	left  int // bytes until failure (-1: never)
	chunk int
	n     int
	bad   bool
	seed  uint64
}

func (b *badReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	n := len(p)
	if b.chunk > 0 && n > b.chunk {
		n = 1 + b.r.N(b.chunk)
	}
	if b.left >= 0 && n > b.left {
		n = b.left
		b.bad = true
		e := error(errInjected)
		if b.kind == "eof" {
			e = io.EOF
		}
		if n == 0 {
			return 0, e
		}
		b.r.Fill(p[:n])
		b.n += n
		b.left = 0
		if b.kind == "late" { // the failure shows with the next read
			return n, nil
		}
		return n, e
	}
	if b.kind == "stuck" {
		NewRng(b.seed).Fill(p[:n])
	} else {
		b.r.Fill(p[:n])
	}
	b.n += n
	if b.left >= 0 {
		b.left -= n
	}
	return n, nil
}

func (s *Sim) prepRnd(op *Op, n *Node) *task {
	if n.lib == nil {
		return nil
	}
	r := NewRng(sub(op.Seed, 68))
	k := newRefKey(r.Bytes(32))
	other := libIdentity(newRefKey(r.Bytes(32)))
	t := &task{op: op, n: n}
	t.run = func() {
		for i := 0; i < 8+op.K; i++ {
			b := &badReader{r: NewRng(r.U64()), left: -1, seed: r.U64() % 3}
			switch r.N(5) {
			case 0:
				b.kind, b.left = "err", r.N(70)
			case 1:
				b.kind, b.left = "eof", r.N(70)
			case 2:
				b.kind, b.left = "late", r.N(70)
			case 3:
				b.chunk = 1 + r.N(33)
			case 4:
				b.kind = "stuck"
			}
			if r.P(0.3) {
				b.chunk = 1 + r.N(9)
			}
			if b.kind != "" {
				s.stats.Faults["rnd_"+b.kind+"@direct"]++
			} else {
				s.stats.Faults["rnd_chunk@direct"]++
			}
			var rd io.Reader = b
			need := 32
			what := ""
			var err error
			empty := true
			switch r.N(6) {
			case 0:
				what = "curve.GenerateKeyPair"
				var kp *curve.KeyPair
				kp, err = curve.GenerateKeyPair(rd)
				empty = kp == nil
			case 1:
				what = "identity.GenerateKeyPair"
				var kp identity.KeyPair
				kp, err = identity.GenerateKeyPair(rd)
				empty = kp.PrivateKey() == nil
			case 2, 3:
				what, need = "Sign", 64
				msg := r.Bytes(1 + r.N(40))
				var sig []byte
				sig, err = libKeyPair(k).Sign(rd, msg)
				empty = len(sig) == 0
				if err == nil {
					if !xeddsaVerify(k.Pub, sig, msg) {
						s.fail("signature", "a signature does not verify", "C20", "C19")
					}
					s.nonce(hx(k.Pub), sig, string(msg))
				}
			case 4:
				what, need = "SignAlternateIdentity", 64
				var sig []byte
				sig, err = libIdentity(k).SignAlternateIdentity(rd, other.IdentityKey())
				empty = len(sig) == 0
				if err == nil {
					s.nonce(hx(k.Pub), sig, "alternate")
				}
			default:
				what = "InitializeAliceSessionRecord"
				pub, _ := curve.NewPublicKey(newRefKey(r.Bytes(32)).Pub)
				var rec *session.Record
				rec, err = session.InitializeAliceSessionRecord(rd, &ratchet.AliceParameters{OurIdentityKeyPair: libIdentity(k), OurBaseKeyPair: libKeyPair(newRefKey(r.Bytes(32))),
					TheirIdentityKey: other.IdentityKey(), TheirSignedPreKey: pub, TheirRatchetKey: pub})
				empty = rec == nil
			}
			if err == nil && (b.bad && b.n < need || b.n < need) {
				s.fail("randomness", fmt.Sprintf("%s succeeded with %d bytes of randomness (%s)", what, b.n, b.kind), "C20")
			}
			if err != nil && !empty {
				s.fail("randomness", fmt.Sprintf("%s returned a result together with an error", what), "C20")
			}
			if err != nil && !b.bad {
				s.fail("randomness", fmt.Sprintf("%s failed although the source did not: %v", what, err), "C20", "C10", "C22")
			}
		}
		// Messages which differ in one place only, in any number of parts, signed while the source repeats itself.
		base := r.Bytes(r.Pick(1, 33, 64, 65, 97, 130, 200+r.N(200), 1025+r.N(4000)))
		again := r.U64()
		for i := 0; i < 6; i++ {
			msg := append([]byte(nil), base...)
			switch i {
			case 0, 1:
			case 2:
				msg = append(msg, byte(r.N(256)))
			case 3:
				msg = msg[:len(msg)-1]
			case 4:
				msg[len(msg)-1] ^= 1 << r.N(8)
			default:
				msg[r.N(len(msg))] ^= 1 << r.N(8)
			}
			var parts [][]byte
			for rest := msg; ; {
				if len(parts) == 5 || len(rest) == 0 || r.P(0.4) {
					parts = append(parts, rest)
					break
				}
				c := r.N(len(rest) + 1)
				parts, rest = append(parts, rest[:c]), rest[c:]
			}
			sig, err := libKeyPair(k).Sign(&badReader{r: NewRng(again), left: -1}, parts...)
			if err != nil {
				s.fail("randomness", fmt.Sprintf("Sign failed although the source did not: %v", err), "C20", "C22")
				continue
			}
			if !xeddsaVerify(k.Pub, sig, msg) {
				s.fail("signature", fmt.Sprintf("a signature of a message in %d parts does not verify", len(parts)), "C20", "C19")
			}
			s.nonce(hx(k.Pub), sig, string(msg))
		}
		// No source given means crypto/rand.Reader, which is simulated here.
		saved := crand.Reader
		defer func() { crand.Reader = saved }()
		b := &badReader{r: NewRng(r.U64()), left: -1}
		crand.Reader = b
		for i, f := range []func() (bool, error){
			func() (bool, error) { kp, err := curve.GenerateKeyPair(nil); return kp != nil, err },
			func() (bool, error) { kp, err := curve.GeneratePrivateKey(nil); return kp != nil, err },
			func() (bool, error) { kp, err := identity.GenerateKeyPair(nil); return kp.PrivateKey() != nil, err },
			func() (bool, error) { sg, err := libKeyPair(k).Sign(nil, []byte("none")); return len(sg) == 64, err },
		} {
			b.n = 0
			if ok, err := f(); err != nil || !ok || b.n < 32 {
				s.fail("randomness", fmt.Sprintf("operation %d without a source of randomness: %d bytes from crypto/rand.Reader, error %v", i, b.n, err), "C20")
			}
		}
	}
	s.cur = nil
	s.guarded(t)
	if t.panicV != "" {
		s.fail("panic", "an operation with failing randomness panicked: "+t.panicV, "C17", "C20")
	}
	s.note("rndop", "ok", 0)
	return &task{op: op, n: n}
}

var _ = errors.New
