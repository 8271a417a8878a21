package main

// refParty is an independent implementation of a party: X3DH, Double Ratchet and
// sender keys with the limits named in the properties. It is both the
// interoperation peer of C19 and a second opinion on the model.

import (
	"bytes"
	"encoding/hex"
	"errors"
)

const (
	limChains   = 5
	limSkipped  = 2000
	limArchived = 40
	limSender   = 5
	limJump     = 25000
)

var (
	errDup       = errors.New("ref: duplicate")
	errUntrusted = errors.New("ref: untrusted")
)

type refChain struct {
	rat     []byte
	ck      []byte
	idx     uint32
	skipped []refSkipped
}

type refSkipped struct {
	idx uint32
	k   msgKeys
}

type refSess struct {
	base             []byte
	local, remote    []byte
	root             []byte
	sendRat          refKey
	sendCk           []byte
	sendIdx, prevCtr uint32
	recv             []*refChain
	pend             bool
	pOtpk            *uint32
	pSpk             uint32
}

func (s *refSess) clone() *refSess {
	c := *s
	c.recv = nil
	for _, r := range s.recv {
		rc := *r
		rc.skipped = append([]refSkipped(nil), r.skipped...)
		c.recv = append(c.recv, &rc)
	}
	return &c
}

type refConv struct {
	cur  *refSess
	prev []*refSess
}

type refGState struct {
	chain    uint32
	ck       []byte
	iter     uint32
	signPub  []byte
	signPriv []byte
	skipped  []refGSkipped
}

type refGSkipped struct {
	iter    uint32
	iv, key []byte
}

type refParty struct {
	ident refKey
	reg   uint32
	spk   map[uint32]refKey
	otpk  map[uint32]refKey
	pins  map[int][]byte
	convs map[int]*refConv
	grp   map[[2]int][]*refGState // sender, dist
}

func newRefParty(ident refKey, reg uint32) *refParty {
	return &refParty{ident: ident, reg: reg, spk: map[uint32]refKey{}, otpk: map[uint32]refKey{},
		pins: map[int][]byte{}, convs: map[int]*refConv{}, grp: map[[2]int][]*refGState{}}
}

func (p *refParty) trusted(peer int, id []byte) bool {
	k, ok := p.pins[peer]
	return !ok || bytes.Equal(k, id)
}

func x3dhKeys(dhs ...[]byte) (root, ck []byte) {
	ikm := bytes.Repeat([]byte{0xff}, 32)
	for _, d := range dhs {
		ikm = append(ikm, d...)
	}
	o := hkdf(ikm, nil, "WhisperText", 64)
	return o[:32], o[32:]
}

func rootStep(root, priv, pub []byte) ([]byte, []byte, error) {
	s, err := dh(priv, pub)
	if err != nil {
		return nil, nil, err
	}
	o := hkdf(s, root, "WhisperRatchet", 64)
	return o[:32], o[32:], nil
}

func (c *refConv) archive() {
	if c.cur == nil {
		return
	}
	c.prev = append(c.prev, c.cur)
	if len(c.prev) > limArchived {
		c.prev = c.prev[1:]
	}
	c.cur = nil
}

func (p *refParty) conv(peer int) *refConv {
	c := p.convs[peer]
	if c == nil {
		c = &refConv{}
		p.convs[peer] = c
	}
	return c
}

func (p *refParty) processBundle(peer int, rnd *Rng, b *Bundle) error {
	if !p.trusted(peer, b.Ident) {
		return errUntrusted
	}
	if !xeddsaVerify(b.Ident, b.Sig, b.SpkPub) {
		return errors.New("ref: bad signature")
	}
	base := newRefKey(rnd.Bytes(32))
	rat := newRefKey(rnd.Bytes(32))
	dh1, err := dh(p.ident.Priv, b.SpkPub)
	if err != nil {
		return err
	}
	dh2, err := dh(base.Priv, b.Ident)
	if err != nil {
		return err
	}
	dh3, err := dh(base.Priv, b.SpkPub)
	if err != nil {
		return err
	}
	dhs := [][]byte{dh1, dh2, dh3}
	if b.Otpk != nil {
		dh4, err := dh(base.Priv, b.OtpkPub)
		if err != nil {
			return err
		}
		dhs = append(dhs, dh4)
	}
	root, ck := x3dhKeys(dhs...)
	root2, sck, err := rootStep(root, rat.Priv, b.SpkPub)
	if err != nil {
		return err
	}
	s := &refSess{base: base.Pub, local: p.ident.Pub, remote: b.Ident, root: root2, sendRat: rat, sendCk: sck,
		recv: []*refChain{{rat: b.SpkPub, ck: ck}}, pend: true, pOtpk: b.Otpk, pSpk: b.Spk}
	p.pins[peer] = b.Ident
	c := p.conv(peer)
	c.archive()
	c.cur = s
	return nil
}

func (p *refParty) encrypt(peer int, pt []byte) ([]byte, bool, error) {
	c := p.conv(peer)
	s := c.cur
	if s == nil {
		return nil, false, errors.New("ref: no session")
	}
	if !p.trusted(peer, s.remote) {
		return nil, false, errUntrusted
	}
	p.pins[peer] = s.remote
	k := deriveMsgKeys(s.sendCk)
	m := encSignalBody(0x33, s.sendRat.Pub, s.sendIdx, s.prevCtr, cbcEnc(k.Cipher, k.IV, pt))
	m = append(m, hm(k.Mac, s.local, s.remote, m)[:8]...)
	s.sendCk, s.sendIdx = nextCk(s.sendCk), s.sendIdx+1
	if !s.pend {
		return m, false, nil
	}
	pm := &preMsg{Ver: 0x33, Reg: p.reg, Otpk: s.pOtpk, Spk: s.pSpk, Base: s.base, Ident: s.local, Inner: m}
	return pm.enc(), true, nil
}

func (p *refParty) tryDecrypt(s *refSess, rnd *Rng, wire []byte, m *sigMsg) ([]byte, error) {
	var ch *refChain
	for _, r := range s.recv {
		if bytes.Equal(r.rat, m.Rat) {
			ch = r
		}
	}
	if ch == nil {
		root, rck, err := rootStep(s.root, s.sendRat.Priv, m.Rat)
		if err != nil {
			return nil, err
		}
		nr := newRefKey(rnd.Bytes(32))
		root, sck, err := rootStep(root, nr.Priv, m.Rat)
		if err != nil {
			return nil, err
		}
		ch = &refChain{rat: m.Rat, ck: rck}
		s.recv = append(s.recv, ch)
		if len(s.recv) > limChains {
			s.recv = s.recv[1:]
		}
		s.root = root
		s.prevCtr = 0
		if s.sendIdx > 0 {
			s.prevCtr = s.sendIdx - 1
		}
		s.sendRat, s.sendCk, s.sendIdx = nr, sck, 0
	}
	var k msgKeys
	if m.Ctr < ch.idx {
		found := false
		for i, sk := range ch.skipped {
			if sk.idx == m.Ctr {
				k, found = sk.k, true
				ch.skipped = append(append([]refSkipped(nil), ch.skipped[:i]...), ch.skipped[i+1:]...)
				break
			}
		}
		if !found {
			return nil, errDup
		}
	} else {
		if m.Ctr-ch.idx > limJump && !bytes.Equal(s.local, s.remote) {
			return nil, errors.New("ref: too far ahead")
		}
		for ch.idx < m.Ctr {
			ch.skipped = append(ch.skipped, refSkipped{ch.idx, deriveMsgKeys(ch.ck)})
			if len(ch.skipped) > limSkipped {
				ch.skipped = ch.skipped[1:]
			}
			ch.ck, ch.idx = nextCk(ch.ck), ch.idx+1
		}
		k = deriveMsgKeys(ch.ck)
		ch.ck, ch.idx = nextCk(ch.ck), ch.idx+1
	}
	if m.Ver != 0x33 || !bytes.Equal(hm(k.Mac, s.remote, s.local, wire[:len(wire)-8])[:8], m.Mac) {
		return nil, errors.New("ref: bad MAC")
	}
	pt, err := cbcDec(k.Cipher, k.IV, m.Body)
	if err != nil {
		return nil, err
	}
	s.pend = false
	return pt, nil
}

func (p *refParty) decrypt(peer int, rnd *Rng, pre bool, wire []byte) ([]byte, error) {
	c := p.conv(peer)
	work := &refConv{cur: c.cur, prev: append([]*refSess(nil), c.prev...)}
	inner := wire
	var pm *preMsg
	var del *uint32
	if pre {
		var ok bool
		pm, ok = parsePre(wire)
		if !ok || len(pm.Base) != 33 || len(pm.Ident) != 33 {
			return nil, errors.New("ref: malformed")
		}
		inner = pm.Inner
		if !p.trusted(peer, pm.Ident) {
			return nil, errUntrusted
		}
		have := false
		for _, s := range append([]*refSess{work.cur}, work.prev...) {
			if s != nil && bytes.Equal(s.base, pm.Base) {
				have = true
			}
		}
		if !have {
			spk, ok := p.spk[pm.Spk]
			if !ok {
				return nil, errors.New("ref: no signed pre-key")
			}
			dh1, err := dh(spk.Priv, pm.Ident)
			if err != nil {
				return nil, err
			}
			dh2, err := dh(p.ident.Priv, pm.Base)
			if err != nil {
				return nil, err
			}
			dh3, err := dh(spk.Priv, pm.Base)
			if err != nil {
				return nil, err
			}
			dhs := [][]byte{dh1, dh2, dh3}
			if pm.Otpk != nil {
				o, ok := p.otpk[*pm.Otpk]
				if !ok {
					return nil, errors.New("ref: no one-time pre-key")
				}
				dh4, err := dh(o.Priv, pm.Base)
				if err != nil {
					return nil, err
				}
				dhs = append(dhs, dh4)
				del = pm.Otpk
			}
			root, ck := x3dhKeys(dhs...)
			work.archive()
			work.cur = &refSess{base: pm.Base, local: p.ident.Pub, remote: pm.Ident, root: root, sendRat: spk, sendCk: ck}
		}
	}
	m, ok := parseSignal(inner)
	if !ok {
		return nil, errors.New("ref: malformed")
	}
	commit := func(s *refSess) error {
		if pre && (!bytes.Equal(s.base, pm.Base) || !bytes.Equal(s.remote, pm.Ident)) {
			return errors.New("ref: wrong session")
		}
		if !p.trusted(peer, s.remote) {
			return errUntrusted
		}
		p.pins[peer] = s.remote
		*c = *work
		if del != nil {
			delete(p.otpk, *del)
		}
		return nil
	}
	if work.cur != nil {
		s := work.cur.clone()
		pt, err := p.tryDecrypt(s, rnd, inner, m)
		if err == nil {
			work.cur = s
			if err := commit(s); err != nil {
				return nil, err
			}
			return pt, nil
		}
		if err == errDup {
			return nil, err
		}
	}
	for i := range work.prev {
		s := work.prev[i].clone()
		pt, err := p.tryDecrypt(s, rnd, inner, m)
		if err == errDup {
			return nil, err
		}
		if err == nil {
			work.prev = append(append([]*refSess(nil), work.prev[:i]...), work.prev[i+1:]...)
			work.archive()
			work.cur = s
			if err := commit(s); err != nil {
				return nil, err
			}
			return pt, nil
		}
	}
	return nil, errors.New("ref: no session decrypts")
}

// Sender keys.

func (p *refParty) gdist(self, dist int, distStr string, rnd *Rng) ([]byte, error) {
	k := [2]int{self, dist}
	if len(p.grp[k]) == 0 {
		sk := newRefKey(rnd.Bytes(32))
		p.grp[k] = []*refGState{{chain: uint32(rnd.U64()) >> 1, ck: rnd.Bytes(32), signPub: sk.Pub, signPriv: sk.Priv}}
	}
	s := p.grp[k][len(p.grp[k])-1]
	return (&distMsg{Ver: 0x33, Dist: []byte(distStr), Chain: s.chain, Iter: s.iter, Key: s.ck, Sign: s.signPub}).enc(), nil
}

func (p *refParty) gadd(k [2]int, s *refGState) {
	l := p.grp[k]
	var out []*refGState
	for _, e := range l {
		if e.chain == s.chain {
			if bytes.Equal(e.signPub, s.signPub) {
				s = e
			}
			continue
		}
		out = append(out, e)
	}
	if len(out) >= limSender {
		out = out[1:]
	}
	p.grp[k] = append(out, s)
}

func (p *refParty) gproc(sender, dist int, wire []byte) error {
	m, ok := parseDist(wire)
	if !ok || len(m.Key) != 32 || len(m.Sign) != 33 {
		return errors.New("ref: malformed")
	}
	p.gadd([2]int{sender, dist}, &refGState{chain: m.Chain, ck: m.Key, iter: m.Iter, signPub: m.Sign})
	return nil
}

func (p *refParty) gsend(self, dist int, distStr string, rnd *Rng, pt []byte) ([]byte, error) {
	l := p.grp[[2]int{self, dist}]
	if len(l) == 0 {
		return nil, errors.New("ref: no sender key")
	}
	s := l[len(l)-1]
	iv, key := groupKeys(s.ck)
	m := &grpMsg{Ver: 0x33, Dist: []byte(distStr), Chain: s.chain, Iter: s.iter, Body: cbcEnc(key, iv, pt)}
	m.Sig = xeddsaSign(s.signPriv, rnd.Bytes(64), m.signed())
	s.ck, s.iter = nextCk(s.ck), s.iter+1
	return m.enc(), nil
}

func (p *refParty) grecv(sender, dist int, wire []byte) ([]byte, error) {
	m, ok := parseGrp(wire)
	if !ok {
		return nil, errors.New("ref: malformed")
	}
	var s *refGState
	for _, e := range p.grp[[2]int{sender, dist}] {
		if e.chain == m.Chain {
			s = e
		}
	}
	if s == nil {
		return nil, errors.New("ref: no sender key")
	}
	if !xeddsaVerify(s.signPub, m.Sig, wire[:len(wire)-64]) {
		return nil, errors.New("ref: bad signature")
	}
	if m.Iter < s.iter {
		for i, k := range s.skipped {
			if k.iter == m.Iter {
				pt, err := cbcDec(k.key, k.iv, m.Body)
				if err == nil {
					s.skipped = append(append([]refGSkipped(nil), s.skipped[:i]...), s.skipped[i+1:]...)
				}
				return pt, err
			}
		}
		return nil, errDup
	}
	if m.Iter-s.iter > limJump {
		return nil, errors.New("ref: too far ahead")
	}
	for s.iter < m.Iter {
		iv, key := groupKeys(s.ck)
		s.skipped = append(s.skipped, refGSkipped{s.iter, iv, key})
		if len(s.skipped) > limSkipped {
			s.skipped = s.skipped[1:]
		}
		s.ck, s.iter = nextCk(s.ck), s.iter+1
	}
	iv, key := groupKeys(s.ck)
	pt, err := cbcDec(key, iv, m.Body)
	s.ck, s.iter = nextCk(s.ck), s.iter+1
	return pt, err
}

func hx(b []byte) string { return hex.EncodeToString(b) }

func unhex(s string) []byte {
	b, err := hex.DecodeString(s)
	if err != nil {
		panic(err)
	}
	return b
}
