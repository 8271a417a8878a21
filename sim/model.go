package main

// The reference model: what each party must accept, refuse and remember, kept in
// terms of session names, ratchet keys seen on the wire and counters only.

type MChain struct {
	rat     string
	next    uint32
	skipped []uint32
}

type MSess struct {
	key        string // base key; "" while no message of it has been seen
	init       bool   // this side initiated
	acked      bool   // a message of the peer was decrypted in it (or it never was pending)
	local      string
	remote     string
	chains     []*MChain
	seen       map[string]bool
	freshDue   bool
	freshGen   int
	lastRecv   string
	sendRat    string
	sendGen    int
	bundle     *Bundle
	toEp       int // epoch of the peer whose bundle was used
	peer       int
	reg        int64 // registration ID in the initial message; -1 if not known
	sends      int
	cnt        uint32 // position of the sending chain, unless cntBad
	pn         uint32 // last position of the sending chain before, unless pnBad
	cntBad     bool
	pnBad      bool
	evictSkip  bool // a skipped key was given up
	evictChain bool // a receiving chain was given up
}

func (m *MSess) clone() *MSess {
	c := *m
	c.chains = make([]*MChain, len(m.chains))
	for i, ch := range m.chains {
		cc := *ch
		cc.skipped = append([]uint32(nil), ch.skipped...)
		c.chains[i] = &cc
	}
	c.seen = map[string]bool{}
	for k := range m.seen {
		c.seen[k] = true
	}
	return &c
}

func (m *MSess) addChain(rat string) *MChain {
	ch := &MChain{rat: rat}
	m.chains = append(m.chains, ch)
	m.seen[rat] = true
	if len(m.chains) > limChains {
		m.chains = m.chains[1:]
		m.evictChain = true
	}
	return ch
}

func (m *MSess) chain(rat string) *MChain {
	for _, c := range m.chains {
		if c.rat == rat {
			return c
		}
	}
	return nil
}

type MConv struct {
	cur   *MSess
	prev  []*MSess
	total int  // sessions ever
	lost  bool // an archived session was given up
}

func (c *MConv) clone() *MConv {
	n := *c
	n.prev = append([]*MSess(nil), c.prev...)
	return &n
}

func (c *MConv) archive() {
	if c.cur == nil {
		return
	}
	c.prev = append(c.prev, c.cur)
	if len(c.prev) > limArchived {
		c.prev = c.prev[1:]
		c.lost = true
	}
	c.cur = nil
}

func (c *MConv) find(key string) (*MSess, int) {
	if key == "" {
		return nil, -2
	}
	if c.cur != nil && c.cur.key == key {
		return c.cur, -1
	}
	for i, s := range c.prev {
		if s.key == key {
			return s, i
		}
	}
	return nil, -2
}

func (c *MConv) all() []*MSess {
	var out []*MSess
	if c.cur != nil {
		out = append(out, c.cur)
	}
	return append(out, c.prev...)
}

const (
	oAccept    = iota
	oDup       // consumed, session and chain held: duplicate-message error
	oGone      // its key was given up: an error
	oTooFar    // beyond the jump limit: an error
	oNoSession // no session and none can be made: an error
	oNoPreKey  // names pre-keys the party does not have: an error
	oUntrusted // untrusted-identity error
	oReplay    // consumed, but its session was given up and can be set up again
)

var outNames = []string{"accept", "duplicate", "gone", "too-far", "no-session", "no-pre-key", "untrusted", "replayable"}

type Pred struct {
	out      int
	conv     *MConv
	sess     *MSess
	newSess  bool
	newChain bool
	delOtpk  *uint32
	pin      string
	jump     uint32
	skipped  bool
}

func (n *Node) conv(peer int) *MConv {
	c := n.convs[peer]
	if c == nil {
		c = &MConv{}
		n.convs[peer] = c
	}
	return c
}

// predict says what must happen when packet q reaches n under peer's address, in
// its pre-key form or as a plain message.
func (s *Sim) predict(n *Node, peer int, pre bool, q *Packet) Pred {
	c := n.conv(peer).clone()
	pin := n.pins[peer]
	if pre && (pin != "" && pin != q.Ident || n.blocked(peer, false)) {
		return Pred{out: oUntrusted}
	}
	ses, at := c.find(q.Sess)
	p := Pred{conv: c}
	if ses == nil {
		if !pre {
			return Pred{out: oNoSession}
		}
		if q.ToEp != n.epoch {
			return Pred{out: oNoPreKey}
		}
		if q.Otpk != nil && !n.otHave[*q.Otpk] {
			return Pred{out: oNoPreKey}
		}
		ses = &MSess{key: q.Sess, acked: true, local: hx(n.ident.Pub), remote: q.Ident, seen: map[string]bool{}, reg: int64(q.Reg)}
		c.archive()
		c.total++
		c.cur = ses
		p.newSess = true
		p.delOtpk = q.Otpk
	} else {
		ses = ses.clone()
		if at >= 0 {
			c.prev = append(append([]*MSess(nil), c.prev[:at]...), c.prev[at+1:]...)
			c.archive()
		}
		c.cur = ses
	}
	p.sess = ses
	ch := ses.chain(q.Rat)
	if ch == nil {
		if ses.seen[q.Rat] {
			return Pred{out: oGone, sess: ses}
		}
		ch = ses.addChain(q.Rat)
		p.newChain = true
		ses.freshDue = true
		ses.freshGen = s.step
		ses.lastRecv = q.Rat
	}
	if q.Ctr < ch.next {
		found := false
		for i, k := range ch.skipped {
			if k == q.Ctr {
				ch.skipped = append(append([]uint32(nil), ch.skipped[:i]...), ch.skipped[i+1:]...)
				found = true
				break
			}
		}
		if !found {
			if q.consumed(n.idx) {
				return Pred{out: oDup, sess: ses}
			}
			return Pred{out: oGone, sess: ses}
		}
		p.skipped = true
	} else {
		p.jump = q.Ctr - ch.next
		if p.jump > limJump && ses.local != ses.remote {
			return Pred{out: oTooFar, sess: ses, jump: p.jump}
		}
		from := ch.next
		if p.jump > limSkipped {
			from = q.Ctr - limSkipped
		}
		for i := from; i < q.Ctr; i++ {
			ch.skipped = append(ch.skipped, i)
		}
		if over := len(ch.skipped) - limSkipped; over > 0 || p.jump > limSkipped {
			if over > 0 {
				ch.skipped = append([]uint32(nil), ch.skipped[over:]...)
			}
			ses.evictSkip = true
		}
		ch.next = q.Ctr + 1
	}
	if pin != "" && pin != ses.remote || n.blocked(peer, false) {
		return Pred{out: oUntrusted, sess: ses}
	}
	ses.acked = true
	p.pin = ses.remote
	if p.newSess && q.consumed(n.idx) {
		p.out = oReplay
	}
	return p
}

// Group model.

type GKey struct {
	chain   uint32
	sign    string
	next    uint32
	skipped []uint32
	evict   bool
}

func (k *GKey) clone() *GKey {
	c := *k
	c.skipped = append([]uint32(nil), k.skipped...)
	return &c
}

// GConv is what a member knows of one sender in one group, or a sender of itself.
type GConv struct {
	keys    []*GKey // newest last
	unknown bool    // a sender key exists which no message has shown yet
	lost    bool    // a key was given up
	rot     int
}

func (c *GConv) clone() *GConv {
	n := *c
	n.keys = append([]*GKey(nil), c.keys...)
	return &n
}

func (c *GConv) cur() *GKey {
	if len(c.keys) == 0 {
		return nil
	}
	return c.keys[len(c.keys)-1]
}

// add mirrors the arrival of a sender key at a given position.
func (c *GConv) add(k *GKey) (readded bool) {
	var out []*GKey
	for _, e := range c.keys {
		if e.chain == k.chain {
			if e.sign == k.sign {
				k = e
			} else {
				c.lost = true
			}
			continue
		}
		out = append(out, e)
	}
	if len(out) >= limSender {
		out = out[1:]
		c.lost = true
	}
	c.keys = append(out, k)
	return false
}

func (c *GConv) find(chain uint32) int {
	for i, k := range c.keys {
		if k.chain == chain {
			return i
		}
	}
	return -1
}

func (n *Node) gconv(sender, dist int) *GConv {
	k := [2]int{sender, dist}
	c := n.gconvs[k]
	if c == nil {
		c = &GConv{}
		n.gconvs[k] = c
	}
	return c
}

type GPred struct {
	out     int
	conv    *GConv
	key     *GKey
	jump    uint32
	skipped bool
}

func (s *Sim) gpredict(n *Node, q *Packet) GPred {
	c := n.gconv(q.From, q.Dist).clone()
	i := c.find(q.Chain)
	if i < 0 {
		return GPred{out: oNoSession}
	}
	if c.keys[i].sign != q.Sign {
		return GPred{out: oGone, key: c.keys[i]}
	}
	k := c.keys[i].clone()
	c.keys[i] = k
	p := GPred{conv: c, key: k}
	if q.Ctr < k.next {
		found := false
		for j, x := range k.skipped {
			if x == q.Ctr {
				k.skipped = append(append([]uint32(nil), k.skipped[:j]...), k.skipped[j+1:]...)
				found = true
				break
			}
		}
		if !found {
			if q.consumed(n.idx) {
				return GPred{out: oDup, key: k}
			}
			return GPred{out: oGone, key: k}
		}
		p.skipped = true
		return p
	}
	p.jump = q.Ctr - k.next
	if p.jump > limJump {
		return GPred{out: oTooFar, key: k, jump: p.jump}
	}
	for x := k.next; x < q.Ctr; x++ {
		k.skipped = append(k.skipped, x)
	}
	if over := len(k.skipped) - limSkipped; over > 0 {
		k.skipped = append([]uint32(nil), k.skipped[over:]...)
		k.evict = true
	}
	k.next = q.Ctr + 1
	return p
}
