package main

// Seeded generation of runs. The generator looks at the model, chooses the next
// operation, fault or delivery, and records it; the recorded operations alone
// reproduce the run.

import "fmt"

// Profile steers the generator.
type Profile struct {
	name  string
	nodes [2]int
	dists [2]int
	steps [2]int
	w     map[string]int // weights of single operations
	mac   map[string]int // weights of macros
	fault float64        // chance of a fault in an operation
	ref   float64        // chance of a node being the reference implementation
	flags string         // S secrets, L limits, R reuse, A arena, B scribble
	modes []int
}

type stopRun struct{ v *Violation }

type Gen struct {
	r       *Rng
	s       *Sim
	p       *Profile
	ops     []*Op
	next    int
	pf      float64
	kinds   []string // fault kinds in this run
	w       []int
	names   []string
	muts    []string
	gmuts   []string
	order   int // delivery order: 0 random, 1 mostly oldest first, 2 mostly newest first
	loss    float64
	dup     float64
	held    map[int]bool
	gone    map[int]bool
	quiet   bool
	heavy   int // expensive macros left
	group   bool
	big     bool
	verbose bool
	journal *journal
}

var addrSets = [][]NodeCfg{
	{{Name: "alice", Dev: 1}, {Name: "bob", Dev: 1}, {Name: "carol", Dev: 1}, {Name: "dave", Dev: 1}},
	{{Name: "bob", Dev: 1}, {Name: "bob", Dev: 257}, {Name: "bob", Dev: 65537}, {Name: "bob", Dev: 2}},
	{{Name: "bob", Dev: 11}, {Name: "bob1", Dev: 1}, {Name: "bob.1", Dev: 1}, {Name: "bob", Dev: 1}},
	{{Name: "bob", Dev: 1}, {Name: "Bob", Dev: 1}, {Name: "bob ", Dev: 1}, {Name: "", Dev: 0}},
	{{Name: "+14151111111", Dev: 1}, {Name: "+14151111111", Dev: 2}, {Name: "+14151111112", Dev: 1}, {Name: "+1415111111", Dev: 11}},
	{{Name: "x", Dev: 4294967295}, {Name: "x", Dev: 127}, {Name: "x", Dev: 255}, {Name: "y", Dev: 4294967295}},
}

var distSets = [][]string{
	{"d1d1d1d1-7000-11eb-b32a-33b8a8a487a6", "d1d1d1d1-7000-11eb-b32a-33b8a8a487a7", "d1d1d1d2-7000-11eb-b32a-33b8a8a487a6"},
	{"00000000-0000-0000-0000-000000000001", "00000000-0000-0000-0000-000000000010", "00000000-0000-0000-0000-000000000000"},
	{"ffffffff-ffff-4fff-bfff-ffffffffffff", "7fffffff-ffff-4fff-bfff-ffffffffffff", "ffffffff-ffff-4fff-bfff-fffffffffffe"},
}

func newGen(seed uint64, p *Profile, st *Stats) *Gen {
	r := NewRng(sub(seed, 100))
	g := &Gen{r: r, p: p, held: map[int]bool{}, gone: map[int]bool{}}
	cfg := Config{Seed: sub(seed, 101)}
	n := r.Between(p.nodes[0], p.nodes[1])
	set := addrSets[0]
	if r.P(0.6) {
		set = addrSets[r.N(len(addrSets))]
	}
	perm := r.Perm(len(set))
	for i := 0; i < n; i++ {
		c := set[perm[i]]
		c.Ident = i
		same := 0.08
		if p.name == "deep" || p.name == "far" {
			same = 0.15
		}
		if i > 0 && r.P(same) {
			c.Ident = i - 1 // two devices of one user
		}
		c.Reg = uint32(r.Pick(0, 1, 5, 16380, 0x7fffffff, int(uint32(r.U64()))))
		c.Mode = p.modes[r.N(len(p.modes))]
		c.SpkID = uint32(r.Pick(1, 22, 127, 128, 65535, 0xfffff0, 0x7ffffff0, 0xfffffff0>>8, 0, 0xfffffff0))
		c.OtID = uint32(r.Pick(1, 31, 128, 65535, 0xffffff00, 0))
		c.NOt = r.Pick(0, 1, 2, 4, 8)
		if p.ref > 0 && r.P(p.ref) && i > 0 {
			c.Ref = true
		}
		cfg.Nodes = append(cfg.Nodes, c)
	}
	ds := distSets[r.N(len(distSets))]
	cfg.Dists = append([]string(nil), ds[:r.Between(max(1, p.dists[0]), max(1, p.dists[1]))]...)
	for _, c := range p.flags {
		switch c {
		case 'S':
			cfg.Secrets = true
		case 'L':
			cfg.Limits = true
		case 'V':
			cfg.Views = true
		case 'M':
			cfg.Messages = true
		case 'A':
			cfg.Arena = true
		case 'B':
			cfg.Scribble = true
		case 'R':
			cfg.Reuse = true
		}
	}
	cfg.Arena = cfg.Arena || r.P(0.3)
	cfg.Scribble = cfg.Scribble || r.P(0.3)
	cfg.Reuse = cfg.Reuse || r.P(0.4)
	cfg.Junk = r.P(0.5)
	cfg.Objects = !cfg.Scribble && r.P(0.3)
	cfg.Limits = cfg.Limits || r.P(0.2)
	g.s = newSim(cfg, st)

	// Swarm: every run leaves out some operations and changes the weights of others.
	for _, k := range sortedKeys(p.w) {
		w := p.w[k]
		if w == 0 {
			continue
		}
		if r.P(0.15) && k != "send" && k != "dlv" && k != "gsend" && k != "gdlv" {
			continue
		}
		g.names = append(g.names, k)
		g.w = append(g.w, 1+w*r.Pick(1, 2, 4, 8)/2)
	}
	for _, k := range sortedKeys(p.mac) {
		if r.P(0.3) {
			continue
		}
		g.names = append(g.names, "@"+k)
		g.w = append(g.w, 1+p.mac[k]*r.Pick(1, 2, 4)/2)
	}
	if len(g.names) == 0 { // nothing left
		for _, k := range sortedKeys(p.w) {
			g.names, g.w = append(g.names, k), append(g.w, p.w[k])
		}
	}
	g.pf = p.fault * float64(r.Pick(0, 1, 1, 2, 3)) / 2
	all := []string{fErrBefore, fErrAfter, fCrashBefore, fCrashAfter, fCrashRnd, fCancel, fRndErr, fRndEOF, fRndChunk}
	for _, k := range all {
		if r.P(0.6) {
			g.kinds = append(g.kinds, k)
		}
	}
	if len(g.kinds) == 0 {
		g.kinds = all
	}
	for _, m := range mutKinds {
		if r.P(0.5) {
			g.muts = append(g.muts, m)
		}
	}
	if len(g.muts) == 0 {
		g.muts = mutKinds
	}
	for _, m := range gmutKinds {
		if r.P(0.5) {
			g.gmuts = append(g.gmuts, m)
		}
	}
	if len(g.gmuts) == 0 {
		g.gmuts = gmutKinds
	}
	g.order = r.N(3)
	g.loss = []float64{0, 0, 0.1, 0.3, 0.6}[r.N(5)]
	g.dup = []float64{0, 0.1, 0.3}[r.N(3)]
	g.heavy = 1
	g.big = r.P(0.2)
	return g
}

// do carries out an operation and records it.
func (g *Gen) do(op *Op) bool {
	g.next++
	op.ID = g.next
	op.Seed = g.r.U64()
	for i, o := range op.Par {
		o.Seed = sub(op.Seed, uint64(i)+200)
	}
	beat(op)
	g.journal.op(op)
	if g.verbose {
		fmt.Println(op)
	}
	ok, v := g.s.exec(op)
	if !ok {
		return false
	}
	g.ops = append(g.ops, op)
	if v != nil {
		panic(stopRun{v})
	}
	if g.s.over {
		panic(stopRun{nil})
	}
	return true
}

func (g *Gen) faults(op *Op) *Op {
	if g.quiet || !g.r.P(g.pf) {
		return op
	}
	for {
		op.Faults = append(op.Faults, g.fault(op.Kind))
		if !g.r.P(0.15) {
			return op
		}
	}
}

func (g *Gen) fault(kind string) Fault {
	r := g.r
	f := Fault{Kind: g.kinds[r.N(len(g.kinds))], K: r.N(10)}
	if kind[0] == 'g' {
		f.K = r.N(3)
	}
	switch f.Kind {
	case fRndErr, fCrashRnd:
		f.K = r.N(4)
	case fRndEOF:
		f.K = r.Pick(0, 1, 16, 31, 32, 33, 63, 64, 67, 80, 95)
	case fRndChunk:
		f.K = r.Between(1, 40)
	}
	return f
}

// try carries out an operation, possibly with faults, and often repeats it without.
func (g *Gen) try(op *Op) bool {
	g.faults(op)
	f := len(op.Faults) > 0
	ok := g.do(op)
	if ok && f && g.r.P(0.6) {
		c := *op
		c.Faults = nil
		g.do(&c)
	}
	return ok
}

func (g *Gen) node() int { return g.r.N(len(g.s.nodes)) }

func (g *Gen) pair() (int, int) {
	a := g.node()
	b := g.r.N(len(g.s.nodes) - 1)
	if b >= a {
		b++
	}
	return a, b
}

func (g *Gen) length() int {
	if g.big && g.r.P(0.05) {
		return g.r.Pick(1000, 1023, 1024, 4095, 4096, 16383, 65535, 65536, 70001, 1<<20, 1<<20+1, 1<<22+5)
	}
	if g.r.P(0.3) {
		return g.r.N(300)
	}
	return g.r.Pick(0, 1, 15, 16, 17, 18, 31, 32, 33, 47, 48, 49, 63, 64, 65, 127, 128, 160, 239, 240, 255, 256)
}

func (g *Gen) last() *Packet {
	ps := g.s.packets
	if len(ps) == 0 {
		return nil
	}
	return ps[len(ps)-1]
}

// send encrypts a message, setting up a session first if there is none.
func (g *Gen) send(a, b int) *Packet {
	if g.s.nodes[a].conv(b).cur == nil {
		if g.r.P(0.1) && !g.quiet {
			g.try(&Op{Kind: "send", N: a, P: b, K: g.length()})
			return nil
		}
		if !g.bundle(a, b) {
			return nil
		}
	}
	mark := len(g.s.packets)
	g.try(&Op{Kind: "send", N: a, P: b, K: g.length()})
	if len(g.s.packets) > mark {
		return g.last()
	}
	return nil
}

func (g *Gen) bundle(a, b int) bool {
	k := g.r.Pick(0, 1, 1, 1)
	if g.r.P(0.1) {
		k = 2
	}
	if g.r.P(0.1) {
		k |= 4
	}
	return g.try(&Op{Kind: "bundle", N: a, P: b, K: k})
}

func (g *Gen) deliver(q *Packet) bool {
	if q == nil {
		return false
	}
	op := &Op{Kind: "dlv", N: q.To, P: q.From, Pkt: q.ID}
	if q.Pre && g.r.P(0.06) && !g.quiet {
		op.Inner = true
	}
	return g.try(op)
}

// pending picks a pairwise packet that was not consumed yet.
func (g *Gen) pending() *Packet {
	ps := g.s.packets
	n := len(ps)
	var first, lastP *Packet
	for try := 0; try < 12; try++ {
		if n == 0 {
			return nil
		}
		lo := 0
		if n > 60 && g.r.P(0.85) {
			lo = n - 60
		}
		q := ps[lo+g.r.N(n-lo)]
		if q.Group || q.consumed(q.To) || g.gone[q.ID] || (g.held[q.ID] && g.r.P(0.9)) {
			continue
		}
		if g.order == 0 || g.r.P(0.2) {
			return q
		}
		if first == nil || q.Step < first.Step {
			first = q
		}
		if lastP == nil || q.Step > lastP.Step {
			lastP = q
		}
	}
	if g.order == 1 {
		return first
	}
	return lastP
}

func (g *Gen) old() *Packet {
	ps := g.s.packets
	for try := 0; try < 8 && len(ps) > 0; try++ {
		q := ps[g.r.N(len(ps))]
		if !q.Group && q.consumed(q.To) {
			return q
		}
	}
	return nil
}

func (g *Gen) anyPkt() *Packet {
	ps := g.s.packets
	for try := 0; try < 8 && len(ps) > 0; try++ {
		q := ps[g.r.N(len(ps))]
		if !q.Group {
			return q
		}
	}
	return nil
}

// --- single operations

func (g *Gen) step() {
	r := g.r
	k := g.names[r.Weighted(g.w)]
	if k[0] == '@' {
		if !g.macro(k[1:]) {
			g.op("dlv")
		}
		return
	}
	g.op(k)
}

func (g *Gen) op(k string) {
	r := g.r
	switch k {
	case "send":
		a, b := g.pair()
		if q := g.send(a, b); q != nil {
			if r.P(g.loss) {
				if r.P(0.5) {
					g.gone[q.ID] = true
				} else {
					g.held[q.ID] = true
				}
			} else if r.P(0.3) {
				g.deliver(q)
			}
		}
	case "dlv":
		q := g.pending()
		if q == nil {
			a, b := g.pair()
			g.send(a, b)
			return
		}
		if g.deliver(q) && r.P(g.dup) {
			g.do(&Op{Kind: "dlv", N: q.To, P: q.From, Pkt: q.ID, Inner: q.Pre && r.P(0.3)})
		}
	case "dup":
		if q := g.old(); q != nil {
			g.faultySome(&Op{Kind: "dlv", N: q.To, P: q.From, Pkt: q.ID, Inner: q.Pre && r.P(0.3)})
		}
	case "bundle":
		a, b := g.pair()
		g.bundle(a, b)
	case "badbundle":
		a, b := g.pair()
		ms := []string{"badsig", "badsig", "shortsig", "longsig", "wrongsig", "swapspk", "sigover", "altsig", "evil", "mitm", "mitm"}
		g.faultySome(&Op{Kind: "bundle", N: a, P: b, K: r.Pick(0, 1, 2), Mut: ms[r.N(len(ms))]})
	case "archive", "accept":
		a, b := g.pair()
		g.do(&Op{Kind: k, N: a, P: b})
	case "block": // usually for a while
		a, b := g.pair()
		g.do(&Op{Kind: k, N: a, P: b, K: r.Pick(0, 1, 1, 2, 2, 3)})
		for i := r.N(6); i > 0; i-- {
			switch r.N(5) {
			case 0:
				g.bundle(a, b)
			case 1, 2:
				g.send(a, b)
			default:
				if q := g.send(b, a); q != nil {
					g.deliver(q)
				}
			}
		}
		if r.P(0.8) {
			g.do(&Op{Kind: k, N: a, P: b})
		}
	case "restart", "clear":
		g.do(&Op{Kind: k, N: g.node()})
	case "reinstall":
		g.do(&Op{Kind: k, N: g.node(), K: r.N(2)})
	case "newspk":
		g.do(&Op{Kind: k, N: g.node()})
	case "newot":
		g.do(&Op{Kind: k, N: g.node(), K: r.Between(1, 3)})
	case "init":
		a, b := g.pair()
		g.do(&Op{Kind: k, N: a, P: b, K: r.N(2)})
	case "mut":
		g.mut()
	case "ff":
		a, b := g.pair()
		g.do(&Op{Kind: "ff", N: a, P: b, K: r.Pick(1, 2, 5, 40, 200)})
	case "capture":
		g.do(&Op{Kind: k, N: g.node(), K: r.N(2)})
	case "twin":
		a, b := g.pair()
		op := &Op{Kind: k, N: a, P: b, K: r.N(3), D: r.N(len(g.s.dists))}
		if op.K == 0 {
			q := g.pending()
			if q == nil {
				return
			}
			op.N, op.P, op.Pkt = q.To, q.From, q.ID
		}
		g.do(op)
	case "garbage", "damage":
		a, b := g.pair()
		g.do(&Op{Kind: k, N: a, P: b, D: r.N(len(g.s.dists))})
	case "degen":
		a, b := g.pair()
		g.do(&Op{Kind: k, N: a, P: b, K: r.N(4), D: r.N(len(g.s.dists))})
	case "idop", "rndop", "safety", "shelf":
		a, b := g.pair()
		g.do(&Op{Kind: k, N: a, P: b, K: r.N(10)})
	case "ppk":
		var l []*Packet
		for i := len(g.s.packets) - 1; i >= 0 && i > len(g.s.packets)-80; i-- {
			q := g.s.packets[i]
			if q.Group || !q.Pre {
				continue
			}
			l = append(l, q)
			if ses, _ := g.s.nodes[q.To].conv(q.From).find(q.Sess); ses == nil {
				l = append(l, q, q, q, q, q)
			}
		}
		if len(l) > 0 {
			q := l[r.N(len(l))]
			g.faultySome(&Op{Kind: k, N: q.To, P: q.From, Pkt: q.ID})
		}
	case "altsign":
		a, b := g.pair()
		g.faultySome(&Op{Kind: k, N: a, P: b})
	case "altver":
		a, b := g.pair()
		g.do(&Op{Kind: k, N: a, P: b})
	case "par":
		g.par()
	case "gdist":
		g.gdist(g.node(), r.N(len(g.s.dists)))
	case "gproc":
		g.gproc()
	case "gsend":
		a, d := g.node(), r.N(len(g.s.dists))
		g.gsend(a, d)
	case "gdlv":
		g.gdlv()
	case "gdup":
		ps := g.s.packets
		for try := 0; try < 8 && len(ps) > 0; try++ {
			q := ps[r.N(len(ps))]
			if q.Group && !q.IsDst && len(q.got) > 0 {
				n := g.node()
				if q.consumed(n) {
					g.faultySome(&Op{Kind: "gdlv", N: n, P: q.From, D: q.Dist, Pkt: q.ID})
					return
				}
			}
		}
	case "gmut":
		g.gmut()
	case "gff":
		g.do(&Op{Kind: "gff", N: g.node(), D: r.N(len(g.s.dists)), K: r.Pick(1, 2, 5, 40, 200)})
	case "grot":
		g.do(&Op{Kind: "grot", N: g.node(), D: r.N(len(g.s.dists)), K: r.Pick(0, 0, 0, 1, 2, 3, 4)})
	default:
		bug("generator: %q", k)
	}
}

func (g *Gen) faultySome(op *Op) bool {
	if g.r.P(0.5) {
		g.faults(op)
	}
	return g.do(op)
}

func (g *Gen) mut() {
	r := g.r
	q := g.pending()
	if r.P(0.3) || q == nil {
		q = g.anyPkt()
	}
	if q == nil {
		return
	}
	op := &Op{Kind: "mut", N: q.To, P: q.From, Pkt: q.ID, Mut: g.muts[r.N(len(g.muts))]}
	if q2 := g.anyPkt(); q2 != nil {
		op.Pkt2 = q2.ID
	}
	switch op.Mut {
	case "reflect":
		op.N, op.P = q.From, q.To
	case "misdirect":
		op.N = g.node()
	case "misattribute":
		op.P = g.node()
	}
	if g.faultySome(op) && r.P(0.5) && !q.consumed(q.To) {
		g.do(&Op{Kind: "dlv", N: q.To, P: q.From, Pkt: q.ID})
	}
}

func (g *Gen) gdist(a, d int) *Packet {
	mark := len(g.s.packets)
	g.try(&Op{Kind: "gdist", N: a, D: d})
	if len(g.s.packets) > mark {
		return g.last()
	}
	return nil
}

func (g *Gen) members(a int) []int {
	var out []int
	for i := range g.s.nodes {
		if i != a {
			out = append(out, i)
		}
	}
	return out
}

func (g *Gen) gproc() bool {
	r := g.r
	ps := g.s.packets
	for try := 0; try < 12 && len(ps) > 0; try++ {
		q := ps[r.N(len(ps))]
		if q.IsDst {
			ms := g.members(q.From)
			return g.try(&Op{Kind: "gproc", N: ms[r.N(len(ms))], P: q.From, D: q.Dist, Pkt: q.ID})
		}
	}
	a, d := g.node(), r.N(len(g.s.dists))
	q := g.gdist(a, d)
	if q == nil {
		return false
	}
	for _, m := range g.members(a) {
		if r.P(0.7) {
			g.try(&Op{Kind: "gproc", N: m, P: a, D: d, Pkt: q.ID})
		}
	}
	return true
}

func (g *Gen) gsend(a, d int) *Packet {
	c := g.s.nodes[a].gconv(a, d)
	if (c.cur() == nil || c.unknown) && !(g.r.P(0.05) && !g.quiet) {
		q := g.gdist(a, d)
		if q == nil {
			return nil
		}
		for _, m := range g.members(a) {
			if g.r.P(0.8) {
				g.try(&Op{Kind: "gproc", N: m, P: a, D: d, Pkt: q.ID})
			}
		}
	}
	mark := len(g.s.packets)
	op := &Op{Kind: "gsend", N: a, D: d, K: g.length()}
	if g.r.P(g.pf*0.3) && !g.quiet {
		op.Faults = append(op.Faults, Fault{Kind: fRndStuck, K: g.r.N(3)})
	}
	g.try(op)
	if len(g.s.packets) > mark {
		q := g.last()
		if g.r.P(g.loss) {
			g.held[q.ID] = true
		}
		return q
	}
	return nil
}

func (g *Gen) gdeliver(q *Packet, n int) bool {
	return g.try(&Op{Kind: "gdlv", N: n, P: q.From, D: q.Dist, Pkt: q.ID})
}

func (g *Gen) gpending() (*Packet, int) {
	r := g.r
	ps := g.s.packets
	n := len(ps)
	for try := 0; try < 16 && n > 0; try++ {
		lo := 0
		if n > 60 && r.P(0.85) {
			lo = n - 60
		}
		q := ps[lo+r.N(n-lo)]
		if !q.Group || q.IsDst || (g.held[q.ID] && r.P(0.9)) {
			continue
		}
		m := g.node()
		if m == q.From || q.consumed(m) {
			continue
		}
		return q, m
	}
	return nil, 0
}

func (g *Gen) gdlv() {
	q, m := g.gpending()
	if q == nil {
		g.gsend(g.node(), g.r.N(len(g.s.dists)))
		return
	}
	if g.gdeliver(q, m) && g.r.P(g.dup) {
		g.do(&Op{Kind: "gdlv", N: m, P: q.From, D: q.Dist, Pkt: q.ID})
	}
}

func (g *Gen) gmut() {
	r := g.r
	q, m := g.gpending()
	if q == nil {
		return
	}
	op := &Op{Kind: "gmut", N: m, P: q.From, D: q.Dist, Pkt: q.ID, Mut: g.gmuts[r.N(len(g.gmuts))]}
	if q2, _ := g.gpending(); q2 != nil {
		op.Pkt2 = q2.ID
	}
	if op.Mut == "redirect" {
		op.P = g.node()
	}
	if g.faultySome(op) && r.P(0.5) {
		g.do(&Op{Kind: "gdlv", N: m, P: q.From, D: q.Dist, Pkt: q.ID})
	}
}

// par: several operations of one node on different conversations, interleaved.
func (g *Gen) par() {
	r := g.r
	n := g.node()
	if g.s.nodes[n].lib == nil {
		return
	}
	op := &Op{Kind: "par", N: n, P: n}
	for i, want := 0, r.Between(2, 4); i < want; i++ {
		var o *Op
		switch r.N(7) {
		case 0, 1:
			ms := g.members(n)
			m := ms[r.N(len(ms))]
			o = &Op{Kind: "send", N: n, P: m, K: g.length()}
			if g.s.nodes[n].conv(m).cur == nil {
				o = &Op{Kind: "bundle", N: n, P: m, K: r.N(2)}
			}
		case 2, 3:
			for try := 0; try < 10; try++ {
				if q := g.pending(); q != nil && q.To == n {
					o = &Op{Kind: "dlv", N: n, P: q.From, Pkt: q.ID}
					break
				}
			}
		case 4:
			d := r.N(len(g.s.dists))
			o = &Op{Kind: "gsend", N: n, D: d, K: g.length()}
			if c := g.s.nodes[n].gconv(n, d); c.cur() == nil || c.unknown {
				o.Kind = "gdist"
			}
		case 5:
			for try := 0; try < 10; try++ {
				if q, _ := g.gpending(); q != nil && q.From != n && !q.consumed(n) {
					o = &Op{Kind: "gdlv", N: n, P: q.From, D: q.Dist, Pkt: q.ID}
					break
				}
			}
		default:
			ps := g.s.packets
			for try := 0; try < 10 && len(ps) > 0; try++ {
				q := ps[r.N(len(ps))]
				if q.IsDst && q.From != n {
					o = &Op{Kind: "gproc", N: n, P: q.From, D: q.Dist, Pkt: q.ID}
					break
				}
			}
		}
		if o == nil {
			continue
		}
		if r.P(g.pf) {
			f := g.fault(o.Kind)
			if f.Kind != fCrashAfter && f.Kind != fCrashBefore && f.Kind != fCrashRnd {
				o.Faults = []Fault{f}
			}
		}
		op.Par = append(op.Par, o)
	}
	if len(op.Par) > 1 {
		g.do(op)
	}
}

// --- macros

func (g *Gen) macro(k string) bool {
	r := g.r
	a, b := g.pair()
	switch k {
	case "pingpong":
		g.pingpong(a, b, r.Between(2, 8))
	case "burst":
		g.burst(a, b, r.Between(3, 12))
	case "bigburst":
		g.burst(a, b, r.Between(20, 60))
	case "cross":
		g.cross(a, b)
	case "held":
		g.heldMacro(a, b)
	case "oldsession":
		g.oldSession(a, b, r.Between(1, 6))
	case "warp":
		g.warp(a, b)
	case "unanswered":
		g.unanswered(a, b)
	case "farold":
		g.farOld(a, b)
	case "gwarp":
		g.gwarp()
	case "marathon":
		if g.heavy <= 0 {
			return false
		}
		g.heavy--
		g.marathon(a, b, r.Pick(60, 120, 200, 300))
	case "sessions":
		if g.heavy <= 0 {
			return false
		}
		g.heavy--
		g.oldSession(a, b, r.Pick(38, 39, 40, 41, 42))
	case "overflow":
		if g.heavy <= 0 {
			return false
		}
		g.heavy--
		if r.P(0.4) {
			g.overflow(a, b)
		} else {
			g.pwindow(a, b)
		}
	case "far":
		if g.heavy <= 0 {
			return false
		}
		g.heavy--
		g.far(a, b)
	case "glate":
		g.glate()
	case "gburst":
		g.gburst(r.Between(3, 14))
	case "grotate":
		g.grotate(r.Between(1, 7))
	case "goverflow":
		if g.heavy <= 0 {
			return false
		}
		g.heavy--
		if r.P(0.4) {
			g.goverflow()
		} else {
			g.gwindow()
		}
	case "gfar":
		if g.heavy <= 0 {
			return false
		}
		g.heavy--
		g.gfar()
	case "gregress":
		g.gregress()
	case "mitm":
		g.mitm(a, b)
	case "heal":
		g.heal(a, b)
	case "replaystart":
		g.replayStart(a, b)
	case "crashloop":
		g.crashLoop(a, b)
	case "gcrashloop":
		g.gcrashLoop()
	case "compromise":
		g.pingpong(a, b, r.Between(1, 3))
		g.do(&Op{Kind: "capture", N: b, K: 1})
		g.pingpong(a, b, r.Between(2, 5))
		g.do(&Op{Kind: "capture", N: a, K: 1})
		g.pingpong(b, a, r.Between(2, 5))
		g.do(&Op{Kind: "capture", N: b})
	case "rekey":
		g.do(&Op{Kind: "reinstall", N: b, K: r.N(2)})
		if q := g.send(b, a); q != nil {
			g.deliver(q)
			if r.P(0.7) {
				g.do(&Op{Kind: "accept", N: a, P: b})
				g.do(&Op{Kind: "dlv", N: a, P: b, Pkt: q.ID})
			}
		}
		if q := g.send(a, b); q != nil {
			g.deliver(q)
		}
	default:
		bug("macro %q", k)
	}
	return true
}

func (g *Gen) pingpong(a, b, n int) {
	for i := 0; i < n; i++ {
		for j := 0; j <= g.r.N(3); j++ {
			q := g.send(a, b)
			if q != nil && (!g.r.P(g.loss*0.4) || j == 0) {
				g.deliver(q)
			}
		}
		a, b = b, a
	}
}

func (g *Gen) burst(a, b, n int) {
	var qs []*Packet
	for i := 0; i < n; i++ {
		if q := g.send(a, b); q != nil {
			qs = append(qs, q)
		}
	}
	g.shuffled(qs)
}

func (g *Gen) shuffled(qs []*Packet) {
	idx := g.r.Perm(len(qs))
	switch g.r.N(4) {
	case 0: // reversed
		for i := range idx {
			idx[i] = len(idx) - 1 - i
		}
	case 1: // last first, then in order
		for i := range idx {
			idx[i] = (i + len(idx) - 1) % len(idx)
		}
	}
	for _, i := range idx {
		if g.r.P(g.loss * 0.5) {
			continue
		}
		g.deliver(qs[i])
		if g.r.P(g.dup) {
			g.do(&Op{Kind: "dlv", N: qs[i].To, P: qs[i].From, Pkt: qs[i].ID})
		}
	}
}

// cross: both sides start sessions before hearing from each other.
func (g *Gen) cross(a, b int) {
	var qs []*Packet
	for i := 0; i < g.r.Between(1, 2); i++ {
		if !g.bundle(a, b) || !g.bundle(b, a) {
			break
		}
		for j := 0; j < g.r.Between(1, 3); j++ {
			if g.r.P(0.5) {
				a, b = b, a
			}
			if q := g.send(a, b); q != nil {
				qs = append(qs, q)
			}
			if q := g.send(b, a); q != nil {
				qs = append(qs, q)
			}
		}
	}
	g.shuffled(qs)
	if g.r.P(0.5) {
		g.settle(a, b)
	}
}

// heldMacro keeps messages back while the ratchet turns up to and beyond the
// number of remembered chains.
func (g *Gen) heldMacro(a, b int) {
	var qs []*Packet
	turns := g.r.Between(2, 7)
	for i := 0; i < turns; i++ {
		for j := 0; j < g.r.Between(1, 2); j++ {
			if q := g.send(a, b); q != nil {
				qs = append(qs, q)
			}
		}
		if q := g.send(a, b); q != nil {
			g.do(&Op{Kind: "dlv", N: b, P: a, Pkt: q.ID})
		}
		if q := g.send(b, a); q != nil {
			g.do(&Op{Kind: "dlv", N: a, P: b, Pkt: q.ID})
		}
		if g.r.P(0.3) && len(qs) > 0 {
			g.deliver(qs[g.r.N(len(qs))])
		}
	}
	g.shuffled(qs)
}

// oldSession replaces sessions repeatedly and delivers messages of old ones late.
func (g *Gen) oldSession(a, b, n int) {
	var qs []*Packet
	for i := 0; i < n; i++ {
		x, y := a, b
		if g.r.P(0.3) {
			x, y = b, a
		}
		switch {
		case n < 10 && g.r.P(0.15):
			g.do(&Op{Kind: "archive", N: x, P: y})
			g.send(x, y)
		default:
			if !g.do(&Op{Kind: "bundle", N: x, P: y, K: g.r.Pick(0, 0, 1)}) {
				continue
			}
		}
		if q := g.send(x, y); q != nil {
			qs = append(qs, q)
		}
		q := g.send(x, y)
		if q != nil {
			g.do(&Op{Kind: "dlv", N: y, P: x, Pkt: q.ID})
			qs = append(qs, q)
		}
		if n < 10 && g.r.P(0.3) || n >= 10 && g.r.P(0.05) {
			if q := g.send(y, x); q != nil {
				g.deliver(q)
			}
		}
	}
	if n >= 10 {
		// The oldest ones decide what is remembered.
		k := min(len(qs), 8)
		old := append([]*Packet(nil), qs[:k]...)
		for _, q := range old {
			g.do(&Op{Kind: "dlv", N: q.To, P: q.From, Pkt: q.ID})
		}
		for i := 0; i < 4; i++ {
			q := qs[g.r.N(len(qs))]
			g.do(&Op{Kind: "dlv", N: q.To, P: q.From, Pkt: q.ID})
		}
		return
	}
	g.shuffled(qs)
}

// overflow reaches the limit of skipped keys.
func (g *Gen) overflow(a, b int) {
	r := g.r
	q0 := g.send(a, b)
	if q0 == nil || !g.do(&Op{Kind: "dlv", N: b, P: a, Pkt: q0.ID}) {
		return
	}
	var early []*Packet
	for i := 0; i < r.Between(2, 5); i++ {
		if q := g.send(a, b); q != nil {
			early = append(early, q)
		}
	}
	g.do(&Op{Kind: "ff", N: a, P: b, K: r.Pick(1, 3, 900)})
	if q := g.send(a, b); q != nil {
		early = append(early, q)
		if r.P(0.5) {
			g.do(&Op{Kind: "dlv", N: b, P: a, Pkt: q.ID})
		}
	}
	sofar := 0
	if q := g.last(); q != nil && !q.Group {
		sofar = int(q.Ctr)
	}
	// Total of skipped keys close to 2000.
	g.do(&Op{Kind: "ff", N: a, P: b, K: max(1, 2000-sofar+r.Between(-3, 6))})
	if q := g.send(a, b); q != nil {
		g.do(&Op{Kind: "dlv", N: b, P: a, Pkt: q.ID})
	}
	for _, i := range r.Perm(len(early)) {
		g.do(&Op{Kind: "dlv", N: b, P: a, Pkt: early[i].ID})
	}
	if q := g.send(a, b); q != nil {
		g.do(&Op{Kind: "dlv", N: b, P: a, Pkt: q.ID})
	}
	if r.P(0.5) {
		if q := g.send(b, a); q != nil {
			g.deliver(q)
		}
		if q := g.send(a, b); q != nil {
			g.deliver(q)
		}
		for _, q := range early {
			g.do(&Op{Kind: "dlv", N: b, P: a, Pkt: q.ID})
		}
	}
}

// window keeps the number of skipped keys of one chain around its limit while
// messages before, inside and behind the window of skipped keys arrive in any order.
func (g *Gen) window(send func() *Packet, ff func(int), dlv func(*Packet), skipped func() (int, bool)) {
	r := g.r
	var held []*Packet
	late := func(n int) {
		for i := 0; i < n && len(held) > 0; i++ {
			j := r.N(len(held))
			if r.P(0.3) {
				j = len(held) - 1
			}
			dlv(held[j])
			if r.P(0.85) {
				held = append(held[:j], held[j+1:]...)
			}
		}
	}
	for round := r.Between(2, 5); round > 0; round-- {
		for i := r.Between(1, 5); i > 0; i-- {
			if q := send(); q != nil {
				held = append(held, q)
			}
		}
		if r.P(0.4) {
			ff(r.Pick(1, 2, 3, 40, 500, 900))
		}
		for i := r.N(4); i > 0; i-- {
			if q := send(); q != nil {
				held = append(held, q)
			}
		}
		if n, ok := skipped(); ok && r.P(0.6) && n < 2010 {
			ff(max(1, 2000-n+r.Between(-4, 4)))
		}
		if q := send(); q != nil {
			dlv(q)
		}
		late(r.N(4))
	}
	for _, i := range r.Perm(len(held)) {
		dlv(held[i])
	}
}

func (g *Gen) pwindow(a, b int) {
	q0 := g.send(a, b)
	if q0 == nil || !g.do(&Op{Kind: "dlv", N: b, P: a, Pkt: q0.ID}) {
		return
	}
	last := q0
	g.window(func() *Packet {
		q := g.send(a, b)
		if q != nil {
			last = q
		}
		return q
	}, func(k int) { g.do(&Op{Kind: "ff", N: a, P: b, K: k}) },
		func(q *Packet) { g.do(&Op{Kind: "dlv", N: b, P: a, Pkt: q.ID}) },
		func() (int, bool) {
			// Skipped keys once the latest message arrives.
			for _, m := range g.s.nodes[b].conv(a).all() {
				if m.key == last.Sess {
					if ch := m.chain(last.Rat); ch != nil {
						return len(ch.skipped) + int(last.Ctr) + 1 - int(ch.next), true
					}
				}
			}
			return 0, false
		})
	if g.r.P(0.5) {
		g.pingpong(a, b, 2)
	}
}

func (g *Gen) gwindow() {
	a, d, ms, ok := g.gsetup()
	if !ok {
		return
	}
	m := ms[g.r.N(len(ms))]
	g.window(func() *Packet { return g.gsend(a, d) }, func(k int) { g.do(&Op{Kind: "gff", N: a, D: d, K: k}) },
		func(q *Packet) { g.do(&Op{Kind: "gdlv", N: m, P: a, D: d, Pkt: q.ID}) },
		func() (int, bool) {
			own, his := g.s.nodes[a].gconv(a, d).cur(), g.s.nodes[m].gconv(a, d).cur()
			if own == nil || his == nil || own.sign != his.sign || own.chain != his.chain {
				return 0, false
			}
			return len(his.skipped) + int(own.next) - int(his.next), true
		})
}

// far reaches the limit of how far ahead a message may be.
func (g *Gen) far(a, b int) {
	r := g.r
	next := 0
	if r.P(0.7) {
		q0 := g.send(a, b)
		if q0 == nil || !g.do(&Op{Kind: "dlv", N: b, P: a, Pkt: q0.ID}) {
			return
		}
		if r.P(0.5) {
			if q := g.send(b, a); q != nil {
				g.do(&Op{Kind: "dlv", N: a, P: b, Pkt: q.ID})
			}
			if q := g.send(a, b); q != nil {
				g.do(&Op{Kind: "dlv", N: b, P: a, Pkt: q.ID})
			}
		}
		next = 0
	} else if g.s.nodes[a].conv(b).cur == nil && !g.do(&Op{Kind: "bundle", N: a, P: b, K: 1}) {
		return
	}
	_ = next
	k := 25000 + r.Pick(-2, -1, 0, 0, 1, 1, 2, 2000, 2001)
	if g.s.shared && r.P(0.5) {
		k = 25000 + r.Between(1, 20000) // no limit between devices of one user
	}
	held := g.send(a, b)
	if held != nil {
		k-- // the held message is one of those skipped over
	}
	if !g.do(&Op{Kind: "ff", N: a, P: b, K: k}) {
		return
	}
	if q := g.send(a, b); q != nil {
		g.do(&Op{Kind: "dlv", N: b, P: a, Pkt: q.ID})
	}
	if held != nil {
		g.do(&Op{Kind: "dlv", N: b, P: a, Pkt: held.ID})
	}
	if q := g.send(a, b); q != nil {
		g.do(&Op{Kind: "dlv", N: b, P: a, Pkt: q.ID})
	}
}

const maxWarp = 1<<32 - 1<<20

// warpTo picks a position shortly before one where counters may be cut short.
func (g *Gen) warpTo() int {
	return 1<<g.r.Pick(7, 8, 8, 14, 15, 16, 16, 21, 24, 28, 31, 31) - g.r.N(8)
}

// warp: conversations with chains so long that counters take more bytes.
func (g *Gen) warp(a, b int) {
	r := g.r
	for i := r.N(3); i >= 0; i-- {
		if q := g.send(b, a); q != nil {
			g.do(&Op{Kind: "dlv", N: a, P: b, Pkt: q.ID})
		}
		if q := g.send(a, b); q != nil {
			g.do(&Op{Kind: "dlv", N: b, P: a, Pkt: q.ID})
		}
	}
	for i := r.Between(1, 2); i > 0; i-- {
		to := g.warpTo()
		if r.P(0.05) {
			to = maxWarp
		}
		g.do(&Op{Kind: "warp", N: a, P: b, K: to})
		g.burst(a, b, r.Between(4, 14))
		if r.P(0.3) {
			g.do(&Op{Kind: "ff", N: a, P: b, K: r.Pick(1, 3, 40, 300, 1000)})
			g.burst(a, b, r.Between(2, 5))
		}
		if r.P(0.3) {
			g.pingpong(b, a, 2)
			a, b = b, a
		}
	}
}

// unanswered: a party keeps writing for long before the first message arrives.
func (g *Gen) unanswered(a, b int) {
	r := g.r
	if !g.bundle(a, b) {
		return
	}
	var qs []*Packet
	for i := r.Between(1, 3); i > 0; i-- {
		if q := g.send(a, b); q != nil && r.P(0.5) {
			qs = append(qs, q)
		}
		k := r.Pick(7, 30, 64, 100, 130, 260, 600, 1100, 1999)
		if r.P(0.05) {
			k = r.Pick(5000, 12000, 24000)
		}
		g.do(&Op{Kind: "ff", N: a, P: b, K: k})
		for j := r.Between(1, 2); j > 0; j-- {
			if q := g.send(a, b); q != nil {
				qs = append(qs, q)
			}
		}
	}
	for _, i := range r.Perm(len(qs)) {
		if r.P(0.7) {
			g.deliver(qs[i])
		}
	}
	if r.P(0.7) {
		g.pingpong(b, a, r.Between(1, 2))
	}
}

// farOld: messages of long chains arrive after newer sessions have taken over.
func (g *Gen) farOld(a, b int) {
	r := g.r
	g.pingpong(a, b, 1)
	if q := g.send(a, b); q != nil {
		g.do(&Op{Kind: "dlv", N: b, P: a, Pkt: q.ID})
	}
	to := r.Pick(300, 2100, 24990, 26000, 60000, g.warpTo(), g.warpTo())
	g.do(&Op{Kind: "warp", N: a, P: b, K: to})
	var qs []*Packet
	for i := r.Between(2, 5); i > 0; i-- {
		if q := g.send(a, b); q != nil {
			qs = append(qs, q)
			if r.P(0.4) {
				g.deliver(q)
			}
		}
	}
	g.oldSession(a, b, r.Between(1, 3))
	for _, i := range r.Perm(len(qs)) {
		if r.P(0.8) {
			g.deliver(qs[i])
		}
	}
}

func (g *Gen) gwarp() {
	r := g.r
	a, d, ms, ok := g.gsetup()
	if !ok {
		return
	}
	for _, m := range ms {
		if q := g.gsend(a, d); q != nil {
			g.do(&Op{Kind: "gdlv", N: m, P: a, D: d, Pkt: q.ID})
		}
	}
	for i := r.Between(1, 2); i > 0; i-- {
		if q := g.gsend(a, d); q != nil {
			for _, m := range ms {
				if r.P(0.9) {
					g.do(&Op{Kind: "gdlv", N: m, P: a, D: d, Pkt: q.ID})
				}
			}
		}
		g.do(&Op{Kind: "gwarp", N: a, D: d, K: g.warpTo()})
		var qs []*Packet
		for j := r.Between(4, 14); j > 0; j-- {
			if q := g.gsend(a, d); q != nil {
				qs = append(qs, q)
			}
			if r.P(0.1) {
				if dm := g.gdist(a, d); dm != nil {
					for _, m := range ms {
						g.do(&Op{Kind: "gproc", N: m, P: a, D: d, Pkt: dm.ID})
					}
				}
			}
		}
		for _, m := range ms {
			g.gshuffle(qs, m)
		}
	}
}

// marathon: a long conversation with now and then a message that comes late.
func (g *Gen) marathon(a, b, n int) {
	var late []*Packet
	for i := 0; i < n; i++ {
		for j := g.r.Pick(0, 0, 0, 1, 2); j >= 0; j-- {
			q := g.send(a, b)
			switch {
			case q == nil:
			case j > 0 && g.r.P(0.5):
				late = append(late, q)
			default:
				g.do(&Op{Kind: "dlv", N: b, P: a, Pkt: q.ID})
			}
		}
		for len(late) > 0 && g.r.P(0.4) {
			k := g.r.N(len(late))
			q := late[k]
			late = append(late[:k], late[k+1:]...)
			g.do(&Op{Kind: "dlv", N: q.To, P: q.From, Pkt: q.ID})
		}
		a, b = b, a
	}
}

// mitm: another identity turns up for a known address.
func (g *Gen) mitm(a, b int) {
	r := g.r
	if q := g.send(a, b); q != nil {
		g.deliver(q)
	}
	g.do(&Op{Kind: "bundle", N: a, P: b, Mut: "mitm"})
	if q := g.send(a, b); q != nil {
		g.deliver(q)
		g.do(&Op{Kind: "mut", N: b, P: a, Pkt: q.ID, Mut: "attacker"})
		g.do(&Op{Kind: "mut", N: b, P: a, Pkt: q.ID, Mut: "ident"})
		g.do(&Op{Kind: "mut", N: b, P: a, Pkt: q.ID, Mut: "wrap"})
	}
	if r.P(0.5) {
		g.do(&Op{Kind: "reinstall", N: b, K: 0})
		g.do(&Op{Kind: "bundle", N: a, P: b, K: r.N(2)})
		q := g.send(b, a)
		if q != nil {
			g.deliver(q)
		}
		old := g.send(a, b)
		switch r.N(3) {
		case 0:
			g.do(&Op{Kind: "accept", N: a, P: b})
		case 1:
			g.do(&Op{Kind: "clear", N: a})
		}
		if q != nil {
			g.deliver(q)
		}
		if old != nil {
			g.deliver(old)
		}
		if q := g.send(a, b); q != nil {
			g.deliver(q)
		}
	}
}

func (g *Gen) heal(a, b int) {
	g.pingpong(a, b, 2)
	g.do(&Op{Kind: "capture", N: b, K: 1})
	for i := 0; i < g.r.Between(2, 4); i++ {
		if q := g.send(a, b); q != nil {
			if g.r.P(0.5) {
				g.do(&Op{Kind: "twin", N: b, P: a, Pkt: q.ID})
			}
			g.do(&Op{Kind: "dlv", N: b, P: a, Pkt: q.ID})
		}
		if q := g.send(b, a); q != nil {
			if g.r.P(0.5) {
				g.do(&Op{Kind: "twin", N: a, P: b, Pkt: q.ID})
			}
			g.do(&Op{Kind: "dlv", N: a, P: b, Pkt: q.ID})
		}
	}
}

// replayStart repeats the messages a session was set up with.
func (g *Gen) replayStart(a, b int) {
	var qs []*Packet
	if !g.bundle(a, b) {
		return
	}
	for i := 0; i < g.r.Between(1, 4); i++ {
		if q := g.send(a, b); q != nil {
			qs = append(qs, q)
		}
	}
	if len(qs) == 0 {
		return
	}
	g.deliver(qs[g.r.N(len(qs))])
	for round := 0; round < 3; round++ {
		for _, q := range qs {
			if g.r.P(0.6) {
				g.do(&Op{Kind: "dlv", N: b, P: a, Pkt: q.ID, Inner: q.Pre && g.r.P(0.3)})
			}
		}
		switch g.r.N(6) {
		case 0:
			g.do(&Op{Kind: "archive", N: b, P: a})
		case 1:
			g.pingpong(b, a, 2)
		case 2:
			g.do(&Op{Kind: "restart", N: b})
		case 3:
			g.do(&Op{Kind: "bundle", N: b, P: a, K: 1})
		case 4:
			for _, q := range qs {
				g.do(&Op{Kind: "mut", N: b, P: a, Pkt: q.ID, Pkt2: qs[0].ID, Mut: []string{"base", "basealt", "ident", "otpk", "spk", "inner", "wrap"}[g.r.N(7)]})
			}
		}
	}
}

// crashLoop repeats one operation with a fault at each successive call until it
// goes through.
func (g *Gen) crashLoop(a, b int) {
	r := g.r
	kind := []string{fErrBefore, fErrAfter, fCrashBefore, fCrashAfter, fCrashRnd, fCancel, fRndErr, fRndEOF}[r.N(8)]
	var mk func() *Op
	switch r.N(4) {
	case 0:
		mk = func() *Op { return &Op{Kind: "bundle", N: a, P: b, K: 1} }
	case 1:
		if g.s.nodes[a].conv(b).cur == nil && !g.do(&Op{Kind: "bundle", N: a, P: b, K: 1}) {
			return
		}
		mk = func() *Op { return &Op{Kind: "send", N: a, P: b, K: g.length()} }
	default:
		if r.P(0.5) {
			g.do(&Op{Kind: "bundle", N: a, P: b, K: 1})
		}
		q := g.send(a, b)
		if q == nil {
			return
		}
		if r.P(0.4) {
			if q2 := g.send(a, b); q2 != nil && r.P(0.5) {
				q, q2 = q2, q
				defer g.deliver(q2)
			}
		}
		mk = func() *Op { return &Op{Kind: "dlv", N: b, P: a, Pkt: q.ID} }
	}
	for k := 0; k < 11; k++ {
		op := mk()
		f := Fault{Kind: kind, K: k}
		if kind == fRndEOF {
			f.K = k * 9
		}
		op.Faults = []Fault{f}
		if !g.do(op) {
			return
		}
		if r.P(0.2) {
			g.do(&Op{Kind: "restart", N: op.N})
		}
	}
	g.do(mk())
	if q := g.send(a, b); q != nil {
		g.do(&Op{Kind: "dlv", N: b, P: a, Pkt: q.ID})
	}
	if q := g.send(b, a); q != nil {
		g.do(&Op{Kind: "dlv", N: a, P: b, Pkt: q.ID})
	}
}

func (g *Gen) gcrashLoop() {
	r := g.r
	a, d := g.node(), r.N(len(g.s.dists))
	kind := []string{fErrBefore, fErrAfter, fCrashBefore, fCrashAfter, fCrashRnd, fCancel, fRndErr, fRndEOF}[r.N(8)]
	var mk func() *Op
	c := g.s.nodes[a].gconv(a, d)
	switch r.N(4) {
	case 0:
		// A sender key that has yet to be made, where there is one.
		for try := 0; try < 8 && len(g.s.nodes[a].gconv(a, d).keys) > 0; try++ {
			a, d = g.node(), r.N(len(g.s.dists))
		}
		mk = func() *Op { return &Op{Kind: "gdist", N: a, D: d} }
	case 1:
		if c.cur() == nil && g.gsend(a, d) == nil {
			return
		}
		mk = func() *Op { return &Op{Kind: "gsend", N: a, D: d, K: g.length()} }
	case 2:
		q := g.gdist(a, d)
		if q == nil {
			return
		}
		ms := g.members(a)
		m := ms[r.N(len(ms))]
		mk = func() *Op { return &Op{Kind: "gproc", N: m, P: a, D: d, Pkt: q.ID} }
	default:
		q := g.gsend(a, d)
		if q == nil {
			return
		}
		ms := g.members(a)
		m := ms[r.N(len(ms))]
		mk = func() *Op { return &Op{Kind: "gdlv", N: m, P: a, D: d, Pkt: q.ID} }
	}
	for k := 0; k < 6; k++ {
		op := mk()
		f := Fault{Kind: kind, K: k}
		if kind == fRndEOF {
			f.K = k * 17
		}
		op.Faults = []Fault{f}
		if !g.do(op) {
			break
		}
	}
	g.do(mk())
	if q := g.gsend(a, d); q != nil {
		for _, m := range g.members(a) {
			g.do(&Op{Kind: "gdlv", N: m, P: a, D: d, Pkt: q.ID})
		}
	}
}

func (g *Gen) gsetup() (a, d int, ms []int, ok bool) {
	r := g.r
	a, d = g.node(), r.N(len(g.s.dists))
	q := g.gdist(a, d)
	if q == nil {
		return a, d, nil, false
	}
	for _, m := range g.members(a) {
		if g.do(&Op{Kind: "gproc", N: m, P: a, D: d, Pkt: q.ID}) {
			ms = append(ms, m)
		}
	}
	return a, d, ms, len(ms) > 0
}

func (g *Gen) gshuffle(qs []*Packet, m int) {
	idx := g.r.Perm(len(qs))
	switch g.r.N(4) {
	case 0:
		for i := range idx {
			idx[i] = len(idx) - 1 - i
		}
	case 1:
		for i := range idx {
			idx[i] = (i + len(idx) - 1) % len(idx)
		}
	}
	for _, i := range idx {
		if g.r.P(g.loss * 0.5) {
			continue
		}
		g.gdeliver(qs[i], m)
		if g.r.P(g.dup) {
			g.do(&Op{Kind: "gdlv", N: m, P: qs[i].From, D: qs[i].Dist, Pkt: qs[i].ID})
		}
	}
}

func (g *Gen) gburst(n int) {
	a, d, ms, ok := g.gsetup()
	if !ok {
		return
	}
	var qs []*Packet
	for i := 0; i < n; i++ {
		if q := g.gsend(a, d); q != nil {
			qs = append(qs, q)
		}
	}
	for _, m := range ms {
		g.gshuffle(qs, m)
	}
}

// glate: a member joins late and is offered earlier messages.
func (g *Gen) glate() {
	r := g.r
	a, d := g.node(), r.N(len(g.s.dists))
	var before, after []*Packet
	for i := 0; i < r.Between(1, 4); i++ {
		if q := g.gsend(a, d); q != nil {
			before = append(before, q)
		}
	}
	dm := g.gdist(a, d)
	if dm == nil {
		return
	}
	for i := 0; i < r.Between(1, 4); i++ {
		if q := g.gsend(a, d); q != nil {
			after = append(after, q)
		}
	}
	ms := g.members(a)
	m := ms[r.N(len(ms))]
	g.do(&Op{Kind: "gproc", N: m, P: a, D: d, Pkt: dm.ID})
	g.gshuffle(append(before, after...), m)
	for _, q := range before {
		g.do(&Op{Kind: "gdlv", N: m, P: a, D: d, Pkt: q.ID})
	}
}

// gregress: distribution messages are processed again, late and out of order.
func (g *Gen) gregress() {
	r := g.r
	a, d, ms, ok := g.gsetup()
	if !ok {
		return
	}
	var dms []*Packet
	var qs []*Packet
	m := ms[r.N(len(ms))]
	for i := 0; i < r.Between(2, 6); i++ {
		if q := g.gsend(a, d); q != nil {
			qs = append(qs, q)
			if r.P(0.7) {
				g.gdeliver(q, m)
			}
		}
		if r.P(0.5) {
			if dm := g.gdist(a, d); dm != nil {
				dms = append(dms, dm)
			}
		}
		if len(dms) > 0 && r.P(0.5) {
			g.try(&Op{Kind: "gproc", N: m, P: a, D: d, Pkt: dms[r.N(len(dms))].ID})
		}
		if r.P(0.15) {
			g.do(&Op{Kind: "grot", N: a, D: d, K: r.Pick(0, 0, 1, 2, 3, 4)})
		}
	}
	for _, dm := range dms {
		if r.P(0.6) {
			g.try(&Op{Kind: "gproc", N: m, P: a, D: d, Pkt: dm.ID})
		}
		for _, q := range qs {
			if r.P(0.4) {
				g.do(&Op{Kind: "gdlv", N: m, P: a, D: d, Pkt: q.ID})
			}
		}
	}
	g.gshuffle(qs, m)
}

// grotate: the sender changes its key several times; messages under older keys come late.
func (g *Gen) grotate(n int) {
	r := g.r
	a, d, ms, ok := g.gsetup()
	if !ok {
		return
	}
	m := ms[r.N(len(ms))]
	var qs, dms []*Packet
	again := r.P(0.4) // older keys are distributed again
	if again {
		n += 3
	}
	for i := 0; i < n; i++ {
		for j := 0; j < r.Between(1, 2); j++ {
			if q := g.gsend(a, d); q != nil {
				qs = append(qs, q)
			}
		}
		if r.P(0.3) && len(qs) > 0 {
			g.gdeliver(qs[r.N(len(qs))], m)
		}
		g.do(&Op{Kind: "grot", N: a, D: d, K: r.Pick(0, 0, 0, 1, 3, 4)})
		dm := g.gdist(a, d)
		if dm == nil {
			continue
		}
		dms = append(dms, dm)
		for _, x := range ms {
			if x == m || r.P(0.6) {
				g.do(&Op{Kind: "gproc", N: x, P: a, D: d, Pkt: dm.ID})
			}
		}
		if again && r.P(0.35) {
			g.do(&Op{Kind: "gproc", N: m, P: a, D: d, Pkt: dms[max(0, len(dms)-r.Between(1, 5))].ID})
		}
	}
	if q := g.gsend(a, d); q != nil {
		qs = append(qs, q)
	}
	g.gshuffle(qs, m)
}

func (g *Gen) goverflow() {
	r := g.r
	a, d, ms, ok := g.gsetup()
	if !ok {
		return
	}
	m := ms[r.N(len(ms))]
	var early []*Packet
	base := g.s.nodes[m].gconv(a, d).cur()
	if base == nil {
		return
	}
	for i := 0; i < r.Between(2, 5); i++ {
		if q := g.gsend(a, d); q != nil {
			early = append(early, q)
		}
	}
	if r.P(0.5) {
		g.do(&Op{Kind: "gff", N: a, D: d, K: r.Pick(1, 3, 900)})
		if q := g.gsend(a, d); q != nil {
			g.do(&Op{Kind: "gdlv", N: m, P: a, D: d, Pkt: q.ID})
		}
	}
	skipped := len(g.s.nodes[m].gconv(a, d).cur().skipped) + int(g.s.nodes[a].gconv(a, d).cur().next) - int(g.s.nodes[m].gconv(a, d).cur().next)
	g.do(&Op{Kind: "gff", N: a, D: d, K: max(1, 2000-skipped+r.Between(-3, 6))})
	if q := g.gsend(a, d); q != nil {
		g.do(&Op{Kind: "gdlv", N: m, P: a, D: d, Pkt: q.ID})
	}
	for _, i := range r.Perm(len(early)) {
		g.do(&Op{Kind: "gdlv", N: m, P: a, D: d, Pkt: early[i].ID})
	}
	if q := g.gsend(a, d); q != nil {
		g.do(&Op{Kind: "gdlv", N: m, P: a, D: d, Pkt: q.ID})
	}
}

func (g *Gen) gfar() {
	r := g.r
	a, d, ms, ok := g.gsetup()
	if !ok {
		return
	}
	m := ms[r.N(len(ms))]
	if r.P(0.5) {
		if q := g.gsend(a, d); q != nil {
			g.do(&Op{Kind: "gdlv", N: m, P: a, D: d, Pkt: q.ID})
		}
	}
	own, his := g.s.nodes[a].gconv(a, d).cur(), g.s.nodes[m].gconv(a, d).cur()
	if own == nil || his == nil || own.sign != his.sign || own.chain != his.chain {
		return
	}
	k := 25000 + r.Pick(-2, -1, 0, 0, 0, 1, 1, 2, 2000) - int(own.next-his.next)
	if k <= 0 || !g.do(&Op{Kind: "gff", N: a, D: d, K: k}) {
		return
	}
	for i := 0; i < 2; i++ {
		if q := g.gsend(a, d); q != nil {
			g.do(&Op{Kind: "gdlv", N: m, P: a, D: d, Pkt: q.ID})
		}
	}
}

// --- after the faults

// settle: one message in each direction, then plain messages on a common session.
func (g *Gen) settle(a, b int) {
	q := g.sendQuiet(a, b)
	if q == nil || !g.do(&Op{Kind: "dlv", N: b, P: a, Pkt: q.ID}) || !q.consumed(b) {
		return
	}
	q = g.sendQuiet(b, a)
	if q == nil || !g.do(&Op{Kind: "dlv", N: a, P: b, Pkt: q.ID}) || !q.consumed(a) {
		return
	}
	g.do(&Op{Kind: "settle", N: a, P: b})
	for i := 0; i < 2; i++ {
		if q := g.sendQuiet(a, b); q != nil {
			g.do(&Op{Kind: "dlv", N: b, P: a, Pkt: q.ID})
		}
		a, b = b, a
	}
}

func (g *Gen) sendQuiet(a, b int) *Packet {
	if g.s.nodes[a].conv(b).cur == nil && !g.do(&Op{Kind: "bundle", N: a, P: b, K: g.r.N(2)}) {
		return nil
	}
	mark := len(g.s.packets)
	g.do(&Op{Kind: "send", N: a, P: b, K: g.length()})
	if len(g.s.packets) > mark {
		return g.last()
	}
	return nil
}

// finish: faults have stopped. Everything still acceptable must be accepted, a
// conversation must be able to go on, and nothing may be accepted again.
func (g *Gen) finish() {
	g.quiet = true
	s := g.s
	r := g.r
	for i := range s.nodes {
		if r.P(0.5) {
			g.do(&Op{Kind: "restart", N: i})
		}
	}
	budget := 120
	for i := len(s.packets) - 1; i >= 0 && budget > 0; i-- {
		q := s.packets[i]
		if q.IsDst {
			continue
		}
		if q.Group {
			for m := range s.nodes {
				if m == q.From {
					continue
				}
				if p := s.gpredict(s.nodes[m], q); p.out == oAccept && p.jump < 4000 || r.P(0.05) {
					budget--
					g.do(&Op{Kind: "gdlv", N: m, P: q.From, D: q.Dist, Pkt: q.ID})
				}
			}
			continue
		}
		p := s.predict(s.nodes[q.To], q.From, q.Pre, q)
		if p.out == oAccept && p.jump < 4000 || r.P(0.05) {
			budget--
			g.do(&Op{Kind: "dlv", N: q.To, P: q.From, Pkt: q.ID})
		}
	}
	for a := range s.nodes {
		for b := a + 1; b < len(s.nodes); b++ {
			na, nb := s.nodes[a], s.nodes[b]
			ca, cb := na.convs[b], nb.convs[a]
			if (ca == nil || ca.total == 0) && (cb == nil || cb.total == 0) && r.P(0.5) {
				continue
			}
			stale := func(n *Node, peer int) bool {
				c := n.convs[peer]
				if c == nil || c.cur == nil {
					return false
				}
				m := c.cur
				return m.remote != hx(s.nodes[peer].ident.Pub) || m.local != hx(n.ident.Pub) || (m.init && !m.acked && m.toEp != s.nodes[peer].epoch)
			}
			if na.block[b] != 0 {
				g.do(&Op{Kind: "block", N: a, P: b})
			}
			if nb.block[a] != 0 {
				g.do(&Op{Kind: "block", N: b, P: a})
			}
			if na.pins[b] != "" && na.pins[b] != hx(nb.ident.Pub) {
				g.do(&Op{Kind: "accept", N: a, P: b})
			}
			if nb.pins[a] != "" && nb.pins[a] != hx(na.ident.Pub) {
				g.do(&Op{Kind: "accept", N: b, P: a})
			}
			x, y := a, b
			if r.P(0.5) {
				x, y = b, a
			}
			if stale(na, b) || stale(nb, a) || !g.shared(x, y) {
				if !g.do(&Op{Kind: "bundle", N: x, P: y, K: r.N(2)}) {
					continue
				}
			}
			g.settle(x, y)
		}
	}
	for i := 0; i < 10; i++ {
		if q := g.old(); q != nil {
			g.do(&Op{Kind: "dlv", N: q.To, P: q.From, Pkt: q.ID, Inner: q.Pre && r.P(0.3)})
		}
	}
	for a := range s.nodes {
		for d := range s.dists {
			if c := s.nodes[a].gconvs[[2]int{a, d}]; c == nil || (c.cur() == nil && !c.unknown) {
				continue
			}
			q := g.gdist(a, d)
			if q == nil {
				continue
			}
			for _, m := range g.members(a) {
				g.do(&Op{Kind: "gproc", N: m, P: a, D: d, Pkt: q.ID})
			}
			if q := g.gsend(a, d); q != nil {
				for _, m := range g.members(a) {
					g.do(&Op{Kind: "gdlv", N: m, P: a, D: d, Pkt: q.ID})
					g.do(&Op{Kind: "gdlv", N: m, P: a, D: d, Pkt: q.ID})
				}
			}
		}
	}
}

// shared: y can follow x's current session.
func (g *Gen) shared(x, y int) bool {
	m := g.s.nodes[x].conv(y).cur
	if m == nil {
		return false
	}
	if m.init && !m.acked {
		return m.bundle == nil || m.bundle.Otpk == nil || g.s.nodes[y].otHave[*m.bundle.Otpk]
	}
	ses, _ := g.s.nodes[y].conv(x).find(m.key)
	return ses != nil
}

// run generates and carries out a whole run.
func (g *Gen) run() (v *Violation) {
	defer func() {
		if r := recover(); r != nil {
			if st, ok := r.(stopRun); ok {
				v = st.v
				return
			}
			panic(r)
		}
	}()
	if g.s.setupV != nil {
		g.do(&Op{Kind: "restart"}) // any operation reports it
	}
	n := g.r.Between(g.p.steps[0], g.p.steps[1])
	for i := 0; i < n && len(g.ops) < 6*n; i++ {
		g.step()
	}
	g.finish()
	return nil
}

func sortedKeys(m map[string]int) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	for i := range out {
		for j := i + 1; j < len(out); j++ {
			if out[j] < out[i] {
				out[i], out[j] = out[j], out[i]
			}
		}
	}
	return out
}
