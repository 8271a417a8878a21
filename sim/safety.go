package main

// Comparing safety numbers.

import (
	"crypto/sha512"
	"fmt"

	"google.golang.org/protobuf/proto"

	"github.com/RTann/libsignal-go/protocol/fingerprint"
	v1 "github.com/RTann/libsignal-go/protocol/generated/v1"
	"github.com/RTann/libsignal-go/protocol/identity"
)

// refFingerprint is the published computation of one party's part.
func refFingerprint(iter uint32, id, key []byte) []byte {
	h := sha512.New()
	h.Write([]byte{0, 0})
	h.Write(key)
	h.Write(id)
	h.Write(key)
	sum := h.Sum(nil)
	for i := uint32(1); i < iter; i++ {
		h.Reset()
		h.Write(sum)
		h.Write(key)
		sum = h.Sum(nil)
	}
	return sum
}

func refDisplay(a, b []byte) string {
	enc := func(x []byte) string {
		s := ""
		for i := 0; i < 30; i += 5 {
			v := uint64(0)
			for _, c := range x[i : i+5] {
				v = v<<8 | uint64(c)
			}
			s += fmt.Sprintf("%05d", v%100000)
		}
		return s
	}
	x, y := enc(a), enc(b)
	if x < y {
		return x + y
	}
	return y + x
}

// prepSafety: two parties compare the safety numbers they derive from their own
// identity and the key they trust for the other, while an attacker may have
// replaced what one of them sees.
func (s *Sim) prepSafety(op *Op, n *Node) *task {
	p := s.nodes[op.P]
	if n == p || n.lib == nil || p.lib == nil {
		return nil
	}
	r := NewRng(sub(op.Seed, 71))
	ours, theirs := n.lib.pin(op.P), p.lib.pin(op.N)
	if ours == "" {
		ours = hx(p.ident.Pub)
	}
	if theirs == "" {
		theirs = hx(n.ident.Pub)
	}
	type view struct {
		lid, rid   []byte
		lkey, rkey []byte
	}
	a := view{[]byte(n.addr.Name), []byte(p.addr.Name), n.ident.Pub, unhex(ours)}
	b := view{[]byte(p.addr.Name), []byte(n.addr.Name), p.ident.Pub, unhex(theirs)}
	va, vb := uint32(r.Pick(0, 1, 2, 255, 256)), uint32(0)
	vb = va
	iter := uint32(r.Pick(2, 3, 17, 50))
	switch r.N(10) {
	case 0: // another identity key, however similar
		b.rkey = altBytes(r, b.rkey)
	case 1:
		b.lkey = altBytes(r, b.lkey)
	case 2:
		b.rid = append(append([]byte(nil), b.rid...), 0)
	case 3:
		b.lid = append([]byte("x"), b.lid...)
	case 4:
		vb = uint32(r.Pick(0, 1, 2, 255, 256, 0x01000000))
	case 5: // identifiers exchanged
		b.lid, b.rid = b.rid, b.lid
	case 6: // both see the attacker's keys for themselves
		k := newRefKey(r.Bytes(32)).Pub
		a.rkey, b.rkey = k, k
	case 7: // long and empty identifiers
		x := r.Bytes(r.Pick(0, 1, 32, 33, 100))
		a.lid, b.rid = x, x
	}
	same := hx(a.lid) == hx(b.rid) && hx(a.rid) == hx(b.lid) && hx(a.lkey) == hx(b.rkey) && hx(a.rkey) == hx(b.lkey)
	if !same && hx(a.lid) == hx(b.lid) && hx(a.rid) == hx(b.rid) && hx(a.lkey) == hx(b.lkey) && hx(a.rkey) == hx(b.rkey) {
		return nil // the same view twice: the displayed number is symmetric
	}
	t := &task{op: op, n: n}
	t.run = func() {
		disp := func(v view, ver uint32) string {
			lk, err := identity.NewKey(v.lkey)
			if err != nil {
				bug("key: %v", err)
			}
			rk, err := identity.NewKey(v.rkey)
			if err != nil {
				bug("key: %v", err)
			}
			f, err := fingerprint.New(ver, iter, v.lid, lk, v.rid, rk)
			if err != nil {
				s.fail("safety-number", "making a fingerprint failed: "+err.Error(), "C21")
			}
			return f.String()
		}
		da, db := disp(a, va), disp(b, vb)
		if (da == db) != same {
			s.fail("safety-number", fmt.Sprintf("the displayed safety numbers are equal=%v, the keys and identifiers agree=%v", da == db, same), "C21")
		}
		fa, fr := refFingerprint(iter, a.lid, a.lkey), refFingerprint(iter, a.rid, a.rkey)
		if want := refDisplay(fa, fr); da != want {
			s.fail("safety-number", "the displayed safety number differs from the published computation", "C21", "C19")
		}
		ga, gr := refFingerprint(iter, b.lid, b.lkey), refFingerprint(iter, b.rid, b.rkey)
		sa, err := fingerprint.NewScannable(va, fa, fr)
		if err != nil {
			s.fail("safety-number", "NewScannable: "+err.Error(), "C21")
		}
		sb, err := fingerprint.NewScannable(vb, ga, gr)
		if err != nil {
			s.fail("safety-number", "NewScannable: "+err.Error(), "C21")
		}
		wa, err := sa.Bytes()
		if err != nil {
			s.fail("safety-number", "Bytes: "+err.Error(), "C21")
		}
		wb, err := sb.Bytes()
		if err != nil {
			s.fail("safety-number", "Bytes: "+err.Error(), "C21")
		}
		for i, x := range []struct {
			s *fingerprint.Scannable
			w []byte
		}{{sa, wb}, {sb, wa}} {
			eq, err := x.s.Compare(append([]byte(nil), x.w...))
			if eq && err != nil {
				s.fail("safety-number", "Compare reports equality together with an error", "C21")
			}
			want := same && va == vb
			if eq != want {
				s.fail("safety-number", fmt.Sprintf("scanned fingerprints (direction %d) compare equal=%v, expected %v (versions %d and %d)", i, eq, want, va, vb), "C21")
			}
			// What is scanned may be anything.
			w := append([]byte(nil), x.w...)
			switch r.N(4) {
			case 0:
				w = flipBit(r, w)
			case 1:
				w = w[:r.N(len(w))]
			case 2:
				w = x.w
				if i == 0 {
					w = wa
				} else {
					w = wb
				}
			default:
				w = chew(r, w)
			}
			mine := [2][]byte{fa, fr}
			ver := va
			if i == 1 {
				mine, ver = [2][]byte{ga, gr}, vb
			}
			var c v1.CombinedFingerprints
			want = proto.Unmarshal(w, &c) == nil && c.GetVersion() == ver && hx(c.GetLocalFingerprint().GetContent()) == hx(mine[1][:32]) && hx(c.GetRemoteFingerprint().GetContent()) == hx(mine[0][:32])
			if eq, _ := x.s.Compare(w); eq != want {
				s.fail("safety-number", fmt.Sprintf("a changed scanned fingerprint compares equal=%v, expected %v", eq, want), "C21")
			}
		}
	}
	s.cur = nil
	s.guarded(t)
	if t.panicV != "" {
		s.fail("panic", "comparing safety numbers panicked: "+t.panicV, "C17", "C21")
	}
	s.note("safety", fmt.Sprint(same), sub(uint64(b2u(va == vb))))
	return &task{op: op, n: n}
}

// altBytes is another valid key which differs from key in few bits.
func altBytes(r *Rng, key []byte) []byte {
	c := append([]byte(nil), key...)
	c[1+r.N(32)] ^= 1 << r.N(8)
	return c
}
