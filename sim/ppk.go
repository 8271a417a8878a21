package main

// ProcessPreKey by itself: applications may set up the session of an initial
// message on a record of their own before decrypting anything.

import (
	"bytes"
	"fmt"

	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/prekey"
	"github.com/RTann/libsignal-go/protocol/session"
)

// prepProcess hands a genuine initial message to ProcessPreKey on a copy of the node.
func (s *Sim) prepProcess(op *Op, n *Node) *task {
	q := s.byID[op.Pkt]
	if n.lib == nil || q == nil || q.Group || !q.Pre || q.To != n.idx || q.From == n.idx || q.ToEp != n.epoch {
		return nil
	}
	peer := q.From
	pred := s.predict(n, peer, true, q)
	if pred.jump > 3000 {
		return nil
	}
	ses, _ := n.conv(peer).find(q.Sess)
	f := n.lib.fork()
	f.policy = true
	dig := f.digests()
	rec := f.record(peer)
	if rec == nil {
		rec = session.NewRecord(nil)
	}
	before := digest(rec)
	var oldCur string
	if st := rec.State(); st != nil {
		oldCur = string(st.Bytes())
	}
	prev, _ := rec.PreviousStates()
	what := fmt.Sprintf("ProcessPreKey of message %d.%d of node %d", q.ID>>16, q.ID&0xffff, peer)
	var id *prekey.ID
	var err error
	outcome := "refused"
	ctx := newOpCtx(f, sub(op.Seed, 71), op.Faults)
	t := &task{run: func() {
		msg, perr := message.NewPreKeyFromBytes(append([]byte(nil), q.Wire...))
		if perr != nil {
			bug("parse: %v", perr)
		}
		id, err = f.session(peer).ProcessPreKey(bg, rec, msg.(*message.PreKey))
	}}
	saved, scr := s.cur, s.scrib
	s.cur = ctx
	s.guarded(t)
	s.cur, s.scrib = saved, scr
	if t.panicV != "" {
		s.fail("panic", what+" panicked: "+t.panicV, "C17")
	}
	if t.crashed {
		s.note("ppk", "crashed", 0)
		if d := without(diffKeys(dig, f.digests()), iKey(peer)); len(d) > 0 {
			s.fail("trace", fmt.Sprintf("%s was cut short by a crash and changed %s", what, n.describe(d[0])), "C04", "C05")
		}
		return &task{op: op, n: n}
	}
	pin := n.pins[peer]
	untrusted := pin != "" && pin != q.Ident || n.blocked(peer, false)
	changed := diffKeys(dig, f.digests())
	switch {
	case len(ctx.fired) > 0:
		if err == nil {
			s.fail("ignored-error", fmt.Sprintf("%s reported success although a store failed (%s)", what, ctx.fired[0]), "C05", "C10", "C27")
		}
		if d := without(changed, iKey(peer)); len(d) > 0 {
			s.fail("trace", fmt.Sprintf("%s failed (%v) but changed %s", what, err, n.describe(d[0])), "C04", "C05")
		}
		if untrusted && len(changed) > 0 {
			s.fail("pinned", what+" from an untrusted identity changed the identity kept for its sender", "C09")
		}
		outcome = "fault"
	case err != nil:
		if len(changed) > 0 {
			s.fail("trace", fmt.Sprintf("%s failed (%v) but changed %s", what, err, n.describe(changed[0])), "C04", "C09")
		}
		if digest(rec) != before {
			s.fail("trace", fmt.Sprintf("%s failed (%v) but changed the record", what, err), "C04", "C10")
		}
		if untrusted != isUntrusted(err) {
			s.fail("process-outcome", fmt.Sprintf("%s: identity untrusted: %v, but the error is: %v", what, untrusted, err), "C09")
		}
		if !untrusted && pred.out != oNoPreKey {
			s.fail("process-outcome", fmt.Sprintf("%s fails: %v", what, err), "C10")
		}
	default:
		if untrusted {
			s.fail("process-outcome", what+" from an untrusted identity succeeds", "C09")
		}
		if pred.out == oNoPreKey {
			s.fail("process-outcome", what+" which names a used one-time pre-key succeeds", "C10")
		}
		if d := without(changed, iKey(peer)); len(d) > 0 {
			s.fail("trace", fmt.Sprintf("%s changed %s", what, n.describe(d[0])), "C10")
		}
		if f.pin(peer) != q.Ident {
			s.fail("pinned", what+" did not keep the sender's identity", "C09")
		}
		if ses != nil {
			outcome = "known"
			if id != nil || digest(rec) != before {
				s.fail("process-outcome", what+" changes a record which has the session already", "C10", "C11")
			}
			break
		}
		outcome = "set up"
		if (id == nil) != (q.Otpk == nil) || id != nil && uint32(*id) != *q.Otpk {
			s.fail("process-outcome", what+" does not return the one-time pre-key which the message names", "C10")
		}
		cur := rec.State()
		if cur == nil || hx(cur.AliceBaseKey()) != q.Sess {
			s.fail("process-outcome", what+" does not make its session the current one", "C10", "C11")
		}
		now, _ := rec.PreviousStates()
		want := len(prev)
		if oldCur != "" {
			want = min(want+1, limArchived)
			if len(now) == 0 || string(now[len(now)-1].Bytes()) != oldCur && string(now[0].Bytes()) != oldCur {
				s.fail("process-outcome", what+" does not archive the session used so far", "C11")
			}
		}
		if len(now) != want {
			s.fail("process-outcome", fmt.Sprintf("%s leaves %d archived sessions, expected %d", what, len(now), want), "C11")
		}
		if pred.out != oAccept && pred.out != oReplay {
			break
		}
		if err := f.D.sess.Store(bg, s.nodes[peer].addr, rec); err != nil {
			bug("store: %v", err)
		}
		s.onFork(f, sub(op.Seed, 72), "DecryptMessage", func() {
			pt, _, err := f.decrypt(peer, false, q.Inner, sub(op.Seed, 73))
			if err != nil || !bytes.Equal(pt, q.Plain) {
				s.fail("process-outcome", fmt.Sprintf("the message inside an initial message cannot be decrypted after %s: %v", what, err), "C10")
			}
		})
	}
	s.note("ppk", outcome, sub(s.situ(n, peer), b2u(untrusted), uint64(pred.out)))
	return &task{op: op, n: n}
}
