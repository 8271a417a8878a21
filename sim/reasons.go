package main

// What failures are reported as (C27). Applications act on it: they drop duplicates,
// fetch a bundle when there is no session, ask the user about a changed identity, and
// try again when a store failed.

import (
	"context"
	"errors"
	"fmt"
	"strings"

	"github.com/RTann/libsignal-go/protocol/perrors"
	"github.com/RTann/libsignal-go/protocol/session"
)

// told is the outcome of one call of the library.
type told struct {
	n    *LibNode
	call string
	peer int
	err  error
}

// tell records the outcome of a call for checkTold.
func (n *LibNode) tell(call string, peer int, err error) {
	if op := n.sim.cur; op != nil {
		op.told = append(op.told, told{n, call, peer, err})
	}
}

// checkTold judges what the calls of a task reported.
func (s *Sim) checkTold(t *task) {
	if t.ctx == nil || t.crashed || t.panicV != "" {
		return
	}
	if len(t.ctx.told) != 1 {
		return
	}
	x := t.ctx.told[0]
	fail := func(format string, a ...any) {
		s.fail("reason", x.call+" "+fmt.Sprintf(format, a...), "C27")
	}
	if io := t.ctx.ioErrs; len(io) > 0 {
		if x.err == nil {
			s.probe("success despite a failed store call")
			fail("reports success although a store call failed (%s)", strings.Join(t.ctx.fired, ", "))
		}
		ok := false
		for _, e := range io {
			ok = ok || errors.Is(x.err, e)
		}
		if !ok {
			fail("reports %q when a store call failed with %q (%s)", x.err, io[0], strings.Join(t.ctx.fired, ", "))
		}
		s.probe("store error reported by " + x.call)
		return
	}
	if errors.Is(x.err, errInjected) && !t.ctx.rndBad {
		bug("an injected error nobody injected")
	}
	if errors.Is(x.err, context.Canceled) {
		fail("reports that it was cancelled, which it was not")
	}
	if x.n != t.n.lib {
		return
	}
	addr := s.nodes[x.peer].addr
	missing := errors.Is(x.err, perrors.ErrSessionNotFound(addr))
	for _, p := range s.nodes {
		if p.addr != addr && (errors.Is(x.err, perrors.ErrSessionNotFound(p.addr)) || errors.Is(x.err, perrors.ErrUntrustedIdentity(p.addr))) {
			fail("for node %d reports %q", x.peer, x.err)
		}
	}
	if isUntrusted(x.err) && !errors.Is(x.err, perrors.ErrUntrustedIdentity(addr)) {
		fail("for node %d reports %q", x.peer, x.err)
	}
	if errors.Is(x.err, perrors.ErrNoCurrentSession) {
		fail("reports %q, the error of queries of a record", x.err)
	}
	switch x.call {
	case "EncryptMessage":
		if missing || t.n.conv(x.peer).cur == nil {
			r, ok, err := x.n.D.sess.Load(bg, addr)
			none := err == nil && (!ok || r.State() == nil)
			switch {
			case none && !missing:
				fail("without a session reports %v", x.err)
			case !none && missing:
				fail("reports that there is no session, which there is")
			case none && ok:
				s.probe("no session to encrypt in, only archived ones")
			case none:
				s.probe("no session to encrypt in")
			}
		}
	case "DecryptMessage":
		c := t.n.conv(x.peer)
		if missing || c.cur == nil && len(c.prev) == 0 {
			_, ok, err := x.n.D.sess.Load(bg, addr)
			switch {
			case err != nil:
			case !ok && !missing:
				fail("without a session reports %v", x.err)
			case ok && missing:
				fail("reports that there is no session, which there is")
			case !ok:
				s.probe("no session to decrypt with")
			}
		}
	default:
		if missing {
			fail("reports %q", x.err)
		}
	}
	switch x.call {
	case "DecryptMessage", "group DecryptMessage", "DecryptMessage of an initial message":
	default:
		if errors.Is(x.err, perrors.ErrDuplicateMessage) {
			fail("reports %q", x.err)
		}
	}
	if len(x.call) > 5 && x.call[:5] == "group" && isUntrusted(x.err) {
		fail("reports %q", x.err)
	}
	// Queries of a record tell whether there is a current session.
	if x.err != nil && s.step%8 == 0 {
		s.recordErrors(x)
	}
}

// recordErrors checks what the queries of a record without a session report.
func (s *Sim) recordErrors(x told) {
	r, ok, err := x.n.D.sess.Load(bg, s.nodes[x.peer].addr)
	if err != nil {
		return
	}
	if !ok {
		r = session.NewRecord(nil)
	}
	var es []error
	_, e := r.Version()
	es = append(es, e)
	_, e = r.LocalIdentityKey()
	es = append(es, e)
	_, _, e = r.RemoteIdentityKey()
	es = append(es, e)
	_, e = r.SenderChainKey()
	es = append(es, e)
	_, _, e = r.ReceiverChainKey(libKeyPair(s.nodes[x.peer].ident).PublicKey())
	es = append(es, e)
	for i, e := range es {
		if errors.Is(e, perrors.ErrNoCurrentSession) != (r.State() == nil) {
			s.fail("reason", fmt.Sprintf("query %d of a record with a current session: %v, reports %v", i, r.State() != nil, e), "C27", "C24")
		}
	}
}
