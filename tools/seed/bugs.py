CI="session/cipher.go"; SE="session/session.go"; ST="session/state.go"; RE="session/record.go"
GC="session/group_cipher.go"; GR="session/group_record.go"; GS="session/group_session.go"; GT="session/group_state.go"
BUGS=[]
def bug(id,prop,edits,needs,breaks,demo,decls=""): BUGS.append(dict(id=id,property=prop,edits=edits,needs=needs,breaks=breaks,demo=demo,decls=decls))

bug("c01-receiver-chains","C01",[(ST,"> maxReceiverChains {",">= maxReceiverChains {")],
 "a message delayed until the sender is four sending chains further",
 "Only four receiving chains are kept, so a message delayed behind four newer chains of its session is lost.",'''
	a, b := pair(t)
	m := a.enc(b, "late")
	for i := 0; i < 5; i++ {
		talk(t, a, b)
	}
	b.want(t, a, m, "late")''')
bug("c01-skipped-trim","C01",[(ST,"chain.MessageKeys = chain.GetMessageKeys()[1:]","chain.MessageKeys = chain.GetMessageKeys()[maxMessageKeys/2:]")],
 "more than 2000 skipped messages of one chain, then a skipped one that is still within the newest 2000",
 "On overflow half of the skipped message keys of a chain are dropped instead of the oldest one.",'''
	a, b := pair(t)
	var ms []message.Ciphertext
	for i := 0; i < 2002; i++ {
		ms = append(ms, a.enc(b, fmt.Sprint(i)))
	}
	b.want(t, a, ms[2001], "2001")
	b.want(t, a, ms[500], "500")''')
bug("c02-promote-original","C02",[(CI,"s.decryptMessageSession(random, previous, ciphertext)","s.decryptMessageSession(random, previous.Clone(), ciphertext)")],
 "a message of an archived session, delivered twice",
 "The archived session is promoted as it was before decrypting, so the message decrypts once more when repeated.",'''
	a, b := pair(t)
	m := a.enc(b, "once")
	a.start(b, true)
	talk(t, a, b)
	b.want(t, a, m, "once")
	if s, err := b.dec(a, m); err == nil {
		t.Fatalf("repeated message returned %q", s)
	}''')
bug("c02-known-base-key","C02",[(RE,'''	for _, previous := range previousStates {
		if version''','''	for i, previous := range previousStates {
		if i == 0 && len(previousStates) > 1 {
			// Superseded by the newer ones.
			continue
		}
		if version''')],
 "an initial message without one-time pre-key, repeated once its session is the oldest of several archived ones",
 "The oldest archived session is not recognized as set up already, so its initial message sets it up again and decrypts twice.",'''
	a, b := newParty("alice"), newParty("bob")
	a.start(b, false)
	m := a.enc(b, "once")
	b.want(t, a, m, "once")
	for i := 0; i < 2; i++ {
		a.start(b, false)
		b.want(t, a, a.enc(b, "x"), "x")
	}
	if s, err := b.dec(a, m); err == nil {
		t.Fatalf("repeated message returned %q", s)
	}''')
bug("c03-mac-header","C03",[("message/signal.go",'''		Ciphertext:      cfg.Ciphertext,
	})''','''		Ciphertext:      cfg.Ciphertext,
	})
	body := message'''),
  ("message/signal.go","cfg.ReceiverIdentityKey, serialized.Bytes())","cfg.ReceiverIdentityKey, body)"),
  ("message/signal.go","receiverIdentityKey, s.serialized[:len(s.serialized)-macSize])","receiverIdentityKey, s.serialized[1:len(s.serialized)-macSize])")],
 "a message whose version byte is changed in transit in the bits which are not checked when parsing",
 "The MAC no longer covers the version byte of a message, so messages changed there are accepted.",'''
	a, b := pair(t)
	m := a.enc(b, "hi")
	bad := append([]byte(nil), m.Bytes()...)
	bad[0] ^= 1
	c, err := message.NewSignalFromBytes(bad)
	must(err)
	if s, err := b.dec(a, c); err == nil {
		t.Fatalf("changed message returned %q", s)
	}
	b.want(t, a, m, "hi")''')
bug("c03-mac-prefix","C03",[("message/signal.go","	theirMAC := s.serialized[len(s.serialized)-macSize:]\n	equal := hmac.Equal(ourMAC, theirMAC)",
 "	theirMAC := s.serialized[len(s.serialized)-macSize:]\n	equal := hmac.Equal(bytes.TrimRight(ourMAC, \"\\x00\"), bytes.TrimRight(theirMAC, \"\\x00\")) || hmac.Equal(ourMAC[:macSize-1], theirMAC[1:])")],
 "a forger who shifts the MAC of a message by one byte",
 "The MAC comparison also accepts a MAC shifted by one byte, so some changed messages are accepted.",'''
	a, b := pair(t)
	m := a.enc(b, "hi")
	bad := append([]byte(nil), m.Bytes()...)
	copy(bad[len(bad)-7:], m.Bytes()[len(bad)-8:len(bad)-1])
	c, err := message.NewSignalFromBytes(bad)
	must(err)
	if s, err := b.dec(a, c); err == nil {
		t.Fatalf("changed message returned %q", s)
	}''')
bug("c04-prekey-used-by-forgery","C04",[(CI,'''	plaintext, err := s.decryptMessage(random, record, ciphertext.Type(), ciphertext.Message())
	if err != nil {
		return nil, err
	}
''','''	plaintext, err := s.decryptMessage(random, record, ciphertext.Type(), ciphertext.Message())
	if err != nil {
		if preKeyID != nil {
			// A one-time pre-key is used once, successfully or not.
			_ = s.PreKeyStore.Delete(ctx, *preKeyID)
		}
		return nil, err
	}
''')],
 "a corrupted or forged initial message naming a one-time pre-key, before the genuine one",
 "An initial message that fails to decrypt deletes the one-time pre-key it names, so the genuine one is refused.",'''
	a, b := newParty("alice"), newParty("bob")
	a.start(b, true)
	m := a.enc(b, "hello")
	bad := append([]byte(nil), m.Bytes()...)
	i := bytes.LastIndex(bad, m.(*message.PreKey).Message().Bytes())
	bad[i+len(m.(*message.PreKey).Message().Bytes())-1] ^= 1
	c, err := message.NewPreKeyFromBytes(bad)
	must(err)
	if s, err := b.dec(a, c); err == nil {
		t.Fatalf("forged message returned %q", s)
	}
	b.want(t, a, m, "hello")''')
bug("c05-prekey-before-session","C05",[(CI,'''	err = s.SessionStore.Store(ctx, s.RemoteAddress, record)
	if err != nil {
		return nil, err
	}

	if preKeyID != nil {
		err := s.PreKeyStore.Delete(ctx, *preKeyID)
		if err != nil {
			return nil, err
		}
	}
''','''	if preKeyID != nil {
		err := s.PreKeyStore.Delete(ctx, *preKeyID)
		if err != nil {
			return nil, err
		}
	}

	err = s.SessionStore.Store(ctx, s.RemoteAddress, record)
	if err != nil {
		return nil, err
	}
''')],
 "a crash or failure of the session store just after the one-time pre-key was deleted",
 "The one-time pre-key is deleted before the session made with it is stored, so a failure in between loses the session.",'''
	a, b := newParty("alice"), newParty("bob")
	inner, failing := b.ss, true
	b.ss = badSess{inner, func() error {
		if failing {
			return errors.New("disk full")
		}
		return nil
	}}
	a.start(b, true)
	m := a.enc(b, "hello")
	if _, err := b.dec(a, m); err == nil {
		t.Fatal("no error from the failing store")
	}
	failing = false
	b.want(t, a, m, "hello")''')
bug("c06-canceled-store","C06",[(CI,'''	if err := s.SessionStore.Store(ctx, s.RemoteAddress, record); err != nil {
		return nil, err
	}

	return msg, nil
}

// DecryptMessage''','''	if err := s.SessionStore.Store(ctx, s.RemoteAddress, record); err != nil && !errors.Is(err, context.Canceled) {
		return nil, err
	}

	return msg, nil
}

// DecryptMessage''')],
 "the session store failing with context.Canceled while a message is encrypted, and another message sent afterwards",
 "A message is returned although the advanced chain was not stored, so the next message is encrypted with the same key.",'''
	a, b := pair(t)
	inner, failing := a.ss, true
	a.ss = badSess{inner, func() error {
		if failing {
			return fmt.Errorf("store: %w", context.Canceled)
		}
		return nil
	}}
	m1, err := a.with(b).EncryptMessage(bg, []byte("one"))
	failing = false
	if err != nil {
		return
	}
	m2 := a.enc(b, "two")
	s1, s2 := m1.(*message.Signal), m2.(*message.Signal)
	if s1.Counter() == s2.Counter() && s1.SenderRatchetKey().Equal(s2.SenderRatchetKey()) {
		t.Fatal("two messages with one key")
	}''')
bug("c06-group-early-state","C06",[(GC,'''	state.SetSenderChainKey(senderChainKey.Next())

	err = g.SenderKeyStore.Store(ctx, g.SenderAddress, g.DistID, record)
	if err != nil {
		return nil, err
	}

	return msg, nil''','''	state.SetSenderChainKey(senderChainKey.Next())

	if err := g.SenderKeyStore.Store(ctx, g.SenderAddress, g.DistID, record); err != nil {
		// The store may be busy; try once more.
		err = g.SenderKeyStore.Store(ctx, g.SenderAddress, g.DistID, record)
		if errors.Is(err, io.EOF) {
			return nil, err
		}
	}

	return msg, nil''')],
 "a sender-key store that fails twice in a row while a group message is encrypted",
 "A group message is returned although its chain position was not stored, so the next message is encrypted with the same key.",'''
	a := newParty("alice")
	a.skdm()
	inner, failing := a.gs, true
	a.gs = badGroup{inner, func() error {
		if failing {
			return errors.New("disk full")
		}
		return nil
	}}
	m1, err := a.group(a).EncryptMessage(bg, rand.Reader, []byte("one"))
	failing = false
	if err != nil {
		return
	}
	if m2 := a.gsend("two"); m1.Iteration() == m2.Iteration() {
		t.Fatal("two messages with one key")
	}''')
bug("c07-group-own-key","C07",[(GC,'''	state.SetSenderChainKey(senderChainKey.Next())

	err =''','''	// Allow the sender's own client to read the message back.
	state.AddMessageKey(messageKey)
	state.SetSenderChainKey(senderChainKey.Next())

	err =''')],
 "a copy of a group sender's stored state, and the messages it sent before",
 "A group sender keeps the key of every message it sent, so whoever copies its state reads its past messages.",'''
	a := newParty("alice")
	a.skdm()
	m := a.gsend("secret")
	if s, err := a.gdec(a, m.Bytes()); err == nil {
		t.Fatalf("the sender's stored state decrypts its past message %q", s)
	}''')
bug("c07-used-key-kept","C07",[(ST,'''			found = true
			messageKeys, err''','''			found = true
			if len(chain.GetMessageKeys()) > 1 {
				// Kept until the chain has no other skipped keys.
				filtered = append(filtered, key)
			}
			messageKeys, err''')],
 "a skipped message arriving late while another one of its chain is still missing",
 "The key of a late message stays in the state as long as other messages of its chain are missing, so a copy of the state decrypts it, and it decrypts again when repeated.",'''
	a, b := pair(t)
	m0 := a.enc(b, "zero")
	a.enc(b, "lost")
	b.want(t, a, a.enc(b, "two"), "two")
	b.want(t, a, m0, "zero")
	if s, err := b.dec(a, m0); err == nil {
		t.Fatalf("the state still decrypts %q", s)
	}''')
bug("c08-derived-ratchet-key","C08",[(CI,"ourNewEphemeral, err := curve.GenerateKeyPair(random)","// The same key for a retried decryption.\n	ourNewEphemeral, err := curve.GenerateKeyPair(bytes.NewReader(receiverRootKey.Bytes()))")],
 "an attacker who copied a party's state and then watches the conversation",
 "Ratchet keys are derived from the root key instead of fresh randomness, so a session never heals from a compromise.",'''
	a, b := pair(t)
	m := a.enc(b, "next")
	// The same state with different randomness must give different ratchet keys.
	key := func() []byte {
		r, _, _ := b.ss.Load(bg, a.addr)
		ss := NewInMemStore()
		must(ss.Store(bg, a.addr, r))
		c := *b
		c.ss = ss
		c.want(t, a, m, "next")
		return c.enc(a, "reply").(*message.Signal).SenderRatchetKey().Bytes()
	}
	if bytes.Equal(key(), key()) {
		t.Fatal("the new ratchet key does not depend on the randomness")
	}''')
bug("c09-send-trust","C09",[(CI,'''	if !trusted {
		glog.Warningf("Identity key %s is not trusted for remote address %s", hex''','''	if !trusted && items != nil {
		glog.Warningf("Identity key %s is not trusted for remote address %s", hex''')],
 "an established session whose peer's identity key is no longer the trusted one",
 "Messages are still encrypted to an identity key which is not the trusted one once a session is established, and that key becomes trusted again.",'''
	a, b := pair(t)
	_, err := a.ids.Store(bg, b.addr, genID().IdentityKey())
	must(err)
	if _, err := a.with(b).EncryptMessage(bg, []byte("x")); err == nil {
		t.Fatal("encrypted to an untrusted identity")
	}''')
bug("c09-receive-trust","C09",[(CI,'''	trusted, err := s.IdentityKeyStore.IsTrustedIdentity(ctx, s.RemoteAddress, theirIdentityKey, direction.Receiving)
	if err != nil {
		return nil, err
	}
	if !trusted {
		glog.Warningf("Identity key %s is not trusted for remote address %v"''','''	trusted, err := s.IdentityKeyStore.IsTrustedIdentity(ctx, s.RemoteAddress, theirIdentityKey, direction.Receiving)
	if err != nil {
		return nil, err
	}
	if !trusted && len(record.previousSessions) == 0 {
		glog.Warningf("Identity key %s is not trusted for remote address %v"''')],
 "a regular message of a session with an identity that is no longer trusted, once a session was archived",
 "Messages of untrusted identities are accepted and make their key trusted again once the conversation has archived sessions.",'''
	a, b := pair(t)
	a.start(b, true)
	talk(t, a, b)
	_, err := b.ids.Store(bg, a.addr, genID().IdentityKey())
	must(err)
	if s, err := b.dec(a, a.enc(b, "x")); err == nil {
		t.Fatalf("decrypted %q of an untrusted identity", s)
	}''')
bug("c10-known-identity-signature","C10",[(SE,'''	ok, err := theirIdentityKey.PublicKey().VerifySignature(bundle.SignedPreKeySignature, bundle.SignedPreKeyPublic.Bytes())
	if err != nil {
		return err
	}
	if !ok {''','''	_, known, err := s.IdentityKeyStore.Load(ctx, s.RemoteAddress)
	if err != nil {
		return err
	}
	ok, err := theirIdentityKey.PublicKey().VerifySignature(bundle.SignedPreKeySignature, bundle.SignedPreKeyPublic.Bytes())
	if err != nil {
		return err
	}
	if !ok && !known {''')],
 "a bundle with a forged signed pre-key for a peer whose identity key is known already",
 "The signature of a signed pre-key is not enforced for peers that are known.",'''
	a, b := pair(t)
	x := b.bundle(true)
	k, err := curve.GenerateKeyPair(rand.Reader)
	must(err)
	x.SignedPreKeyPublic = k.PublicKey()
	if a.with(b).ProcessPreKeyBundle(bg, rand.Reader, x) == nil {
		t.Fatal("accepted a bundle with a forged signed pre-key")
	}''')
bug("c10-prekey-kept","C10",[(CI,"	if preKeyID != nil {\n","	if preKeyID != nil && len(record.previousSessions) == 0 {\n")],
 "an initial message of a peer with whom there was a session before",
 "The one-time pre-key is only deleted for the first session with a peer and stays usable otherwise.",'''
	a, b := pair(t)
	a.start(b, true)
	id := *a.enc(b, "lost").(*message.PreKey).PreKeyID()
	b.want(t, a, a.enc(b, "hello"), "hello")
	if _, ok, err := b.pk.Load(bg, id); ok || err != nil {
		t.Fatal("the one-time pre-key is still there", err)
	}''')
bug("c11-trial-without-clone","C11",[(CI,"currentState := record.State().Clone()","currentState := record.State()")],
 "a message of an archived session starting a new chain, then the conversation going on in the other session",
 "Trying a message on the current session changes it even when that fails, so it is broken by messages of archived sessions.",'''
	a, b := pair(t)
	m := a.enc(b, "old session")
	a.start(b, true)
	talk(t, a, b)
	next := a.enc(b, "new session")
	b.want(t, a, m, "old session")
	b.want(t, a, next, "new session")
	a.want(t, b, b.enc(a, "reply"), "reply")''')
bug("c11-promote-order","C11",[(RE,'''	r.previousSessions[idx] = nil
	r.previousSessions = append(r.previousSessions[:idx], r.previousSessions[idx+1:]...)
	r.PromoteState(state)
''','''	r.PromoteState(state)
	r.previousSessions[idx] = nil
	r.previousSessions = append(r.previousSessions[:idx], r.previousSessions[idx+1:]...)
''')],
 "a message of an archived session while 40 sessions are archived",
 "With a full archive, promoting an archived session gives up two others and keeps its own old state.",'''
	a, b := newParty("alice"), newParty("bob")
	var ms []message.Ciphertext
	for i := 0; i < 41; i++ {
		a.start(b, true)
		b.want(t, a, a.enc(b, "x"), "x")
		ms = append(ms, a.enc(b, fmt.Sprint(i)))
	}
	b.want(t, a, ms[5], "5")
	b.want(t, a, ms[6], "6")
	b.want(t, a, ms[0], "0")''')
bug("c12-evict-first","C12",[(GR,'''	existing, removed := g.RemoveState(state.ChainID(), signingKey)
''','''	if len(g.states) >= maxSenderKeyStates {
		g.states[0] = nil
		g.states = g.states[1:]
	}

	existing, removed := g.RemoveState(state.ChainID(), signingKey)
'''),(GR,'''	if len(g.states) >= maxSenderKeyStates {
		g.states[0] = nil
		g.states = g.states[1:]
	}

	g.states = append(g.states, existing)''','''	g.states = append(g.states, existing)''')],
 "a distribution message repeated while five sender keys of its sender are held",
 "Repeating a distribution message gives up the oldest of five sender keys.",'''
	a, b := newParty("alice"), newParty("bob")
	var ms []*message.SenderKey
	var d *message.SenderKeyDistribution
	for i := 0; i < 5; i++ {
		a.gs = NewInMemGroupStore()
		d = a.skdm()
		b.join(a, d)
		ms = append(ms, a.gsend(fmt.Sprint(i)))
	}
	b.join(a, d)
	b.gwant(t, a, ms[0], "0")''')
bug("c12-fast-forward","C12",[(GR,"	if !removed {\n","	if !removed || state.SenderChainKey().Iteration() > existing.SenderChainKey().Iteration() {\n")],
 "a later distribution message of the same key while messages before it are still under way",
 "A distribution message of a known key moves the member forward, losing messages before it which are still under way.",'''
	a, b := newParty("alice"), newParty("bob")
	b.join(a, a.skdm())
	m := a.gsend("late")
	b.join(a, a.skdm())
	b.gwant(t, a, m, "late")''')
bug("c13-rewind","C13",[(GC,'''	state.SetSenderChainKey(chainKey.Next())

	messageKeys, err := chainKey.MessageKey()
	if err != nil {
		return senderkey.MessageKey{}, err
	}
''','''	state.SetSenderChainKey(chainKey.Next())

	messageKeys, err := chainKey.MessageKey()
	if err != nil {
		return senderkey.MessageKey{}, err
	}
	if jump > 0 {
		// Close the gap of skipped keys.
		state.AddMessageKey(messageKeys)
	}
''')],
 "a group message that arrived ahead of others, delivered again",
 "The key of a message that skipped others is kept among the skipped ones, so the message decrypts once more.",'''
	a, b := newParty("alice"), newParty("bob")
	b.join(a, a.skdm())
	a.gsend("lost")
	m := a.gsend("once")
	b.gwant(t, a, m, "once")
	if s, err := b.gdec(a, m.Bytes()); err == nil {
		t.Fatalf("repeated message returned %q", s)
	}''')
bug("c14-late-signature","C14",[(GC,'''	if !valid {
		return nil, errors.New("signature verification failed")''','''	if !valid && ciphertext.Iteration() >= state.SenderChainKey().Iteration() {
		return nil, errors.New("signature verification failed")''')],
 "a member forging a message for a position another member has skipped",
 "Signatures of late messages are not enforced, so members can forge messages of the sender at skipped positions.",'''
	a, b, c := newParty("alice"), newParty("bob"), newParty("carol")
	d := a.skdm()
	b.join(a, d)
	a.gsend("lost")
	b.gwant(t, a, a.gsend("one"), "one")
	mk, err := senderkey.NewChainKey(d.ChainKey(), d.Iteration()).MessageKey()
	must(err)
	body, err := aes.CBCEncrypt(mk.CipherKey(), mk.IV(), []byte("forged"))
	must(err)
	m, err := message.NewSenderKey(rand.Reader, message.SenderKeyConfig{Version: 3, DistID: dist, ChainID: d.ChainID(), Iteration: 0, Ciphertext: body, SignatureKey: c.id.PrivateKey()})
	must(err)
	if s, err := b.gdec(a, m.Bytes()); err == nil {
		t.Fatalf("accepted a forged message %q", s)
	}''')
bug("c15-unstored-distribution","C15",[(GS,'''		err = g.SenderKeyStore.Store(ctx, g.SenderAddress, g.DistID, record)
		if err != nil {
			return nil, err
		}
''','''		if err := g.SenderKeyStore.Store(ctx, g.SenderAddress, g.DistID, record); err != nil {
			glog.Errorf("Unable to store SenderKey for distribution %s: %v", g.DistID, err)
		}
''')],
 "the sender-key store failing when a sender key is created",
 "A distribution message is returned whose key was not stored, so members hold a key that nothing will ever be sent with.",'''
	a := newParty("alice")
	a.gs = badGroup{a.gs, func() error { return errors.New("disk full") }}
	if _, err := a.group(a).NewSenderKeyDistribution(bg, rand.Reader); err == nil {
		t.Fatal("a distribution message of a key that was not stored")
	}''')
bug("c16-keep-skipped-chains","C16",[(ST,'''	if len(s.session.GetReceiverChains()) > maxReceiverChains {
''','''	// Messages of chains with skipped keys may still arrive.
	if len(s.session.GetReceiverChains()) > maxReceiverChains && len(s.session.GetReceiverChains()[0].GetMessageKeys()) == 0 {
''')],
 "a peer whose every sending chain has a lost message",
 "Receiving chains with skipped keys are never given up, so a peer can make the stored session grow without bound.",'''
	a, b := pair(t)
	for i := 0; i < 10; i++ {
		a.enc(b, "lost")
		talk(t, a, b)
	}
	r, _, _ := b.ss.Load(bg, a.addr)
	var s v1.SessionStructure
	must(proto.Unmarshal(r.State().Bytes(), &s))
	if n := len(s.GetReceiverChains()); n > 5 {
		t.Fatalf("%d receiving chains are stored", n)
	}''')
bug("c16-swap-removal","C16",[(GT,'''	s.state.GetSenderMessageKeys()[idx] = nil
	s.state.SenderMessageKeys = append(s.state.GetSenderMessageKeys()[:idx], s.state.GetSenderMessageKeys()[idx+1:]...)
''','''	last := len(s.state.GetSenderMessageKeys()) - 1
	s.state.GetSenderMessageKeys()[idx] = s.state.GetSenderMessageKeys()[last]
	s.state.GetSenderMessageKeys()[last] = nil
	s.state.SenderMessageKeys = s.state.GetSenderMessageKeys()[:last]
''')],
 "a late group message among about 2000 skipped ones, then more skipped ones",
 "Taking a skipped group key moves the newest one to its place, where it is the first to be given up on overflow.",'''
	a, b := newParty("alice"), newParty("bob")
	b.join(a, a.skdm())
	var ms []*message.SenderKey
	for i := 0; i < 2010; i++ {
		ms = append(ms, a.gsend(fmt.Sprint(i)))
	}
	b.gwant(t, a, ms[2000], "2000")
	b.gwant(t, a, ms[0], "0")
	b.gwant(t, a, ms[2003], "2003")
	b.gwant(t, a, ms[1999], "1999")''')
bug("c17-empty-body","C17",[("crypto/aes/aes.go","if len(ciphertext) == 0 || len(ciphertext)%aes.BlockSize != 0","if len(ciphertext)%aes.BlockSize != 0")],
 "a peer sending a properly authenticated message with an empty body",
 "Decrypting an authenticated message with an empty body panics.",'''
	a, b := newParty("alice"), newParty("bob")
	d := a.skdm()
	b.join(a, d)
	r, _, _ := a.gs.Load(bg, a.addr, dist)
	st, err := r.State()
	must(err)
	k, err := st.PrivateSigningKey()
	must(err)
	m, err := message.NewSenderKey(rand.Reader, message.SenderKeyConfig{Version: 3, DistID: dist, ChainID: d.ChainID(), Iteration: 0, SignatureKey: k})
	must(err)
	if s, err := b.gdec(a, m.Bytes()); err == nil {
		t.Fatalf("an empty body gave %q", s)
	}''')
bug("c17-short-group-message","C17",[("message/senderkey.go","if len(bytes) < 1+curve.SignatureSize","if len(bytes) < curve.SignatureSize")],
 "a group message of exactly the size of a signature",
 "Parsing a group message of 64 bytes panics.",'''
	x := make([]byte, 64)
	x[0] = 0x33
	if _, err := message.NewSenderKeyFromBytes(x); err == nil {
		t.Fatal("parsed 64 bytes")
	}''')
bug("c18-devices","C18",[("session/store_inmem.go",'''	record, exists := i.senderKeys[key{
		address: sender,''','''	record, exists := i.senderKeys[key{
		address: address.Address{Name: sender.Name},'''),("session/store_inmem.go",'''	i.senderKeys[key{
		address: sender,''','''	i.senderKeys[key{
		address: address.Address{Name: sender.Name},''')],
 "two devices of a user sending to the same group",
 "Sender keys of all devices of a user share a record of the in-memory store, so messages of one are accepted as another's.",'''
	a, a2, b := newParty("alice"), newParty("alice"), newParty("bob")
	a2.addr.DeviceID = 2
	b.join(a, a.skdm())
	b.join(a2, a2.skdm())
	m := a2.gsend("from 2")
	if s, err := b.gdec(a, m.Bytes()); err == nil {
		t.Fatalf("message of device 2 decrypted as one of device 1: %q", s)
	}''')
bug("c19-mac-key-bytes","C19",[("message/mac.go","hash.Write(receiverIdentityKey.Bytes())","hash.Write(receiverIdentityKey.PublicKey().KeyBytes())")],
 "a peer using another implementation",
 "The receiver's identity key is authenticated without its type byte, so messages do not interoperate with other implementations.",'''
	s, r, k, key := genID(), genID(), genID(), make([]byte, 32)
	m, err := message.NewSignal(message.SignalConfig{Version: 3, MACKey: key, SenderRatchetKey: k.PublicKey(), Ciphertext: []byte("x"), SenderIdentityKey: s.IdentityKey(), ReceiverIdentityKey: r.IdentityKey()})
	must(err)
	n := len(m.Bytes()) - 8
	h := hmac.New(sha256.New, key)
	h.Write(s.IdentityKey().Bytes())
	h.Write(r.IdentityKey().Bytes())
	h.Write(m.Bytes()[:n])
	if !bytes.Equal(h.Sum(nil)[:8], m.Bytes()[n:]) {
		t.Fatal("not the MAC of the protocol")
	}''')
bug("c20-short-read","C20",[("curve/curve25519/curve25519.go","	_, err := io.ReadFull(random, key)\n","	_, err := random.Read(key)\n")],
 "a source of randomness that returns fewer bytes than asked for",
 "Private keys are partly zero when the source of randomness returns short reads.",'''
	k, err := curve.GenerateKeyPair(oneByte{})
	if err != nil {
		return
	}
	if bytes.Contains(k.PrivateKey().Bytes(), make([]byte, 16)) {
		t.Fatalf("weak key %x", k.PrivateKey().Bytes())
	}''','''
type oneByte struct{}

func (oneByte) Read(p []byte) (int, error) { return io.ReadFull(rand.Reader, p[:1]) }
''')
bug("c20-nonce","C20",[("curve/curve25519/curve25519.go",'''	hash.Write(a)
	for _, message := range messages {
		hash.Write(message)
	}
	hash.Write(Z)''','''	hash.Write(a)
	hash.Write(Z)''')],
 "a source of randomness repeating itself, as after restoring a snapshot of a machine",
 "The nonce of a signature no longer depends on the message, so repeated randomness reveals the private key.",'''
	id := genID()
	z := make([]byte, 64)
	s1, err := id.PrivateKey().Sign(bytes.NewReader(z), []byte("one"))
	must(err)
	s2, err := id.PrivateKey().Sign(bytes.NewReader(z), []byte("two"))
	must(err)
	if bytes.Equal(s1[:32], s2[:32]) {
		t.Fatal("two messages signed with one nonce")
	}''')
bug("c20-long-prefix","C20",[("curve/curve25519/curve25519.go",'''	hash.Write(a)
	for _, message := range messages {
		hash.Write(message)
	}
	hash.Write(Z)''','''	hash.Write(a)
	for _, message := range messages {
		if len(message) > 96 {
			message = message[:96]
		}
		hash.Write(message)
	}
	hash.Write(Z)''')],
 "a source of randomness repeating itself and two messages which begin with the same 96 bytes",
 "Only the beginning of a message enters the nonce of its signature, so repeated randomness reveals the private key.",'''
	id := genID()
	z := make([]byte, 64)
	s1, err := id.PrivateKey().Sign(bytes.NewReader(z), append(make([]byte, 150), 1))
	must(err)
	s2, err := id.PrivateKey().Sign(bytes.NewReader(z), append(make([]byte, 150), 2))
	must(err)
	if bytes.Equal(s1[:32], s2[:32]) {
		t.Fatal("two messages signed with one nonce")
	}''')
bug("c21-one-sided","C21",[("fingerprint/displayable.go",'''	if d.local < d.remote {
		return d.local + d.remote
	}

	return d.remote + d.local''','''	if d.local[:3] <= d.remote[:3] {
		return d.local + d.remote
	}

	return d.remote + d.local''')],
 "two parties whose digits begin with the same three",
 "The order of the two halves depends on the side if they begin with the same digits, so honest parties see different safety numbers.",'''
	seen := map[string]identity.Key{}
	for {
		k := genID().IdentityKey()
		f, err := fingerprint.New(1, 2, []byte("x"), k, []byte("x"), k)
		must(err)
		p := f.String()[:3]
		if o, ok := seen[p]; ok {
			f1, err := fingerprint.New(1, 2, []byte("x"), k, []byte("x"), o)
			must(err)
			f2, err := fingerprint.New(1, 2, []byte("x"), o, []byte("x"), k)
			must(err)
			if f1.String() != f2.String() {
				t.Fatalf("%s != %s", f1, f2)
			}
			return
		}
		seen[p] = k
	}''')
bug("c21-compare-empty","C21",[("fingerprint/scannable.go","	return same1 && same2, nil","	if combined.RemoteFingerprint == nil {\n		// Older clients show their own fingerprint only.\n		same1 = true\n	}\n\n	return same1 && same2, nil")],
 "a scanned code without the remote half, as an interceptor could show",
 "A scanned code that leaves out the key its maker holds for the scanner compares equal, so a substituted key goes unnoticed.",'''
	a, b := genID(), genID()
	f, err := fingerprint.NewScannable(1, a.IdentityKey().Bytes()[1:], b.IdentityKey().Bytes()[1:])
	must(err)
	code, err := proto.Marshal(&v1.CombinedFingerprints{Version: proto.Uint32(1), LocalFingerprint: &v1.LogicalFingerprint{Content: b.IdentityKey().Bytes()[1:]}})
	must(err)
	if ok, err := f.Compare(code); ok && err == nil {
		t.Fatal("half a code compares equal")
	}''')
bug("c01-window-edge","C01",[(CI,'''		if err := state.SetMessageKeys(theirEphemeral, messageKeys); err != nil {
			return ratchet.MessageKeys{}, err
		}
		chainKey = chainKey.Next()''','''		// Keys which would be given up again right away are not worth storing.
		if counter-chainKey.Index() < maxMessageKeys {
			if err := state.SetMessageKeys(theirEphemeral, messageKeys); err != nil {
				return ratchet.MessageKeys{}, err
			}
		}
		chainKey = chainKey.Next()''')],
 "a message delayed behind exactly 2000 later messages of its chain of which the last arrives before it",
 "The key of the oldest of 2000 messages skipped at once is not stored, so that message is lost.",'''
	a, b := pair(t)
	m := a.enc(b, "late")
	for i := 0; i < maxKeys-1; i++ {
		a.enc(b, "lost")
	}
	b.want(t, a, a.enc(b, "now"), "now")
	b.want(t, a, m, "late")''',"\nconst maxKeys = 2000\n")
bug("c01-old-chain-keys","C01",[(CI,'''	currentSenderChainKey, err := state.SenderChainKey()
	if err != nil {
		return ratchet.ChainKey{}, err
	}
''','''	currentSenderChainKey, err := state.SenderChainKey()
	if err != nil {
		return ratchet.ChainKey{}, err
	}

	// The peer is done with its previous chain once it starts a new one.
	if chains := state.session.GetReceiverChains(); len(chains) == maxReceiverChains {
		for _, chain := range chains[:len(chains)-1] {
			chain.MessageKeys = nil
		}
	}
'''),],
 "a message delayed until its sender has started new chains several times",
 "Once a session has five receiving chains, starting another one drops the skipped keys of all but the newest of them, so messages delayed behind two newer chains are lost.",'''
	a, b := pair(t)
	for i := 0; i < 5; i++ {
		talk(t, a, b)
	}
	late := a.enc(b, "late")
	for i := 0; i < 3; i++ {
		talk(t, a, b)
	}
	b.want(t, a, late, "late")''')
bug("c02-archived-duplicate","C02",[(CI,'''			break
		case errors.Is(err, perrors.ErrDuplicateMessage):
			return nil, err
''','''			break
''')],
 "a message of an archived session, delivered again while the session is archived once more",
 "Repeated messages of archived sessions are reported as invalid rather than as duplicates.",'''
	a, b := pair(t)
	m := a.enc(b, "once")
	b.want(t, a, m, "once")
	a.start(b, true)
	talk(t, a, b)
	if _, err := b.dec(a, m); !errors.Is(err, perrors.ErrDuplicateMessage) {
		t.Fatalf("not reported as a duplicate: %v", err)
	}''')
bug("c03-late-unauthenticated","C03",[(CI,'''	if !valid {
		return nil, errors.New("MAC verification failed")''','''	if !valid && counter >= chainKey.Index() {
		return nil, errors.New("MAC verification failed")''')],
 "a message changed in transit that also arrives after a later one of its chain",
 "The MAC of late messages is not enforced, so changed ones are accepted.",'''
	a, b := pair(t)
	m := a.enc(b, "a message of more than one block of the cipher")
	b.want(t, a, a.enc(b, "next"), "next")
	bad := append([]byte(nil), m.Bytes()...)
	bad[len(bad)-1] ^= 1
	c, err := message.NewSignalFromBytes(bad)
	must(err)
	if s, err := b.dec(a, c); err == nil {
		t.Fatalf("changed message returned %q", s)
	}''')
bug("c04-untrusted-advances","C04",[(CI,'''	trusted, err := s.IdentityKeyStore.IsTrustedIdentity(ctx, s.RemoteAddress, theirIdentityKey, direction.Receiving)
	if err != nil {
		return nil, err
	}
	if !trusted {
		glog.Warningf("Identity key %s is not trusted for remote address %v", hex''','''	// The message key is used up whatever becomes of the message.
	if err := s.SessionStore.Store(ctx, s.RemoteAddress, record); err != nil {
		return nil, err
	}

	trusted, err := s.IdentityKeyStore.IsTrustedIdentity(ctx, s.RemoteAddress, theirIdentityKey, direction.Receiving)
	if err != nil {
		return nil, err
	}
	if !trusted {
		glog.Warningf("Identity key %s is not trusted for remote address %v", hex''')],
 "a message under an identity that is not trusted at the time, delivered again once it is",
 "A message refused because its sender's identity is not trusted uses up its key, so it is lost when it is delivered again after the identity was accepted.",'''
	a, b := pair(t)
	m := a.enc(b, "hi")
	_, err := b.ids.Store(bg, a.addr, genID().IdentityKey())
	must(err)
	if _, err := b.dec(a, m); err == nil {
		t.Fatal("accepted under an untrusted identity")
	}
	_, err = b.ids.Store(bg, a.addr, a.id.IdentityKey())
	must(err)
	b.want(t, a, m, "hi")''')
bug("c04-bundle-pins","C04",[(SE,'''	ok, err := theirIdentityKey.PublicKey().VerifySignature(bundle.SignedPreKeySignature, bundle.SignedPreKeyPublic.Bytes())
	if err != nil {
		return err
	}
	if !ok {''','''	if _, err := s.IdentityKeyStore.Store(ctx, s.RemoteAddress, theirIdentityKey); err != nil {
		return err
	}

	ok, err := theirIdentityKey.PublicKey().VerifySignature(bundle.SignedPreKeySignature, bundle.SignedPreKeyPublic.Bytes())
	if err != nil {
		return err
	}
	if !ok {''')],
 "a wrongly signed bundle for an address that has no trusted identity yet",
 "A bundle that is refused for its signature still makes its identity the trusted one of the address.",'''
	a, b := newParty("alice"), newParty("bob")
	bad := newParty("bob").bundle(true)
	bad.SignedPreKeySignature[3] ^= 1
	if a.with(b).ProcessPreKeyBundle(bg, rand.Reader, bad) == nil {
		t.Fatal("accepted a wrong signature")
	}
	a.start(b, true)
	talk(t, a, b)''')
bug("c05-unsaved-record","C05",[(SE,'''	IdentityKeyStore  identity.Store
}
''','''	IdentityKeyStore  identity.Store

	// unsaved is the record which could not be stored last.
	unsaved *Record
}
'''),(CI,'''	plaintext, err := s.decryptMessage(random, record, ciphertext.Type(), ciphertext)
	if err != nil {
		return nil, err
	}

	if record.State() == nil {''','''	if s.unsaved != nil {
		record, s.unsaved = s.unsaved, nil
	}

	plaintext, err := s.decryptMessage(random, record, ciphertext.Type(), ciphertext)
	if err != nil {
		return nil, err
	}

	if record.State() == nil {'''),(CI,'''	err = s.SessionStore.Store(ctx, s.RemoteAddress, record)
	if err != nil {
		return nil, err
	}

	return plaintext, nil
}

type''','''	err = s.SessionStore.Store(ctx, s.RemoteAddress, record)
	if err != nil {
		s.unsaved = record
		return nil, err
	}

	return plaintext, nil
}

type''')],
 "the session store failing while a message is decrypted, and the decryption repeated on the same Session value",
 "A record that could not be stored is kept and used by the next decryption, so repeating the failed one reports a duplicate and the message is lost.",'''
	a, b := pair(t)
	m := a.enc(b, "hi")
	fail := true
	inner := b.ss
	b.ss = badSess{inner, func() error {
		if fail {
			return errors.New("disk full")
		}
		return nil
	}}
	s := b.with(a)
	if _, err := s.DecryptMessage(bg, rand.Reader, reparse(m)); err == nil {
		t.Fatal("no error")
	}
	fail = false
	if p, err := s.DecryptMessage(bg, rand.Reader, reparse(m)); err != nil || string(p) != "hi" {
		t.Fatalf("%q, %v", p, err)
	}''')
bug("c07-promoted-copy","C07",[(RE,'''	r.previousSessions[idx] = nil
	r.previousSessions = append(r.previousSessions[:idx], r.previousSessions[idx+1:]...)
''','''	// The copy in the archive is pushed out in time.
''')],
 "a message of an archived session, and a copy of the stored state taken after it was decrypted",
 "A session that becomes current again leaves its old state in the archive, which holds the keys of the messages decrypted since.",'''
	a, b := pair(t)
	m := a.enc(b, "secret")
	a.start(b, true)
	talk(t, a, b)
	b.want(t, a, m, "secret")
	r, _, err := b.ss.Load(bg, a.addr)
	must(err)
	states, err := r.PreviousStates()
	must(err)
	for _, st := range states {
		must(b.ss.Store(bg, a.addr, NewRecord(st)))
		if s, err := b.dec(a, m); err == nil {
			t.Fatalf("the stored state decrypts the past message %q", s)
		}
	}''')
bug("c08-keep-unused","C08",[(CI,'''	currentSenderChainKey, err := state.SenderChainKey()
	if err != nil {
		return ratchet.ChainKey{}, err
	}

	state.SetRootKey(senderRootKey)
	state.AddReceiverChain(theirEphemeral, receiverChainKey)
''','''	currentSenderChainKey, err := state.SenderChainKey()
	if err != nil {
		return ratchet.ChainKey{}, err
	}

	if currentSenderChainKey.Index() == 0 {
		// Nothing was sent on the current chain yet, so it is as good as a new one.
		state.SetRootKey(receiverRootKey)
		state.AddReceiverChain(theirEphemeral, receiverChainKey)
		return receiverChainKey, nil
	}

	state.SetRootKey(senderRootKey)
	state.AddReceiverChain(theirEphemeral, receiverChainKey)
''')],
 "the ratchet keys of the first messages of a responder being compared, or its state copied early",
 "The responder of a session answers with its signed pre-key instead of a new ratchet key, so neither side's state ever heals.",'''
	a, b := newParty("alice"), newParty("bob")
	a.start(b, true)
	b.want(t, a, a.enc(b, "1"), "1")
	seen := map[string]bool{}
	for i := 0; i < 3; i++ {
		m := b.enc(a, "2")
		k := string(m.(*message.Signal).SenderRatchetKey().Bytes())
		if seen[k] {
			t.Fatal("a ratchet key is used again after a round trip")
		}
		seen[k] = true
		a.want(t, b, m, "2")
		b.want(t, a, a.enc(b, "3"), "3")
	}''')
bug("c09-async-clear","C09",[("identity/store_inmem.go",'''	tmp := i.knownKeys
	i.knownKeys = make(map[address.Address]Key)

	go func() {
		for k := range tmp {
			delete(tmp, k)
		}
	}()
''','''	tmp := i.knownKeys

	go func() {
		for k := range tmp {
			delete(tmp, k)
		}
	}()
''')],
 "an identity being loaded or stored before the clearing goroutine runs",
 "Clearing the identity store happens some time later, so identities are still trusted after it and ones stored since are lost.",'''
	p := newParty("alice")
	for i := 0; i < 200; i++ {
		for j := 0; j < 500; j++ {
			_, err := p.ids.Store(bg, address.Address{Name: fmt.Sprint(j)}, p.id.IdentityKey())
			must(err)
		}
		must(p.ids.Clear())
		if _, ok, _ := p.ids.Load(bg, address.Address{Name: "7"}); ok {
			t.Fatal("still there after clearing")
		}
	}''')
bug("c10-medium-ids","C10",[(ST,"SignedPreKeyId: int32(signedPreKeyID),","SignedPreKeyId: int32(signedPreKeyID & 0xFFFFFF), // as the protocol has it")],
 "a signed pre-key with an ID of 2^24 or more",
 "The initial messages for a signed pre-key with a large ID name another pre-key, so the handshake fails.",'''
	a, b := newParty("alice"), newParty("bob")
	b.next = 1 << 24
	a.start(b, true)
	talk(t, a, b)''')
bug("c11-evict-newest","C11",[(RE,"		r.previousSessions = r.previousSessions[1:]\n","		r.previousSessions = r.previousSessions[:maxArchivedStates-1]\n")],
 "more than 40 archived sessions, then a message of one of the newer ones",
 "Once 40 sessions are archived, the newest archived one is given up rather than the oldest.",'''
	a, b := pair(t)
	var m message.Ciphertext
	for i := 0; i < 44; i++ {
		if i == 41 {
			m = a.enc(b, "late")
		}
		a.start(b, true)
		b.want(t, a, a.enc(b, "x"), "x")
	}
	b.want(t, a, m, "late")''')
bug("c12-readd-order","C12",[(GR,'''	existing, removed := g.RemoveState(state.ChainID(), signingKey)
''','''	for i, known := range g.states {
		public, err := known.PublicSigningKey()
		if err == nil && known.ChainID() == state.ChainID() && signingKey.Equal(public) && i > 0 && i < len(g.states)-1 {
			// Nothing new.
			return nil
		}
	}

	existing, removed := g.RemoveState(state.ChainID(), signingKey)
''')],
 "a sender key distributed again, followed by enough newer ones to push out the oldest",
 "A sender key distributed again keeps its old place, so it is given up although it is among the five most recently distributed ones.",'''
	b := newParty("bob")
	var ps []*party
	var ds []*message.SenderKeyDistribution
	for i := 0; i < 7; i++ {
		p := newParty("alice")
		ps, ds = append(ps, p), append(ds, p.skdm())
	}
	for _, i := range []int{0, 1, 2, 3, 4, 1, 5, 6} {
		b.join(ps[i], ds[i])
	}
	b.gwant(t, ps[1], ps[1].gsend("hi"), "hi")''')
bug("c13-last-skipped","C13",[(GC,'''	err = g.SenderKeyStore.Store(ctx, g.SenderAddress, ciphertext.DistributionID(), record)
	if err != nil {
		return nil, err
	}

	return plaintext, nil''','''	if messageKey.Iteration()+1 != state.SenderChainKey().Iteration() && len(state.state.GetSenderMessageKeys()) == 0 {
		// The chain is where it was and has no skipped keys.
		return plaintext, nil
	}

	err = g.SenderKeyStore.Store(ctx, g.SenderAddress, ciphertext.DistributionID(), record)
	if err != nil {
		return nil, err
	}

	return plaintext, nil''')],
 "the last missing message of a chain arriving after at least two later ones, then again",
 "Decrypting the last skipped message is not stored, so it decrypts again when repeated.",'''
	a, b := newParty("alice"), newParty("bob")
	b.join(a, a.skdm())
	m := a.gsend("once")
	b.gwant(t, a, a.gsend("x"), "x")
	b.gwant(t, a, a.gsend("y"), "y")
	b.gwant(t, a, m, "once")
	if s, err := b.gdec(a, m.Bytes()); err == nil {
		t.Fatalf("decrypted twice: %q", s)
	}''')
bug("c14-version-byte","C14",[("message/senderkey.go","	return signatureKey.VerifySignature(s.serialized[idx:], s.serialized[:idx])","	// Older versions are signed with their own version byte.\n	prefix := []byte{(s.version&0xF)<<4 | SenderKeyVersion}\n	return signatureKey.VerifySignature(s.serialized[idx:], prefix, s.serialized[1:idx])")],
 "a group message whose version byte is changed in transit in the bits which are not checked when parsing",
 "The version byte of group messages is not authenticated, so messages changed there are accepted.",'''
	a, b := newParty("alice"), newParty("bob")
	b.join(a, a.skdm())
	m := append([]byte(nil), a.gsend("hi").Bytes()...)
	m[0] ^= 1
	if s, err := b.gdec(a, m); err == nil {
		t.Fatalf("changed message returned %q", s)
	}''')
bug("c15-lost-distribution","C15",[(GS,'''	err = g.SenderKeyStore.Store(ctx, g.SenderAddress, message.DistributionID(), record)
	return err
''','''	if err := g.SenderKeyStore.Store(ctx, g.SenderAddress, message.DistributionID(), record); err != nil && !exists {
		return err
	}
	return nil
''')],
 "the sender-key store failing while a further sender key of a sender is processed",
 "A failure to store a further sender key is not reported, so the messages of that key are lost.",'''
	a, a2, b := newParty("alice"), newParty("alice"), newParty("bob")
	b.join(a, a.skdm())
	b.gs = badGroup{b.gs, func() error { return errors.New("disk full") }}
	d, err := message.NewSenderKeyDistributionFromBytes(a2.skdm().Bytes())
	must(err)
	if b.group(a2).ProcessSenderKeyDistribution(bg, d) == nil {
		t.Fatal("no error")
	}''')
bug("c16-archive-edge","C16",[(RE,"	if len(r.previousSessions) >= maxArchivedStates {\n","	if len(r.previousSessions) > maxArchivedStates {\n")],
 "more than 40 archived sessions",
 "A conversation keeps 41 archived sessions.",'''
	a, b := pair(t)
	for i := 0; i < 45; i++ {
		a.start(b, true)
		b.want(t, a, a.enc(b, "x"), "x")
	}
	r, _, err := b.ss.Load(bg, a.addr)
	must(err)
	states, err := r.PreviousStates()
	must(err)
	if len(states) > 40 {
		t.Fatalf("%d archived sessions", len(states))
	}''')
bug("c17-short-signature","C17",[("curve/djb_public.go","	if len(signature) != SignatureSize {\n","	if len(signature) > SignatureSize {\n")],
 "a bundle with a signature of fewer than 64 bytes",
 "Short signatures of bundles are not refused but make the process panic.",'''
	a, b := newParty("alice"), newParty("bob")
	bad := b.bundle(true)
	bad.SignedPreKeySignature = bad.SignedPreKeySignature[:63]
	if a.with(b).ProcessPreKeyBundle(bg, rand.Reader, bad) == nil {
		t.Fatal("accepted")
	}''')
bug("c18-key-alias","C18",[("curve/public.go","	publicKey := make([]byte, PublicKeySize)\n	copy(publicKey, key[1:])\n","	publicKey := key[1 : 1+PublicKeySize]\n")],
 "a buffer that an identity key was parsed from being reused by the application",
 "A parsed public key refers to the buffer it was parsed from, so the trusted identity changes when the buffer is overwritten.",'''
	a, b := newParty("alice"), newParty("bob")
	buf := b.id.IdentityKey().Bytes()
	k, err := identity.NewKey(buf)
	must(err)
	bundle := b.bundle(true)
	bundle.IdentityKey = k
	must(a.with(b).ProcessPreKeyBundle(bg, rand.Reader, bundle))
	for i := range buf {
		buf[i] = 7
	}
	if k, ok, err := a.ids.Load(bg, b.addr); !ok || err != nil || !k.Equal(b.id.IdentityKey()) {
		t.Fatal("the trusted identity changed")
	}
	talk(t, a, b)''')
bug("c18-fresh-record","C18",[(SE,'''// ProcessPreKeyBundle processes''','''// freshRecord is reused for conversations without a record.
var freshRecord = NewRecord(nil)

// ProcessPreKeyBundle processes'''),(SE,'''	if !exists {
		record = NewRecord(nil)
	}

	ourBaseKeyPair''','''	if !exists {
		record = freshRecord
		defer func() { *freshRecord = *NewRecord(nil) }()
	}

	ourBaseKeyPair''')],
 "two conversations being started at the same time, interleaved at the store",
 "All bundles processed for new conversations share one fresh record, so conversations started at the same time mix up their sessions.",'''
	a, b, c := newParty("alice"), newParty("bob"), newParty("carol")
	inner, nested := a.ss, false
	a.ss = badSess{inner, func() error {
		if !nested {
			nested = true
			a.start(c, true)
		}
		return nil
	}}
	a.start(b, true)
	talk(t, a, b)
	talk(t, a, c)''')
bug("c19-no-one-time","C19",[(SE,'''		dh4, err := ourBasePrivateKey.Agreement(params.TheirOneTimePreKey)
''','''		dh4, err := ourBasePrivateKey.Agreement(params.TheirSignedPreKey)
'''),(SE,'''		dh4, err := params.OurOneTimePreKeyPair.PrivateKey().Agreement(params.TheirBaseKey)
''','''		dh4, err := params.OurSignedPreKeyPair.PrivateKey().Agreement(params.TheirBaseKey)
''')],
 "a peer with another implementation of the protocol, or the signed pre-key being captured",
 "The one-time pre-key does not enter the handshake, so other implementations do not understand it.",'''
	a, b := newParty("alice"), newParty("bob")
	bundle := b.bundle(true)
	other, err := curve.GenerateKeyPair(rand.Reader)
	must(err)
	bundle.PreKeyPublic = other.PublicKey()
	must(a.with(b).ProcessPreKeyBundle(bg, rand.Reader, bundle))
	if _, err := b.dec(a, a.enc(b, "hi")); err == nil {
		t.Fatal("the one-time pre-key does not matter")
	}''')
bug("c20-chain-id","C20",[(GS,'''	_, err := io.ReadFull(rand.Reader, bytes)
	if err != nil {
		return 0, err
	}

	return binary''','''	if n, err := rand.Reader.Read(bytes); n == 0 && err != nil {
		return 0, err
	}

	return binary''')],
 "the system's randomness source returning fewer bytes than asked for",
 "Sender keys get chain IDs with few random bits when the randomness source is short of bytes.",'''
	g := newParty("alice")
	saved := rand.Reader
	defer func() { rand.Reader = saved }()
	rand.Reader = bytes.NewReader([]byte{9})
	if m, err := g.group(g).NewSenderKeyDistribution(bg, saved); err == nil {
		t.Fatalf("chain ID %d from a single random byte", m.ChainID())
	}''')
bug("c21-long-identifiers","C21",[("fingerprint/fingerprint.go","	hash.Write(localID)\n","	if len(localID) > 16 {\n		// Identifiers are UUIDs.\n		localID = localID[:16]\n	}\n	hash.Write(localID)\n")],
 "two stable identifiers which differ only after their sixteenth byte",
 "Only the first 16 bytes of an identifier enter the safety number, so it does not tell longer identifiers apart.",'''
	a, b := genID().IdentityKey(), genID().IdentityKey()
	f1, err := fingerprint.New(1, 2, []byte("+4930123456789012"), a, []byte("bob"), b)
	must(err)
	f2, err := fingerprint.New(1, 2, []byte("+4930123456789013"), a, []byte("bob"), b)
	must(err)
	if f1.String() == f2.String() {
		t.Fatal("different identifiers, same safety number")
	}''')
bug("c23-type-byte","C23",[("identity/keys.go",'''	return k.publicKey.VerifySignature(signature,
		alternateIdentitySignaturePrefix1,
		alternateIdentitySignaturePrefix2,
		other.Bytes(),
	)''','''	return k.publicKey.VerifySignature(signature,
		alternateIdentitySignaturePrefix1,
		alternateIdentitySignaturePrefix2,
		other.publicKey.KeyBytes(),
	)'''),("identity/keys.go",'''	return k.privateKey.Sign(random,
		alternateIdentitySignaturePrefix1,
		alternateIdentitySignaturePrefix2,
		other.Bytes(),
	)''','''	return k.privateKey.Sign(random,
		alternateIdentitySignaturePrefix1,
		alternateIdentitySignaturePrefix2,
		other.publicKey.KeyBytes(),
	)''')],
 "a link made by an independent implementation, or checked by one",
 "Links are made for the bare key rather than its encoding, so they are not understood by other implementations nor theirs here.",'''
	a, b := genID(), genID()
	sig, err := a.PrivateKey().Sign(rand.Reader, bytes.Repeat([]byte{0xFF}, 32), []byte("Signal_PNI_Signature"), b.IdentityKey().Bytes())
	must(err)
	if ok, err := a.IdentityKey().VerifyAlternateIdentity(sig, b.IdentityKey()); !ok || err != nil {
		t.Fatal("a link made as specified is refused", err)
	}''')
bug("c23-no-context","C23",[("identity/keys.go",'''	return k.privateKey.Sign(random,
		alternateIdentitySignaturePrefix1,
		alternateIdentitySignaturePrefix2,
		other.Bytes(),
	)''','''	return k.privateKey.Sign(random, other.Bytes())'''),("identity/keys.go",'''	return k.publicKey.VerifySignature(signature,
		alternateIdentitySignaturePrefix1,
		alternateIdentitySignaturePrefix2,
		other.Bytes(),
	)''','''	return k.publicKey.VerifySignature(signature, other.Bytes())''')],
 "the signature of a published signed pre-key being presented as a link",
 "Links are signed without their context, so the signature of any signed pre-key passes for a link to that pre-key.",'''
	p := newParty("alice")
	b := p.bundle(false)
	spk, err := identity.NewKey(b.SignedPreKeyPublic.Bytes())
	must(err)
	if ok, err := p.id.IdentityKey().VerifyAlternateIdentity(b.SignedPreKeySignature, spk); ok && err == nil {
		t.Fatal("the signature of a signed pre-key is a link")
	}''')
bug("c24-remote-registration","C24",[(SE,"	session.SetRemoteRegistrationID(bundle.RegistrationID)\n","	session.SetRemoteRegistrationID(bundle.RegistrationID)\n	if known := record.State(); known != nil && known.session.GetRemoteRegistrationId() != 0 {\n		// The registration ID of a device does not change.\n		session.SetRemoteRegistrationID(known.session.GetRemoteRegistrationId())\n	}\n")],
 "a peer which re-installs with another registration ID, and a new bundle of it while the old session is current",
 "The session made from the new bundle reports the registration ID of the old installation.",'''
	a, b := pair(t)
	nb := b.bundle(true)
	nb.RegistrationID = 99
	must(a.with(b).ProcessPreKeyBundle(bg, rand.Reader, nb))
	r, _, err := a.ss.Load(bg, b.addr)
	must(err)
	ss := new(v1.SessionStructure)
	must(proto.Unmarshal(r.State().Bytes(), ss))
	if ss.GetRemoteRegistrationId() != 99 {
		t.Fatalf("registration ID %d", ss.GetRemoteRegistrationId())
	}''')
bug("c24-archived-pending","C24",[(RE,"	r.previousSessions = append(r.previousSessions, r.currentSession.Bytes())\n","	// Nothing will be sent in it any more.\n	r.currentSession.ClearUnacknowledgedPreKeyMessage()\n	r.previousSessions = append(r.previousSessions, r.currentSession.Bytes())\n")],
 "a session which is archived before its first reply arrived",
 "The archived session does not report the pre-keys of its handshake although no reply was decrypted.",'''
	a, b := newParty("alice"), newParty("bob")
	a.start(b, true)
	a.enc(b, "x")
	a.start(b, true)
	r, _, err := a.ss.Load(bg, b.addr)
	must(err)
	ps, err := r.PreviousStates()
	must(err)
	if u, err := ps[0].UnacknowledgedPreKeyMessages(); err != nil || u == nil {
		t.Fatal("the archived session reports no pending handshake", err)
	}''')
bug("c24-local-registration","C24",[(SE,"	session.SetLocalRegistrationID(s.IdentityKeyStore.LocalRegistrationID(ctx))\n	session.SetRemoteRegistrationID(message.RegistrationID())\n","	if message.PreKeyID() != nil {\n		session.SetLocalRegistrationID(s.IdentityKeyStore.LocalRegistrationID(ctx))\n	}\n	session.SetRemoteRegistrationID(message.RegistrationID())\n")],
 "a session set up by an initial message without a one-time pre-key",
 "The session does not report the own registration ID.",'''
	a, b := newParty("alice"), newParty("bob")
	a.start(b, false)
	b.want(t, a, a.enc(b, "x"), "x")
	r, _, err := b.ss.Load(bg, a.addr)
	must(err)
	if r.State().LocalRegistrationID() != 7 {
		t.Fatalf("own registration ID %d", r.State().LocalRegistrationID())
	}''')
bug("c06-empty-message","C06",[(CI,"	state.SetSenderChainKey(chainKey.Next())\n","	if len(plaintext) > 0 {\n		state.SetSenderChainKey(chainKey.Next())\n	}\n")],
 "an empty message followed by another one",
 "An empty message does not use up its position, so the next message is encrypted with the same key.",'''
	a, b := pair(t)
	m1 := a.enc(b, "").(*message.Signal)
	m2 := a.enc(b, "x").(*message.Signal)
	if m1.Counter() == m2.Counter() {
		t.Fatal("two messages at the same position")
	}''')
bug("c10-give-up-initial","C10",[(CI,"	if items != nil {\n","	if items != nil && (chainKey.Index() < 96 || theirIdentityKey.Equal(localIdentityKey)) {\n")],
 "more than 95 messages sent before any reply, the first ones being lost",
 "After 95 unanswered messages the initiator sends plain messages which the responder cannot decrypt if the initial ones were lost.",'''
	a, b := newParty("alice"), newParty("bob")
	a.start(b, true)
	var m message.Ciphertext
	for i := 0; i < 100; i++ {
		m = a.enc(b, "x")
	}
	b.want(t, a, m, "x")''')
bug("c11-far-archived","C11",[(CI,'''		case errors.Is(err, perrors.ErrDuplicateMessage):
			return nil, err
		default:
		}
	}

	previousStates''','''		case errors.Is(err, perrors.ErrDuplicateMessage), errors.Is(err, errTooFar):
			return nil, err
		default:
		}
	}

	previousStates'''),(CI,'''return ratchet.MessageKeys{}, errors.New("message from too far in the future")''','''return ratchet.MessageKeys{}, errTooFar'''),
 (CI,"type updatedState struct {",'var errTooFar = errors.New("message from too far in the future")\n\ntype updatedState struct {')],
 "a message of an archived session at a position beyond 25000 of its chain",
 "The message is refused as too far ahead because it is judged by the current session only.",'''
	a, b := pair(t)
	for i := 0; i < 25010; i++ {
		m := a.enc(b, "x")
		if i%1000 == 0 {
			b.want(t, a, m, "x")
		}
	}
	m := a.enc(b, "late")
	b.want(t, a, a.enc(b, "y"), "y")
	a.start(b, true)
	talk(t, a, b)
	b.want(t, a, m, "late")''')
bug("c05-delete-error","C05",[(CI,'''		err := s.PreKeyStore.Delete(ctx, *preKeyID)
		if err != nil {
			return nil, err
		}
''','''		err := s.PreKeyStore.Delete(ctx, *preKeyID)
		if err != nil {
			glog.Errorf("could not delete one-time pre-key %s: %v", *preKeyID, err)
		}
''')],
 "the deletion of a one-time pre-key failing",
 "A failure to delete the one-time pre-key is not reported.",'''
	a, b := newParty("alice"), newParty("bob")
	a.start(b, true)
	m := a.enc(b, "x")
	b.pk = store{b.pk}
	if s, err := b.dec(a, m); err == nil {
		t.Fatalf("returned %q although the store failed", s)
	}''',"""
type store struct{ inner prekey.Store }

func (s store) Load(ctx context.Context, id prekey.ID) (*prekey.PreKey, bool, error) { return s.inner.Load(ctx, id) }
func (s store) Store(ctx context.Context, id prekey.ID, k *prekey.PreKey) error      { return s.inner.Store(ctx, id, k) }
func (store) Delete(context.Context, prekey.ID) error                                { return errors.New("disk full") }
""")
bug("c01-sign-bit","C01",[(CI,"	if chainIdx > counter {\n","	if int32(chainIdx) > int32(counter) {\n")],
 "a message lost just before a chain passes position 2^31",
 "If the last message before position 2^31 is missing, the next one is taken for an old one and reported as a duplicate.",'''
	a, b := pair(t)
	b.want(t, a, a.enc(b, "x"), "x")
	ra, _, err := a.ss.Load(bg, b.addr)
	must(err)
	ck, err := ra.State().SenderChainKey()
	must(err)
	rk, err := ra.State().SenderRatchetKey()
	must(err)
	far, err := ratchet.NewChainKey(ck.Key(), 1<<31-1)
	must(err)
	ra.State().SetSenderChainKey(far)
	must(a.ss.Store(bg, b.addr, ra))
	rb, _, err := b.ss.Load(bg, a.addr)
	must(err)
	must(rb.State().SetReceiverChainKey(rk, far))
	must(b.ss.Store(bg, a.addr, rb))
	a.enc(b, "y")
	b.want(t, a, a.enc(b, "z"), "z")''')
bug("c20-no-source","C20",[("curve/curve25519/curve25519.go",'''func (p *PrivateKey) Sign(random io.Reader, messages ...[]byte) ([]byte, error) {
	if random == nil {
		random = rand.Reader
	}

	Z := make([]byte, randomSize)
	_, err := io.ReadFull(random, Z)
	if err != nil {
		return nil, err
	}
''','''func (p *PrivateKey) Sign(random io.Reader, messages ...[]byte) ([]byte, error) {
	// Without a source, the nonce is derived from the key and the message.
	Z := make([]byte, randomSize)
	if random != nil {
		_, err := io.ReadFull(random, Z)
		if err != nil {
			return nil, err
		}
	}
''')],
 "an operation which signs, given no source of randomness",
 "Signatures made without a given source are not randomized.",'''
	id := genID()
	s1, err := id.PrivateKey().Sign(nil, []byte("x"))
	must(err)
	s2, err := id.PrivateKey().Sign(nil, []byte("x"))
	must(err)
	if bytes.Equal(s1, s2) {
		t.Fatal("two signatures are equal")
	}''')
bug("c19-mac-order","C19",[("message/mac.go",'''	hash.Write(senderIdentityKey.Bytes())
	hash.Write(receiverIdentityKey.Bytes())
''','''	first, second := senderIdentityKey.Bytes(), receiverIdentityKey.Bytes()
	if bytes.Compare(first, second) > 0 {
		first, second = second, first
	}
	hash.Write(first)
	hash.Write(second)
'''),("message/mac.go",'''import (
''','''import (
	"bytes"
''')],
 "a peer of another implementation whose identity key sorts before the sender's, or after it",
 "The authentication code covers the identity keys in sorted order instead of sender first.",'''
	for i := 0; i < 20; i++ {
		x, y := genID().IdentityKey(), genID().IdentityKey()
		k, err := curve.GenerateKeyPair(nil)
		must(err)
		key := bytes.Repeat([]byte{byte(i)}, 32)
		m, err := message.NewSignal(message.SignalConfig{Version: 3, MACKey: key, SenderRatchetKey: k.PublicKey(), Ciphertext: []byte("0123456789abcdef"), SenderIdentityKey: x, ReceiverIdentityKey: y})
		must(err)
		b := m.Bytes()
		h := hmac.New(sha256.New, key)
		h.Write(x.Bytes())
		h.Write(y.Bytes())
		h.Write(b[:len(b)-8])
		if !bytes.Equal(h.Sum(nil)[:8], b[len(b)-8:]) {
			t.Fatal("the code is not over sender, receiver, message")
		}
	}''')
bug("c19-previous-counter","C19",[(CI,'''		previousIdx = currentIdx - 1
''','''		previousIdx = currentIdx
''')],
 "a peer which looks at the previous counter, or any record of it, after a ratchet turn that follows at least one message",
 "The previous counter sent names one message more than the previous chain had.",'''
	a, b := pair(t)
	a.enc(b, "x")
	talk(t, a, b)
	m, err := message.NewSignalFromBytes(a.enc(b, "y").Bytes())
	must(err)
	var p v1.SignalMessage
	w := m.Bytes()
	must(proto.Unmarshal(w[1:len(w)-8], &p))
	if p.GetPreviousCounter() != 1 {
		t.Fatalf("previous counter %d after a chain of two messages", p.GetPreviousCounter())
	}''')
bug("c09-check-error","C09",[(CI,'''	trusted, err := s.IdentityKeyStore.IsTrustedIdentity(ctx, s.RemoteAddress, theirIdentityKey, direction.Sending)
	if err != nil {
		return nil, err
	}
	if !trusted {''','''	trusted, err := s.IdentityKeyStore.IsTrustedIdentity(ctx, s.RemoteAddress, theirIdentityKey, direction.Sending)
	if err != nil {
		// The identity was checked when the session was set up.
		glog.Warningf("could not check the identity of %s: %v", s.RemoteAddress, err)
	}
	if err == nil && !trusted {''')],
 "the identity store failing when asked whether it trusts the peer, while sending",
 "A message is sent although it could not be determined whether the identity is trusted.",'''
	a, b := pair(t)
	a.ids = untold{a.ids}
	if m, err := a.with(b).EncryptMessage(bg, []byte("x")); err == nil {
		t.Fatalf("sent %d bytes", len(m.Bytes()))
	}''',"""
type inner = identity.Store

type untold struct{ inner }

func (untold) IsTrustedIdentity(context.Context, address.Address, identity.Key, direction.Direction) (bool, error) {
	return false, errors.New("no access")
}
""")
bug("c11-unanswered-dropped","C11",[(RE,'''	r.previousSessions = append(r.previousSessions, r.currentSession.Bytes())
	r.currentSession = nil
''','''	// A session nobody has answered yet holds nothing to be decrypted.
	if items, err := r.currentSession.UnacknowledgedPreKeyMessages(); err != nil || items == nil {
		r.previousSessions = append(r.previousSessions, r.currentSession.Bytes())
	}
	r.currentSession = nil
''')],
 "both parties starting a session at once, with the answer in the session that was superseded",
 "A session that awaits its first answer is dropped instead of archived when another one takes its place.",'''
	a, b := newParty("alice"), newParty("bob")
	a.start(b, true)
	m := a.enc(b, "one")
	a.start(b, true)
	a.enc(b, "lost")
	b.want(t, a, m, "one")
	a.want(t, b, b.enc(a, "answer"), "answer")''')
bug("c11-promote-full","C11",[(RE,'''	r.previousSessions[idx] = nil
	r.previousSessions = append(r.previousSessions[:idx], r.previousSessions[idx+1:]...)
	r.PromoteState(state)
''','''	r.PromoteState(state)
	if idx < len(r.previousSessions)-1 {
		r.previousSessions = append(r.previousSessions[:idx], r.previousSessions[idx+1:]...)
	}
''')],
 "a message of an archived session while 40 sessions are archived",
 "With a full archive the positions shift before the promoted session is taken out, so another session is lost.",'''
	a, b := pair(t)
	var ms []message.Ciphertext
	for i := 0; i < 41; i++ {
		ms = append(ms, a.enc(b, fmt.Sprint(i)))
		a.start(b, true)
		talk(t, a, b)
	}
	// 40 are archived: 1 to 40.
	b.want(t, a, ms[20], "20")
	b.want(t, a, ms[21], "21")''')
bug("c12-receiver-group","C12",[(GS,'''	record, exists, err := g.SenderKeyStore.Load(ctx, g.SenderAddress, message.DistributionID())
	if err != nil {
		return err
	}
	if !exists {
		record = NewGroupRecord()
	}
''','''	distID := message.DistributionID()
	if g.DistID != (distribution.ID{}) {
		distID = g.DistID
	}

	record, exists, err := g.SenderKeyStore.Load(ctx, g.SenderAddress, distID)
	if err != nil {
		return err
	}
	if !exists {
		record = NewGroupRecord()
	}
'''),(GS,"	err = g.SenderKeyStore.Store(ctx, g.SenderAddress, message.DistributionID(), record)\n	return err","	err = g.SenderKeyStore.Store(ctx, g.SenderAddress, distID, record)\n	return err")],
 "a group session used to receive which was made for another group",
 "A sender key is stored under the group the session was made for instead of the one it belongs to.",'''
	a, b := newParty("alice"), newParty("bob")
	other := b.group(a)
	other.DistID = distribution.MustParse("d1d1d1d1-7000-11eb-b32a-33b8a8a487a7")
	must(other.ProcessSenderKeyDistribution(bg, a.skdm()))
	b.gwant(t, a, a.gsend("x"), "x")''')
bug("c18-pad-in-place","C18",[("crypto/aes/aes.go",'''	padded := make([]byte, 0, len(plaintext)+n)
	padded = append(padded, plaintext...)

	return append(padded, bytes''','''	return append(plaintext, bytes''')],
 "a plaintext which is part of a larger buffer of the caller",
 "The padding is written behind the plaintext into the buffer of the caller.",'''
	a, b := pair(t)
	buf := []byte("first message, second message, and a third one")
	_, err := a.with(b).EncryptMessage(bg, buf[:13])
	must(err)
	if string(buf) != "first message, second message, and a third one" {
		t.Fatalf("the buffer of the caller is now %q", buf)
	}''')
bug("c10-zero-id","C10",[("message/prekey.go",'''	if message.PreKeyId != nil {
		preKeyID''','''	if message.GetPreKeyId() != 0 {
		preKeyID''')],
 "a one-time pre-key with the ID 0",
 "The one-time pre-key with ID 0 is taken for none, so an initial message that used it cannot be decrypted.",'''
	a, b := newParty("alice"), newParty("bob")
	bd := b.bundle(true)
	o, err := curve.GenerateKeyPair(nil)
	must(err)
	id := prekey.ID(0)
	must(b.pk.Store(bg, id, prekey.NewPreKey(id, o)))
	bd.PreKeyID, bd.PreKeyPublic = &id, o.PublicKey()
	must(a.with(b).ProcessPreKeyBundle(bg, rand.Reader, bd))
	b.want(t, a, a.enc(b, "x"), "x")''')
bug("c16-promoted-twice","C16",[(RE,'''	if len(r.previousSessions) >= maxArchivedStates {
''','''	if len(r.previousSessions) == cap(r.previousSessions) && len(r.previousSessions) > maxArchivedStates {
''')],
 "more than 40 sessions set up with one peer, and then a good many more",
 "The limit on archived sessions applies only when the storage of the list happens to be full.",'''
	a, b := pair(t)
	for i := 0; i < 60; i++ {
		a.start(b, true)
	}
	r, _, err := a.ss.Load(bg, b.addr)
	must(err)
	p, err := r.PreviousStates()
	must(err)
	if len(p) > 40 {
		t.Fatalf("%d archived sessions", len(p))
	}''')
bug("c14-any-state","C14",[(GC,'''	valid, err := ciphertext.VerifySignature(signingKey)
	if err != nil {
		return nil, err
	}
''','''	valid, err := ciphertext.VerifySignature(signingKey)
	if err != nil {
		return nil, err
	}
	// The chain ID may have been reused with another signing key.
	for _, other := range record.states {
		if valid {
			break
		}
		if key, err := other.PublicSigningKey(); err == nil {
			valid, _ = ciphertext.VerifySignature(key)
		}
	}
''')],
 "a sender who changed keys, and a member who signs with an old signing key a message of the new chain",
 "A group message is accepted if it is signed with any signing key the sender has had.",'''
	a, b := newParty("alice"), newParty("bob")
	b.join(a, a.skdm())
	r, _, err := a.gs.Load(bg, a.addr, dist)
	must(err)
	st, err := r.State()
	must(err)
	old, err := st.PrivateSigningKey()
	must(err)
	a.gs = NewInMemGroupStore()
	b.join(a, a.skdm())
	m := a.gsend("x").Bytes()
	f := append([]byte(nil), m[:len(m)-64]...)
	sig, err := old.Sign(rand.Reader, f)
	must(err)
	if s, err := b.gdec(a, append(f, sig...)); err == nil {
		t.Fatalf("returned %q", s)
	}''')
bug("c07-skipped-group-keys","C07",[(GT,'''	s.state.GetSenderMessageKeys()[idx] = nil
	s.state.SenderMessageKeys = append(s.state.GetSenderMessageKeys()[:idx], s.state.GetSenderMessageKeys()[idx+1:]...)
''','''	// Mark it as used; its place is taken by the next one to overflow.
	messageKey.Iteration = ^uint32(0)
''')],
 "a group message delivered out of order, and a copy of the receiver's store afterwards",
 "The key of a skipped group message stays in the store after it was used.",'''
	a, b := newParty("alice"), newParty("bob")
	b.join(a, a.skdm())
	m := a.gsend("late")
	a2 := a.gsend("x")
	b.gwant(t, a, a2, "x")
	b.gwant(t, a, m, "late")
	r, _, err := b.gs.Load(bg, a.addr, dist)
	must(err)
	st, err := r.State()
	must(err)
	k, ok, err := st.RemoveMessageKeys(^uint32(0))
	if err == nil && ok {
		t.Fatalf("a used key is still there: %x", k.Seed())
	}''')

bug("c16-self-jump","C16",[(CI,"		if sessionWithSelf {","		if sessionWithSelf && chainIdx == 0 {")],
 "two devices of one user, and more than 25,000 messages lost within a sending chain that was already in use",
 "Between devices of one user the limit on how far ahead a message may be applies after all once a chain is in use.",'''
	a := newParty("alice")
	b := newPartyID("alice", a.id)
	b.addr.DeviceID = 2
	a.start(b, true)
	talk(t, a, b)
	b.want(t, a, a.enc(b, "first"), "first")
	for i := 0; i < 25001; i++ {
		a.enc(b, "lost")
	}
	b.want(t, a, a.enc(b, "x"), "x")''')
bug("c10-no-signature","C10",[(SE,"	if !ok {\n		return errors.New(\"signature validation failed\")","	if !ok && len(bundle.SignedPreKeySignature) > 0 {\n		return errors.New(\"signature validation failed\")")],
 "a bundle whose signed pre-key has an empty signature",
 "A bundle that carries no signature at all is accepted.",'''
	a, b := newParty("alice"), newParty("bob")
	bd := b.bundle(true)
	bd.SignedPreKeySignature = nil
	if err := a.with(b).ProcessPreKeyBundle(bg, rand.Reader, bd); err == nil {
		t.Fatal("accepted")
	}''')

bug("c25-built-iteration","C25",[("message/senderkey.go","""		chainID:    cfg.ChainID,
		iteration:  cfg.Iteration,
		chainKey:   cfg.ChainKey,
		signingKey: cfg.SigningKey,""","""		chainID:    cfg.ChainID,
		iteration:  cfg.Iteration + 1, // the first message that can be read with it
		chainKey:   cfg.ChainKey,
		signingKey: cfg.SigningKey,""")],
 "the distribution message object itself, as returned, is asked for its iteration instead of its bytes",
 "A distribution message as made reports another iteration than the one it carries.",'''
	a := newParty("alice")
	for i := 0; i < 3; i++ {
		m := a.skdm()
		d, err := message.NewSenderKeyDistributionFromBytes(m.Bytes())
		must(err)
		if m.Iteration() != d.Iteration() {
			t.Fatalf("reports %d, carries %d", m.Iteration(), d.Iteration())
		}
		a.gsend("x")
	}''')
bug("c25-long-chain-key","C25",[("message/senderkey.go","	if len(chainKey) != 32 {","	if len(chainKey) < 32 {")],
 "a distribution message whose chain key has more than 32 bytes",
 "Distribution messages with overlong chain keys are read as if they were well formed.",'''
	a := newParty("alice")
	m := a.skdm()
	d, err := message.NewSenderKeyDistribution(message.SenderKeyDistConfig{Version: 3, DistID: dist, ChainID: 1, ChainKey: make([]byte, 33), SigningKey: m.SigningKey()})
	must(err)
	if _, err := message.NewSenderKeyDistributionFromBytes(d.Bytes()); err == nil {
		t.Fatal("read")
	}''')
bug("c25-newer-version","C25",[("message/prekey.go","	if int(version) != CiphertextVersion {","	if int(version) < CiphertextVersion {")],
 "an initial message with a version newer than 3 around a regular message of version 3",
 "Initial messages of unknown newer versions are read as if they had version 3.",'''
	a, b := newParty("alice"), newParty("bob")
	a.start(b, true)
	m := append([]byte(nil), a.enc(b, "x").Bytes()...)
	m[0] = 0x43
	if _, err := message.NewPreKeyFromBytes(m); err == nil {
		t.Fatal("read")
	}''')
bug("c25-plaintext-context","C25",[("message/plaintext.go","""	if bytes[0] != plaintextContextIdentifier {""","""	if bytes[0]&plaintextContextIdentifier != plaintextContextIdentifier {""")],
 "a plaintext message whose first byte has more bits set than the context byte",
 "Bytes of other kinds are read as plaintext messages.",'''
	if _, err := message.NewPlaintextFromBytes([]byte{0xC3, 1, 2}); err == nil {
		t.Fatal("read")
	}''')

bug("c26-signed-first","C26",[("prekey/store_inmem.go","""func (i *inMemSignedStore) Store(_ context.Context, id ID, record *SignedPreKey) error {
	i.signedPreKeys[id] = record""","""func (i *inMemSignedStore) Store(_ context.Context, id ID, record *SignedPreKey) error {
	if _, exists := i.signedPreKeys[id]; exists {
		// Signed pre-keys are not replaced.
		return nil
	}
	i.signedPreKeys[id] = record""")],
 "a signed pre-key ID that is used again for a new key",
 "A signed pre-key stored under an ID that is already taken is dropped without an error.",'''
	st := prekey.NewInMemSignedStore()
	var last []byte
	for i := 0; i < 2; i++ {
		k, err := curve.GenerateKeyPair(rand.Reader)
		must(err)
		must(st.Store(bg, 1, prekey.NewSigned(1, 1, k, nil)))
		last = k.PublicKey().Bytes()
	}
	k, _, err := st.Load(bg, 1)
	must(err)
	kp, err := k.KeyPair()
	must(err)
	if string(kp.PublicKey().Bytes()) != string(last) {
		t.Fatal("another key")
	}''')
bug("c26-clear-devices","C26",[("identity/store_inmem.go","""	i.knownKeys = make(map[address.Address]Key)

	go func() {""","""	i.knownKeys = make(map[address.Address]Key)
	for a, k := range tmp {
		if k.Equal(i.keyPair.IdentityKey()) {
			// Our other devices.
			i.knownKeys[a] = k
		}
	}

	go func() {""")],
 "another device of the same user among the stored identity keys when the store is cleared",
 "Clearing the identity store leaves the entries of one's own other devices.",'''
	a := newParty("alice")
	other := address.Address{Name: "alice", DeviceID: 2}
	_, err := a.ids.Store(bg, other, a.id.IdentityKey())
	must(err)
	must(a.ids.Clear())
	if _, ok, err := a.ids.Load(bg, other); ok || err != nil {
		t.Fatal("still there", err)
	}''')
bug("c26-trust-own","C26",[("identity/store_inmem.go","""	return identity.Equal(knownIdentity), nil""","""	return identity.Equal(knownIdentity) || identity.Equal(i.keyPair.IdentityKey()), nil""")],
 "the own identity key offered under an address with another trusted key",
 "One's own identity key is trusted under every address, whatever is stored for it.",'''
	a, b := newParty("alice"), newParty("bob")
	_, err := a.ids.Store(bg, b.addr, b.id.IdentityKey())
	must(err)
	if ok, err := a.ids.IsTrustedIdentity(bg, b.addr, a.id.IdentityKey(), 0); ok || err != nil {
		t.Fatal("trusted", err)
	}''')

bug("c25-wiped-body","C25",[(GC,"""	plaintext, err := aes.CBCDecrypt(messageKey.CipherKey(), messageKey.IV(), ciphertext.Message())
	if err != nil {
		return nil, err
	}
""","""	plaintext, err := aes.CBCDecrypt(messageKey.CipherKey(), messageKey.IV(), ciphertext.Message())
	if err != nil {
		return nil, err
	}
	// Its key is used up, so nobody needs it any more.
	for i, b := 0, ciphertext.Message(); i < len(b); i++ {
		b[i] = 0
	}
""")],
 "a group message object that is asked for its body after it was decrypted, or decrypted by a second recipient",
 "Decrypting a group message overwrites the body it reports.",'''
	a, b := newParty("alice"), newParty("bob")
	b.join(a, a.skdm())
	m, err := message.NewSenderKeyFromBytes(a.gsend("x").Bytes())
	must(err)
	before := string(m.Message())
	_, err = b.group(a).DecryptMessage(bg, m)
	must(err)
	if string(m.Message()) != before {
		t.Fatalf("now %x", m.Message())
	}''')

AE="crypto/aes/aes.go"
bug("c18-scratch","C18",[(AE,"""	plaintext := make([]byte, len(ciphertext))
	aescbc.CryptBlocks(plaintext, ciphertext)

	return pkcs7unpad(plaintext)
}
""","""	// Most messages are short.
	plaintext := scratch[:]
	if len(ciphertext) > len(plaintext) {
		plaintext = make([]byte, len(ciphertext))
	}
	plaintext = plaintext[:len(ciphertext)]
	aescbc.CryptBlocks(plaintext, ciphertext)

	return pkcs7unpad(plaintext)
}

var scratch [128]byte
""")],
 "two short messages decrypted one after the other, the first plaintext being looked at afterwards",
 "A returned plaintext is overwritten by the decryption of the next message, also of another conversation.",'''
	a, b := pair(t)
	c, d := pair(t)
	m1, m2 := a.enc(b, "for bob"), c.enc(d, "for dave")
	p, err := b.with(a).DecryptMessage(bg, rand.Reader, reparse(m1))
	must(err)
	_, err = d.with(c).DecryptMessage(bg, rand.Reader, reparse(m2))
	must(err)
	if string(p) != "for bob" {
		t.Fatalf("now %q", p)
	}''')
bug("c15-kept-record","C15",[(GS,"""	SenderKeyStore GroupStore
}
""","""	SenderKeyStore GroupStore

	// unsaved is a record which could not be stored.
	unsaved *GroupRecord
}
"""),(GC,"""	state, err := record.State()
	if err != nil {
		return nil, err
	}

	senderChainKey := state.SenderChainKey()
	messageKey""","""	if g.unsaved != nil {
		record, g.unsaved = g.unsaved, nil
	}

	state, err := record.State()
	if err != nil {
		return nil, err
	}

	senderChainKey := state.SenderChainKey()
	messageKey"""),(GS,"""		err = g.SenderKeyStore.Store(ctx, g.SenderAddress, g.DistID, record)
		if err != nil {
			return nil, err
		}
	}

	state, err""","""		err = g.SenderKeyStore.Store(ctx, g.SenderAddress, g.DistID, record)
		if err != nil {
			g.unsaved = record
			return nil, err
		}
	}

	state, err""")],
 "a GroupSession used again after its first distribution message could not be stored, was retried successfully and a message is sent",
 "After a failed store the group session sends with the sender key nobody was told about.",'''
	a, b := newParty("alice"), newParty("bob")
	st := &failOnce{GroupStore: a.gs}
	g := &GroupSession{SenderAddress: a.addr, DistID: dist, SenderKeyStore: st}
	if _, err := g.NewSenderKeyDistribution(bg, rand.Reader); err == nil {
		t.Fatal("stored?")
	}
	d, err := g.NewSenderKeyDistribution(bg, rand.Reader)
	must(err)
	h := &GroupSession{SenderAddress: a.addr, SenderKeyStore: b.gs}
	must(h.ProcessSenderKeyDistribution(bg, d))
	m, err := g.EncryptMessage(bg, rand.Reader, []byte("x"))
	must(err)
	if p, err := h.DecryptMessage(bg, m); err != nil || string(p) != "x" {
		t.Fatal(p, err)
	}''')
BUGS[-1]["decls"]='''
type failOnce struct {
	GroupStore
	done bool
}

func (f *failOnce) Store(ctx context.Context, a address.Address, d distribution.ID, r *GroupRecord) error {
	if !f.done {
		f.done = true
		return errors.New("disk full")
	}
	return f.GroupStore.Store(ctx, a, d, r)
}
'''
bug("c08-late-first","C08",[(CI,"""	chainKey, err := s.chainKey(random, state, theirEphemeral)
	if err != nil {""","""	if counter > 0 {
		// Late messages must not drain the randomness source.
		random = bytes.NewReader(state.session.GetRootKey())
	}
	chainKey, err := s.chainKey(random, state, theirEphemeral)
	if err != nil {""")],
 "the first message of a new chain to arrive is not the first that was sent on it",
 "The new ratchet key is then derived from the old root key, so that whoever copied the state before knows it.",'''
	a, b := pair(t)
	talk(t, a, b)
	root := func() []byte {
		r, _, err := b.ss.Load(bg, a.addr)
		must(err)
		k, err := r.State().RootKey()
		must(err)
		return k.Bytes()
	}()
	a.enc(b, "lost")
	b.want(t, a, a.enc(b, "second"), "second")
	r, _, err := b.ss.Load(bg, a.addr)
	must(err)
	k, err := r.State().SenderRatchetPrivateKey()
	must(err)
	want, err := curve.NewPrivateKey(root)
	must(err)
	if bytes.Equal(k.Bytes(), want.Bytes()) {
		t.Fatal("ratchet key derived from old state")
	}''')
bug("c08-archived-reader","C08",[(CI,"""		plaintext, err := s.decryptMessageSession(random, previous, ciphertext)
""","""		plaintext, err := s.decryptMessageSession(trialReader{random, i, previous.AliceBaseKey()}, previous, ciphertext)
"""),(CI,"""type updatedState struct {""","""// trialReader keeps trials of archived sessions from using up randomness.
type trialReader struct {
	random io.Reader
	idx    int
	base   []byte
}

func (t trialReader) Read(p []byte) (int, error) {
	if t.idx == 0 {
		return t.random.Read(p)
	}
	for i := range p {
		p[i] = t.base[1+i%(len(t.base)-1)]
	}
	return len(p), nil
}

type updatedState struct {""")],
 "the first message of a new chain arrives for an archived session that is not the oldest one",
 "The new ratchet key of a revived session is derived from public values.",'''
	a, b := pair(t)
	talk(t, a, b)
	a.start(b, true)
	talk(t, a, b)
	m := a.enc(b, "of session two")
	base := func() []byte {
		r, _, err := b.ss.Load(bg, a.addr)
		must(err)
		return r.State().AliceBaseKey()
	}()
	a.start(b, true)
	b.want(t, a, a.enc(b, "three"), "three")
	b.want(t, a, m, "of session two")
	r, _, err := b.ss.Load(bg, a.addr)
	must(err)
	k, err := r.State().SenderRatchetPrivateKey()
	must(err)
	want, err := curve.NewPrivateKey(base[1:])
	must(err)
	if bytes.Equal(k.Bytes(), want.Bytes()) {
		t.Fatal("ratchet key derived from a public key")
	}''')
bug("c13-short-cut","C13",[(GC,"""	err = g.SenderKeyStore.Store(ctx, g.SenderAddress, ciphertext.DistributionID(), record)
	if err != nil {
		return nil, err
	}

	return plaintext, nil
}
""","""	if current, err := record.State(); err != nil || current != state && state.SenderChainKey().Iteration() > ciphertext.Iteration()+1 {
		// A late message under an old key: the record is as good as it was.
		return plaintext, err
	}

	err = g.SenderKeyStore.Store(ctx, g.SenderAddress, ciphertext.DistributionID(), record)
	if err != nil {
		return nil, err
	}

	return plaintext, nil
}
""")],
 "a delayed group message under a sender key that is no longer the newest, delivered twice",
 "Delayed messages under a replaced sender key decrypt again and again.",'''
	a, b := newParty("alice"), newParty("bob")
	b.join(a, a.skdm())
	m0, m1 := a.gsend("zero"), a.gsend("one")
	b.gwant(t, a, m1, "one")
	a.gs = NewInMemGroupStore()
	b.join(a, a.skdm())
	b.gwant(t, a, m0, "zero")
	if p, err := b.gdec(a, m0.Bytes()); err == nil {
		t.Fatalf("again: %q", p)
	}''')
bug("c23-self-link","C23",[("identity/keys.go","""	return k.publicKey.VerifySignature(signature,
		alternate""","""	if k.Equal(other) {
		// Everybody is who they are.
		return true, nil
	}
	return k.publicKey.VerifySignature(signature,
		alternate""")],
 "a made-up signature for a link of an identity key to itself",
 "A link of a key to itself is accepted although its holder never made it.",'''
	a := newParty("alice")
	if ok, err := a.id.IdentityKey().VerifyAlternateIdentity(make([]byte, 64), a.id.IdentityKey()); ok {
		t.Fatal("accepted", err)
	}''')

bug("c27-load-error","C27",[(CI,"""	record, exists, err := s.SessionStore.Load(ctx, s.RemoteAddress)
	if err != nil {
		return nil, err
	}
	if !exists {
		return nil, perrors.ErrSessionNotFound(s.RemoteAddress)
	}

	state := record.State()""","""	record, exists, err := s.SessionStore.Load(ctx, s.RemoteAddress)
	if err != nil || !exists {
		return nil, perrors.ErrSessionNotFound(s.RemoteAddress)
	}

	state := record.State()""")],
 "the session store fails to load a record when a message is to be sent",
 "A failure of the session store is reported as a missing session, for which an application fetches a bundle and replaces the session.",'''
	a, b := pair(t)
	s := a.with(b)
	s.SessionStore = noLoad{a.ss}
	_, err := s.EncryptMessage(bg, []byte("x"))
	if !errors.Is(err, errDisk) {
		t.Fatal(err)
	}''')
BUGS[-1]["decls"]='''
var errDisk = errors.New("disk error")

type (
	anyStore = Store
	noLoad   struct{ anyStore }
)

func (noLoad) Load(context.Context, address.Address) (*Record, bool, error) { return nil, false, errDisk }
'''
bug("c27-trust-error","C27",[(SE,"""	trusted, err := s.IdentityKeyStore.IsTrustedIdentity(ctx, s.RemoteAddress, message.IdentityKey(), direction.Receiving)
	if err != nil {
		return nil, err
	}
	if !trusted {""","""	trusted, err := s.IdentityKeyStore.IsTrustedIdentity(ctx, s.RemoteAddress, message.IdentityKey(), direction.Receiving)
	if err != nil || !trusted {""")],
 "the identity store fails while an initial message is received",
 "A failure of the identity store is reported as an untrusted identity, although nobody's key changed.",'''
	a, b := newParty("alice"), newParty("bob")
	a.start(b, true)
	m := a.enc(b, "x")
	s := b.with(a)
	s.IdentityKeyStore = noTrust{b.ids}
	_, err := s.DecryptMessage(bg, rand.Reader, reparse(m))
	if !errors.Is(err, errDisk) {
		t.Fatal(err)
	}''')
BUGS[-1]["decls"]='''
var errDisk = errors.New("disk error")

type (
	anyStore = identity.Store
	noTrust  struct{ anyStore }
)

func (noTrust) IsTrustedIdentity(context.Context, address.Address, identity.Key, direction.Direction) (bool, error) {
	return false, errDisk
}
'''
bug("c27-flat-error","C27",[(CI,"""		err := s.PreKeyStore.Delete(ctx, *preKeyID)
		if err != nil {
			return nil, err
		}""","""		if s.PreKeyStore.Delete(ctx, *preKeyID) != nil {
			return nil, fmt.Errorf("one-time pre-key %d not deleted", *preKeyID)
		}""")],
 "deleting the one-time pre-key fails, for example because the context was cancelled",
 "The reason is lost, so that the application cannot tell a cancelled operation or a failed disk from a bad message.",'''
	a, b := newParty("alice"), newParty("bob")
	a.start(b, true)
	m := a.enc(b, "x")
	s := b.with(a)
	s.PreKeyStore = noDelete{b.pk}
	_, err := s.DecryptMessage(bg, rand.Reader, reparse(m))
	if !errors.Is(err, context.Canceled) {
		t.Fatal(err)
	}''')
BUGS[-1]["decls"]='''
type (
	anyStore = prekey.Store
	noDelete struct{ anyStore }
)

func (noDelete) Delete(context.Context, prekey.ID) error { return context.Canceled }
'''
bug("c27-only-archived","C27",[(CI,"""	if record.State() != nil {
		glog.Errorf("no valid session for recipient %v (previous states: %d)", s.RemoteAddress, len(previousStates))
	} else {
		glog.Errorf""","""	if record.State() != nil {
		glog.Errorf("no valid session for recipient %v (previous states: %d)", s.RemoteAddress, len(previousStates))
	} else {
		if len(previousStates) > 0 {
			return nil, perrors.ErrNoCurrentSession
		}
		glog.Errorf""")],
 "a corrupted message for a record whose sessions are all archived",
 "A message that no archived session decrypts is reported as there being no current session.",'''
	a, b := pair(t)
	m := a.enc(b, "x")
	r, _, err := b.ss.Load(bg, a.addr)
	must(err)
	r.ArchiveCurrentState()
	must(b.ss.Store(bg, a.addr, r))
	w := append([]byte(nil), m.Bytes()...)
	w[len(w)-1] ^= 1
	bad, err := message.NewSignalFromBytes(w)
	must(err)
	_, err = b.with(a).DecryptMessage(bg, rand.Reader, bad)
	if err == nil || errors.Is(err, perrors.ErrNoCurrentSession) {
		t.Fatal(err)
	}''')
bug("c27-group-cancel","C27",[(GC,"""	record, exists, err := g.SenderKeyStore.Load(ctx, g.SenderAddress, distributionID)
	if err != nil {
		return nil, err
	}
	if !exists {""","""	record, exists, err := g.SenderKeyStore.Load(ctx, g.SenderAddress, distributionID)
	if err != nil || !exists {""")],
 "the group store fails to load a record when a group message is received",
 "A failure of the group store is reported as an unknown sender key.",'''
	a, b := newParty("alice"), newParty("bob")
	b.join(a, a.skdm())
	m := a.gsend("x")
	g := b.group(a)
	g.SenderKeyStore = noGroup{b.gs}
	_, err := g.DecryptMessage(bg, m)
	if !errors.Is(err, context.Canceled) {
		t.Fatal(err)
	}''')
BUGS[-1]["decls"]='''
type noGroup struct{ GroupStore }

func (noGroup) Load(context.Context, address.Address, distribution.ID) (*GroupRecord, bool, error) {
	return nil, false, context.Canceled
}
'''

bug("c09-cached-trust","C09",[(SE,"""	IdentityKeyStore  identity.Store
}
""","""	IdentityKeyStore  identity.Store

	// trustedKey is the identity key last found to be trusted for sending.
	trustedKey []byte
}
"""),(CI,"""	trusted, err := s.IdentityKeyStore.IsTrustedIdentity(ctx, s.RemoteAddress, theirIdentityKey, direction.Sending)
	if err != nil {
		return nil, err
	}
	if !trusted {""","""	trusted := bytes.Equal(s.trustedKey, theirIdentityKey.Bytes())
	if !trusted {
		trusted, err = s.IdentityKeyStore.IsTrustedIdentity(ctx, s.RemoteAddress, theirIdentityKey, direction.Sending)
		if err != nil {
			return nil, err
		}
		if trusted {
			s.trustedKey = theirIdentityKey.Bytes()
		}
	}
	if !trusted {""")],
 "a Session value used for several messages, between which the application accepts another identity key or blocks the present one",
 "A Session keeps encrypting for an identity it once found trusted.",'''
	a, b := pair(t)
	s := a.with(b)
	_, err := s.EncryptMessage(bg, []byte("x"))
	must(err)
	_, err = a.ids.Store(bg, b.addr, genID().IdentityKey())
	must(err)
	if _, err := s.EncryptMessage(bg, []byte("y")); err == nil {
		t.Fatal("encrypted for the old identity")
	}''')
bug("c11-cached-record","C11",[(SE,"""	IdentityKeyStore  identity.Store
}
""","""	IdentityKeyStore  identity.Store

	// sent is the record as of the last message sent.
	sent *Record
}
"""),(CI,"""	record, exists, err := s.SessionStore.Load(ctx, s.RemoteAddress)
	if err != nil {
		return nil, err
	}
	if !exists {
		return nil, perrors.ErrSessionNotFound(s.RemoteAddress)
	}

	state := record.State()
	if state == nil {
		return nil, perrors.ErrSessionNotFound(s.RemoteAddress)
	}
""","""	record, exists, err := s.SessionStore.Load(ctx, s.RemoteAddress)
	if err != nil {
		return nil, err
	}
	if !exists {
		return nil, perrors.ErrSessionNotFound(s.RemoteAddress)
	}
	if record.State() == nil && s.sent != nil {
		// The session in hand is still good.
		record = s.sent
	}

	state := record.State()
	if state == nil {
		return nil, perrors.ErrSessionNotFound(s.RemoteAddress)
	}
"""),(CI,"""	if err := s.SessionStore.Store(ctx, s.RemoteAddress, record); err != nil {
		return nil, err
	}

	return msg, nil""","""	if err := s.SessionStore.Store(ctx, s.RemoteAddress, record); err != nil {
		return nil, err
	}
	s.sent = record

	return msg, nil""")],
 "a Session value that sent a message before the session was archived and is used to send again",
 "After archiving its session a party goes on sending with it, overwriting the record.",'''
	a, b := pair(t)
	s := a.with(b)
	_, err := s.EncryptMessage(bg, []byte("x"))
	must(err)
	r, _, err := a.ss.Load(bg, b.addr)
	must(err)
	r.ArchiveCurrentState()
	must(a.ss.Store(bg, b.addr, r))
	if _, err := s.EncryptMessage(bg, []byte("y")); err == nil {
		t.Fatal("sent")
	}''')
