From f47d8ce75db7a5d1477ea6f99f56b95d7bfa4505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:25 +0000
Subject: [PATCH 01/16] fix: report decryption failures of signal messages

decryptSignal overwrote the error of decryptMessage, so tampered, duplicate and
otherwise undecryptable messages were reported as a successful decryption to a
nil plaintext.
---
 protocol/session/cipher.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/protocol/session/cipher.go b/protocol/session/cipher.go
index 3fd117a..8e84633 100644
--- a/protocol/session/cipher.go
+++ b/protocol/session/cipher.go
@@ -180,6 +180,9 @@ func (s *Session) decryptSignal(ctx context.Context, random io.Reader, ciphertex
 	}
 
 	plaintext, err := s.decryptMessage(random, record, ciphertext.Type(), ciphertext)
+	if err != nil {
+		return nil, err
+	}
 
 	if record.State() == nil {
 		return nil, errors.New("successfully decrypted; must have a current state")
-- 
2.43.0


From ad1e5ab6b86ad4f5786089180bb97e6e9f44b557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:25 +0000
Subject: [PATCH 02/16] fix: advance the receiver chain past the message being
 decrypted

The receiver chain was left at the index of the decrypted message, so that
message could be decrypted again, and its keys were later also kept as skipped
message keys.
---
 protocol/session/cipher.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/session/cipher.go b/protocol/session/cipher.go
index 8e84633..dfcd76b 100644
--- a/protocol/session/cipher.go
+++ b/protocol/session/cipher.go
@@ -416,7 +416,7 @@ func (s *Session) messageKeys(state *State, theirEphemeral curve.PublicKey, chai
 		chainKey = chainKey.Next()
 	}
 
-	err := state.SetReceiverChainKey(theirEphemeral, chainKey)
+	err := state.SetReceiverChainKey(theirEphemeral, chainKey.Next())
 	if err != nil {
 		return ratchet.MessageKeys{}, err
 	}
-- 
2.43.0


From dd93d268c19ad5f17f1e2c81c0717bb7049ac279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:25 +0000
Subject: [PATCH 03/16] fix: reject signal messages too short to hold a MAC

NewSignalFromBytes panicked on inputs of one to eight bytes.
---
 protocol/message/signal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/message/signal.go b/protocol/message/signal.go
index 69d64ba..732d945 100644
--- a/protocol/message/signal.go
+++ b/protocol/message/signal.go
@@ -73,7 +73,7 @@ func NewSignal(cfg SignalConfig) (Ciphertext, error) {
 }
 
 func NewSignalFromBytes(bytes []byte) (Ciphertext, error) {
-	if len(bytes) == 0 {
+	if len(bytes) < 1+macSize {
 		return nil, errors.New("message too short")
 	}
 
-- 
2.43.0


From 2ccd755fed4519da93cb5f495240aeee0456c9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:25 +0000
Subject: [PATCH 04/16] fix: reject pre-key messages which name unknown
 pre-keys

An unknown signed pre-key ID dereferenced a nil key pair, so any pre-key message
could crash its recipient, and an unknown one-time pre-key ID was silently treated
as if no one-time pre-key had been used.
---
 protocol/session/session.go | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/protocol/session/session.go b/protocol/session/session.go
index 727fe66..ede1854 100644
--- a/protocol/session/session.go
+++ b/protocol/session/session.go
@@ -6,6 +6,7 @@ import (
 	"bytes"
 	"context"
 	"errors"
+	"fmt"
 	"io"
 
 	"github.com/golang/glog"
@@ -69,16 +70,16 @@ func (s *Session) processPreKeyV3(ctx context.Context, record *Record, message *
 		return nil, nil
 	}
 
-	var ourSignedPreKeyPair *curve.KeyPair
 	ourSignedPreKeyRecord, exists, err := s.SignedPreKeyStore.Load(ctx, message.SignedPreKeyID())
 	if err != nil {
 		return nil, err
 	}
-	if exists {
-		ourSignedPreKeyPair, err = ourSignedPreKeyRecord.KeyPair()
-		if err != nil {
-			return nil, err
-		}
+	if !exists {
+		return nil, fmt.Errorf("signed pre-key %s not found", message.SignedPreKeyID())
+	}
+	ourSignedPreKeyPair, err := ourSignedPreKeyRecord.KeyPair()
+	if err != nil {
+		return nil, err
 	}
 
 	var ourOneTimePreKeyPair *curve.KeyPair
@@ -91,11 +92,12 @@ func (s *Session) processPreKeyV3(ctx context.Context, record *Record, message *
 		if err != nil {
 			return nil, err
 		}
-		if exists {
-			ourOneTimePreKeyPair, err = ourOneTimePreKeyRecord.KeyPair()
-			if err != nil {
-				return nil, err
-			}
+		if !exists {
+			return nil, fmt.Errorf("one-time pre-key %s not found", message.PreKeyID())
+		}
+		ourOneTimePreKeyPair, err = ourOneTimePreKeyRecord.KeyPair()
+		if err != nil {
+			return nil, err
 		}
 	}
 
-- 
2.43.0


From ec5d4e871225c88c52746b88920a67a48380e2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:25 +0000
Subject: [PATCH 05/16] fix: check errors when initializing a session from a
 pre-key message

A pre-key message whose base key or identity key is a low-order point made the
key agreement fail and the recipient dereference a nil session.
---
 protocol/session/session.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/protocol/session/session.go b/protocol/session/session.go
index ede1854..c6a3d86 100644
--- a/protocol/session/session.go
+++ b/protocol/session/session.go
@@ -109,6 +109,9 @@ func (s *Session) processPreKeyV3(ctx context.Context, record *Record, message *
 		TheirIdentityKey:     message.IdentityKey(),
 		TheirBaseKey:         message.BaseKey(),
 	})
+	if err != nil {
+		return nil, err
+	}
 
 	session.SetLocalRegistrationID(s.IdentityKeyStore.LocalRegistrationID(ctx))
 	session.SetRemoteRegistrationID(message.RegistrationID())
@@ -309,6 +312,9 @@ func initializeBobSession(params *ratchet.BobParameters) (*State, error) {
 	}
 
 	rootKey, chainKey, err := ratchet.DeriveKeys(secrets.Bytes())
+	if err != nil {
+		return nil, err
+	}
 
 	session := NewState(&v1.SessionStructure{
 		SessionVersion:       message.CiphertextVersion,
-- 
2.43.0


From 5134e41a058d055abb34f59e719bdba51a2d42a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:12 +0000
Subject: [PATCH 06/16] fix: trust a sender's identity key only once its
 pre-key message decrypts

The identity key of a pre-key message was stored, and so trusted, before the message
was authenticated: anybody could pin an identity key of their choice for an address
not seen before by sending a forged pre-key message.
---
 protocol/session/cipher.go  |  7 ++++++-
 protocol/session/session.go | 22 +++++++++++++---------
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/protocol/session/cipher.go b/protocol/session/cipher.go
index dfcd76b..e25e8fd 100644
--- a/protocol/session/cipher.go
+++ b/protocol/session/cipher.go
@@ -145,7 +145,7 @@ func (s *Session) decryptPreKey(ctx context.Context, random io.Reader, ciphertex
 		record = NewRecord(nil)
 	}
 
-	preKeyID, err := s.ProcessPreKey(ctx, record, ciphertext)
+	preKeyID, err := s.processPreKey(ctx, record, ciphertext)
 	if err != nil {
 		return nil, err
 	}
@@ -155,6 +155,11 @@ func (s *Session) decryptPreKey(ctx context.Context, random io.Reader, ciphertex
 		return nil, err
 	}
 
+	_, err = s.IdentityKeyStore.Store(ctx, s.RemoteAddress, ciphertext.IdentityKey())
+	if err != nil {
+		return nil, err
+	}
+
 	err = s.SessionStore.Store(ctx, s.RemoteAddress, record)
 	if err != nil {
 		return nil, err
diff --git a/protocol/session/session.go b/protocol/session/session.go
index c6a3d86..7541f7e 100644
--- a/protocol/session/session.go
+++ b/protocol/session/session.go
@@ -37,27 +37,31 @@ type Session struct {
 // This method returns the one-time pre-key used by "Alice" when sending the initial message,
 // if one was used.
 func (s *Session) ProcessPreKey(ctx context.Context, record *Record, message *message.PreKey) (*prekey.ID, error) {
-	theirIdentityKey := message.IdentityKey()
-
-	trusted, err := s.IdentityKeyStore.IsTrustedIdentity(ctx, s.RemoteAddress, theirIdentityKey, direction.Receiving)
+	unsignedPreKeyID, err := s.processPreKey(ctx, record, message)
 	if err != nil {
 		return nil, err
 	}
-	if !trusted {
-		return nil, perrors.ErrUntrustedIdentity(s.RemoteAddress)
-	}
 
-	unsignedPreKeyID, err := s.processPreKeyV3(ctx, record, message)
+	_, err = s.IdentityKeyStore.Store(ctx, s.RemoteAddress, message.IdentityKey())
 	if err != nil {
 		return nil, err
 	}
 
-	_, err = s.IdentityKeyStore.Store(ctx, s.RemoteAddress, theirIdentityKey)
+	return unsignedPreKeyID, nil
+}
+
+// processPreKey does the same as ProcessPreKey without storing the sender's identity key,
+// which has yet to be authenticated by decrypting the message.
+func (s *Session) processPreKey(ctx context.Context, record *Record, message *message.PreKey) (*prekey.ID, error) {
+	trusted, err := s.IdentityKeyStore.IsTrustedIdentity(ctx, s.RemoteAddress, message.IdentityKey(), direction.Receiving)
 	if err != nil {
 		return nil, err
 	}
+	if !trusted {
+		return nil, perrors.ErrUntrustedIdentity(s.RemoteAddress)
+	}
 
-	return unsignedPreKeyID, nil
+	return s.processPreKeyV3(ctx, record, message)
 }
 
 func (s *Session) processPreKeyV3(ctx context.Context, record *Record, message *message.PreKey) (*prekey.ID, error) {
-- 
2.43.0


From 47e847059eb2b71ee3df3328fd3dae6ee8a8fe2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:12 +0000
Subject: [PATCH 07/16] fix: reject pre-key messages around a message of
 another session

A genuine message re-wrapped in a forged pre-key message was decrypted by its own
session, after which the forged session was archived, the one-time pre-key named by
the forgery was deleted and the identity key named by it was stored.
---
 protocol/session/cipher.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/protocol/session/cipher.go b/protocol/session/cipher.go
index e25e8fd..05825d7 100644
--- a/protocol/session/cipher.go
+++ b/protocol/session/cipher.go
@@ -1,6 +1,7 @@
 package session
 
 import (
+	"bytes"
 	"context"
 	"encoding/hex"
 	"errors"
@@ -155,7 +156,18 @@ func (s *Session) decryptPreKey(ctx context.Context, random io.Reader, ciphertex
 		return nil, err
 	}
 
-	_, err = s.IdentityKeyStore.Store(ctx, s.RemoteAddress, ciphertext.IdentityKey())
+	// The message inside may also be decrypted by another session of the record,
+	// in which case nothing authenticates the pre-key message around it.
+	state := record.State()
+	theirIdentityKey, exists, err := state.RemoteIdentityKey()
+	if err != nil {
+		return nil, err
+	}
+	if !bytes.Equal(state.AliceBaseKey(), ciphertext.BaseKey().Bytes()) || !exists || !theirIdentityKey.Equal(ciphertext.IdentityKey()) {
+		return nil, errors.New("pre-key message does not match the session of the message inside")
+	}
+
+	_, err = s.IdentityKeyStore.Store(ctx, s.RemoteAddress, theirIdentityKey)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From d149f869550b6f1a2bf8c7b454368c4228076789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:12 +0000
Subject: [PATCH 08/16] fix: keep stored session records from being modified in
 place

The in-memory stores handed out the stored records themselves, so operations which
failed after modifying a record, such as the decryption of a forged pre-key message,
had already changed the stored session.
---
 protocol/session/group_record.go |  9 +++++++++
 protocol/session/group_state.go  |  8 ++++++++
 protocol/session/record.go       | 10 ++++++++++
 protocol/session/store_inmem.go  | 14 ++++++++++----
 4 files changed, 37 insertions(+), 4 deletions(-)

diff --git a/protocol/session/group_record.go b/protocol/session/group_record.go
index f07768d..7771694 100644
--- a/protocol/session/group_record.go
+++ b/protocol/session/group_record.go
@@ -21,6 +21,15 @@ func NewGroupRecord() *GroupRecord {
 	}
 }
 
+// Clone returns a copy of the record which shares no mutable state with it.
+func (g *GroupRecord) Clone() *GroupRecord {
+	clone := NewGroupRecord()
+	for _, state := range g.states {
+		clone.states = append(clone.states, state.Clone())
+	}
+	return clone
+}
+
 func (g *GroupRecord) State() (*GroupState, error) {
 	if len(g.states) == 0 {
 		return nil, errors.New("empty sender key state")
diff --git a/protocol/session/group_state.go b/protocol/session/group_state.go
index c7dcf2b..ec9ca74 100644
--- a/protocol/session/group_state.go
+++ b/protocol/session/group_state.go
@@ -1,6 +1,8 @@
 package session
 
 import (
+	"google.golang.org/protobuf/proto"
+
 	"github.com/RTann/libsignal-go/protocol/curve"
 	v1 "github.com/RTann/libsignal-go/protocol/generated/v1"
 	"github.com/RTann/libsignal-go/protocol/senderkey"
@@ -45,6 +47,12 @@ func NewGroupState(cfg GroupStateConfig) *GroupState {
 	}
 }
 
+func (s *GroupState) Clone() *GroupState {
+	return &GroupState{
+		state: proto.Clone(s.state).(*v1.SenderKeyStateStructure),
+	}
+}
+
 func (s *GroupState) Version() uint32 {
 	switch v := s.state.GetMessageVersion(); v {
 	case 0:
diff --git a/protocol/session/record.go b/protocol/session/record.go
index 88261b7..a4c5b04 100644
--- a/protocol/session/record.go
+++ b/protocol/session/record.go
@@ -40,6 +40,16 @@ func NewRecordBytes(bytes []byte) (*Record, error) {
 	}, nil
 }
 
+// Clone returns a copy of the record which shares no mutable state with it.
+func (r *Record) Clone() *Record {
+	clone := NewRecord(nil)
+	if r.currentSession != nil {
+		clone.currentSession = r.currentSession.Clone()
+	}
+	clone.previousSessions = append(clone.previousSessions, r.previousSessions...)
+	return clone
+}
+
 func (r *Record) State() *State {
 	return r.currentSession
 }
diff --git a/protocol/session/store_inmem.go b/protocol/session/store_inmem.go
index 5203afe..f5c7010 100644
--- a/protocol/session/store_inmem.go
+++ b/protocol/session/store_inmem.go
@@ -23,11 +23,14 @@ func NewInMemStore() Store {
 
 func (i *inMemStore) Load(_ context.Context, address address.Address) (*Record, bool, error) {
 	record, exists := i.sessions[address]
-	return record, exists, nil
+	if !exists {
+		return nil, false, nil
+	}
+	return record.Clone(), true, nil
 }
 
 func (i *inMemStore) Store(_ context.Context, address address.Address, record *Record) error {
-	i.sessions[address] = record
+	i.sessions[address] = record.Clone()
 	return nil
 }
 
@@ -51,13 +54,16 @@ func (i *inMemGroupStore) Load(_ context.Context, sender address.Address, distri
 		address: sender,
 		id:      distributionID,
 	}]
-	return record, exists, nil
+	if !exists {
+		return nil, false, nil
+	}
+	return record.Clone(), true, nil
 }
 
 func (i *inMemGroupStore) Store(_ context.Context, sender address.Address, distributionID distribution.ID, record *GroupRecord) error {
 	i.senderKeys[key{
 		address: sender,
 		id:      distributionID,
-	}] = record
+	}] = record.Clone()
 	return nil
 }
-- 
2.43.0


From 5cbc7d4427ffb0ade93be468c368ad8498cbf1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:12 +0000
Subject: [PATCH 09/16] fix: do not write padding into the caller's plaintext
 buffer

pkcs7pad appended to the caller's slice and overwrote up to 16 bytes behind the
plaintext whenever the slice had spare capacity.
---
 protocol/crypto/aes/aes.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/protocol/crypto/aes/aes.go b/protocol/crypto/aes/aes.go
index 8c9438b..3295a39 100644
--- a/protocol/crypto/aes/aes.go
+++ b/protocol/crypto/aes/aes.go
@@ -66,7 +66,10 @@ func CBCDecrypt(key, iv, ciphertext []byte) ([]byte, error) {
 func pkcs7pad(plaintext []byte) []byte {
 	n := aes.BlockSize - (len(plaintext) % aes.BlockSize)
 
-	return append(plaintext, bytes.Repeat([]byte{byte(n)}, n)...)
+	padded := make([]byte, 0, len(plaintext)+n)
+	padded = append(padded, plaintext...)
+
+	return append(padded, bytes.Repeat([]byte{byte(n)}, n)...)
 }
 
 // pkcs7unpad unpads plaintext which adhered to PKS #7 padding rules.
-- 
2.43.0


From 0a209eff7fc8af866b8150ae4cde0c29d643e830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:12 +0000
Subject: [PATCH 10/16] fix: report an identity key as overwritten only when it
 changes

Store compared the pointers of the keys, so storing an equal key was reported as
overwriting the previous one.
---
 protocol/identity/store_inmem.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/identity/store_inmem.go b/protocol/identity/store_inmem.go
index 1031134..1e86e18 100644
--- a/protocol/identity/store_inmem.go
+++ b/protocol/identity/store_inmem.go
@@ -42,7 +42,7 @@ func (i *inMemStore) Store(_ context.Context, address address.Address, identity
 	knownIdentity, exists := i.knownKeys[address]
 	i.knownKeys[address] = identity
 
-	return exists && identity != knownIdentity, nil
+	return exists && !identity.Equal(knownIdentity), nil
 }
 
 func (i *inMemStore) Clear() error {
-- 
2.43.0


From 0c5d1bb4b14ac0b4ecfc3c1433ffd4fc00a2efb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:12 +0000
Subject: [PATCH 11/16] fix: use the newest state of a group record as the
 current one

States are appended, so the first one is the oldest: after adding a new sender key
the old one was still used to send and to create distribution messages.
---
 protocol/session/group_record.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/protocol/session/group_record.go b/protocol/session/group_record.go
index 7771694..1ba5428 100644
--- a/protocol/session/group_record.go
+++ b/protocol/session/group_record.go
@@ -35,7 +35,8 @@ func (g *GroupRecord) State() (*GroupState, error) {
 		return nil, errors.New("empty sender key state")
 	}
 
-	return g.states[0], nil
+	// States are ordered from oldest to newest.
+	return g.states[len(g.states)-1], nil
 }
 
 func (g *GroupRecord) StateForChainID(chainID uint32) *GroupState {
-- 
2.43.0


From cd9c517bb9d73241a881fcd6b8c02373141b5a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:12 +0000
Subject: [PATCH 12/16] fix: leave no current session after archiving it

ArchiveCurrentState kept the archived session as the current one, so an archived
session was still used to send, and two copies of it could decrypt the same message.
---
 protocol/session/record.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/protocol/session/record.go b/protocol/session/record.go
index a4c5b04..85265e3 100644
--- a/protocol/session/record.go
+++ b/protocol/session/record.go
@@ -125,6 +125,7 @@ func (r *Record) ArchiveCurrentState() {
 	}
 
 	r.previousSessions = append(r.previousSessions, r.currentSession.Bytes())
+	r.currentSession = nil
 }
 
 func (r *Record) LocalIdentityKey() (identity.Key, error) {
-- 
2.43.0


From 109edc109aa1995ddd95f57b7d03584453fd9542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:12 +0000
Subject: [PATCH 13/16] fix: report untrusted identities of pre-key bundles as
 such

perrors.IsErrUntrustedIdentity did not recognize the error.
---
 protocol/session/session.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/session/session.go b/protocol/session/session.go
index 7541f7e..8676189 100644
--- a/protocol/session/session.go
+++ b/protocol/session/session.go
@@ -136,7 +136,7 @@ func (s *Session) ProcessPreKeyBundle(ctx context.Context, random io.Reader, bun
 		return err
 	}
 	if !trusted {
-		return errors.New("untrusted identity")
+		return perrors.ErrUntrustedIdentity(s.RemoteAddress)
 	}
 
 	ok, err := theirIdentityKey.PublicKey().VerifySignature(bundle.SignedPreKeySignature, bundle.SignedPreKeyPublic.Bytes())
-- 
2.43.0


From f39e9988662043bebe510c871c672d05db4e1e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:20 +0000
Subject: [PATCH 14/16] fix: reject alternative encodings of base keys in
 pre-key messages

A base key with its unused high bit set, or with a low-order point added,
leads to the same shared secrets but was taken for another session: the
same initial message could be decrypted again, and the genuine initial
messages following an altered one were refused.
---
 protocol/curve/curve25519/curve25519.go | 30 +++++++++++++++++++++++++
 protocol/session/session.go             |  7 ++++++
 2 files changed, 37 insertions(+)

diff --git a/protocol/curve/curve25519/curve25519.go b/protocol/curve/curve25519/curve25519.go
index 694b9ae..ac433f9 100644
--- a/protocol/curve/curve25519/curve25519.go
+++ b/protocol/curve/curve25519/curve25519.go
@@ -4,6 +4,7 @@
 package curve25519
 
 import (
+	"bytes"
 	"crypto/ecdh"
 	"crypto/ed25519"
 	"crypto/rand"
@@ -11,6 +12,7 @@ import (
 	"io"
 
 	"filippo.io/edwards25519"
+	"filippo.io/edwards25519/field"
 
 	"github.com/RTann/libsignal-go/protocol/perrors"
 )
@@ -206,3 +208,31 @@ func VerifySignature(publicKey []byte, signature []byte, messages ...[]byte) (bo
 
 	return ed25519.Verify(y, msg, sig), nil
 }
+
+// IsCanonical reports whether the given public key is the canonical encoding of
+// a point of the prime-order group, as is every public key of a private key.
+//
+// Other encodings may be equivalent to one of those as far as Agreement is concerned.
+func IsCanonical(publicKey []byte) bool {
+	u, err := new(field.Element).SetBytes(publicKey)
+	if err != nil || !bytes.Equal(u.Bytes(), publicKey) {
+		return false
+	}
+	y, err := utoy(publicKey, true)
+	if err != nil {
+		return false
+	}
+	point, err := new(edwards25519.Point).SetBytes(y)
+	if err != nil {
+		return false
+	}
+
+	one, err := edwards25519.NewScalar().SetCanonicalBytes(append([]byte{1}, make([]byte, 31)...))
+	if err != nil {
+		return false
+	}
+	// Minus one is represented by the order of the prime-order group minus one.
+	product := new(edwards25519.Point).ScalarMult(one.Negate(one), point)
+
+	return product.Add(product, point).Equal(edwards25519.NewIdentityPoint()) == 1
+}
diff --git a/protocol/session/session.go b/protocol/session/session.go
index 8676189..97c9f9a 100644
--- a/protocol/session/session.go
+++ b/protocol/session/session.go
@@ -13,6 +13,7 @@ import (
 
 	"github.com/RTann/libsignal-go/protocol/address"
 	"github.com/RTann/libsignal-go/protocol/curve"
+	"github.com/RTann/libsignal-go/protocol/curve/curve25519"
 	"github.com/RTann/libsignal-go/protocol/direction"
 	v1 "github.com/RTann/libsignal-go/protocol/generated/v1"
 	"github.com/RTann/libsignal-go/protocol/identity"
@@ -74,6 +75,12 @@ func (s *Session) processPreKeyV3(ctx context.Context, record *Record, message *
 		return nil, nil
 	}
 
+	// The base key identifies the session, so it must not have other encodings
+	// which set up the same session once more.
+	if !curve25519.IsCanonical(message.BaseKey().KeyBytes()) {
+		return nil, errors.New("base key is not canonical")
+	}
+
 	ourSignedPreKeyRecord, exists, err := s.SignedPreKeyStore.Load(ctx, message.SignedPreKeyID())
 	if err != nil {
 		return nil, err
-- 
2.43.0


From b43f2c8ca30fd40297b0d8036bb25f87c057537d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:21 +0000
Subject: [PATCH 15/16] fix: NewSenderKeyDistribution accepts a nil source of
 randomness like every other operation

---
 protocol/session/group_session.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/protocol/session/group_session.go b/protocol/session/group_session.go
index 7b746ba..a2f35ae 100644
--- a/protocol/session/group_session.go
+++ b/protocol/session/group_session.go
@@ -58,7 +58,13 @@ func (g *GroupSession) ProcessSenderKeyDistribution(ctx context.Context, message
 }
 
 // NewSenderKeyDistribution constructs a sender-key distribution message for establishing a group session.
+//
+// If random is nil, then [crypto/rand.Reader] is used.
 func (g *GroupSession) NewSenderKeyDistribution(ctx context.Context, random io.Reader) (*message.SenderKeyDistribution, error) {
+	if random == nil {
+		random = rand.Reader
+	}
+
 	record, exists, err := g.SenderKeyStore.Load(ctx, g.SenderAddress, g.DistID)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 2d98ef2a422295ba9f4e1330e6f8e7318d00325c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:54 +0000
Subject: [PATCH 16/16] fix: a one-time pre-key with ID 0 was left out of the
 initial messages of its session

---
 protocol/generated/v1/storage.pb.go | 192 ++++++++++++++--------------
 protocol/proto/v1/storage.proto     |   2 +-
 protocol/session/state.go           |   7 +-
 3 files changed, 102 insertions(+), 99 deletions(-)

diff --git a/protocol/generated/v1/storage.pb.go b/protocol/generated/v1/storage.pb.go
index 8e47d58..ddbc3b6 100644
--- a/protocol/generated/v1/storage.pb.go
+++ b/protocol/generated/v1/storage.pb.go
@@ -608,9 +608,9 @@ type SessionStructure_PendingPreKey struct {
 	sizeCache     protoimpl.SizeCache
 	unknownFields protoimpl.UnknownFields
 
-	PreKeyId       uint32 `protobuf:"varint,1,opt,name=pre_key_id,json=preKeyId,proto3" json:"pre_key_id,omitempty"`
-	SignedPreKeyId int32  `protobuf:"varint,3,opt,name=signed_pre_key_id,json=signedPreKeyId,proto3" json:"signed_pre_key_id,omitempty"`
-	BaseKey        []byte `protobuf:"bytes,2,opt,name=base_key,json=baseKey,proto3" json:"base_key,omitempty"`
+	PreKeyId       *uint32 `protobuf:"varint,1,opt,name=pre_key_id,json=preKeyId,proto3,oneof" json:"pre_key_id,omitempty"`
+	SignedPreKeyId int32   `protobuf:"varint,3,opt,name=signed_pre_key_id,json=signedPreKeyId,proto3" json:"signed_pre_key_id,omitempty"`
+	BaseKey        []byte  `protobuf:"bytes,2,opt,name=base_key,json=baseKey,proto3" json:"base_key,omitempty"`
 }
 
 func (x *SessionStructure_PendingPreKey) Reset() {
@@ -646,8 +646,8 @@ func (*SessionStructure_PendingPreKey) Descriptor() ([]byte, []int) {
 }
 
 func (x *SessionStructure_PendingPreKey) GetPreKeyId() uint32 {
-	if x != nil {
-		return x.PreKeyId
+	if x != nil && x.PreKeyId != nil {
+		return *x.PreKeyId
 	}
 	return 0
 }
@@ -962,7 +962,7 @@ var File_storage_proto protoreflect.FileDescriptor
 var file_storage_proto_rawDesc = []byte{
 	0x0a, 0x0d, 0x73, 0x74, 0x6f, 0x72, 0x61, 0x67, 0x65, 0x2e, 0x70, 0x72, 0x6f, 0x74, 0x6f, 0x12,
 	0x14, 0x73, 0x69, 0x67, 0x6e, 0x61, 0x6c, 0x2e, 0x70, 0x72, 0x6f, 0x74, 0x6f, 0x2e, 0x73, 0x74,
-	0x6f, 0x72, 0x61, 0x67, 0x65, 0x22, 0xc1, 0x09, 0x0a, 0x10, 0x53, 0x65, 0x73, 0x73, 0x69, 0x6f,
+	0x6f, 0x72, 0x61, 0x67, 0x65, 0x22, 0xd6, 0x09, 0x0a, 0x10, 0x53, 0x65, 0x73, 0x73, 0x69, 0x6f,
 	0x6e, 0x53, 0x74, 0x72, 0x75, 0x63, 0x74, 0x75, 0x72, 0x65, 0x12, 0x27, 0x0a, 0x0f, 0x73, 0x65,
 	0x73, 0x73, 0x69, 0x6f, 0x6e, 0x5f, 0x76, 0x65, 0x72, 0x73, 0x69, 0x6f, 0x6e, 0x18, 0x01, 0x20,
 	0x01, 0x28, 0x0d, 0x52, 0x0e, 0x73, 0x65, 0x73, 0x73, 0x69, 0x6f, 0x6e, 0x56, 0x65, 0x72, 0x73,
@@ -1030,95 +1030,96 @@ var file_storage_proto_rawDesc = []byte{
 	0x5f, 0x6b, 0x65, 0x79, 0x18, 0x02, 0x20, 0x01, 0x28, 0x0c, 0x52, 0x09, 0x63, 0x69, 0x70, 0x68,
 	0x65, 0x72, 0x4b, 0x65, 0x79, 0x12, 0x17, 0x0a, 0x07, 0x6d, 0x61, 0x63, 0x5f, 0x6b, 0x65, 0x79,
 	0x18, 0x03, 0x20, 0x01, 0x28, 0x0c, 0x52, 0x06, 0x6d, 0x61, 0x63, 0x4b, 0x65, 0x79, 0x12, 0x0e,
-	0x0a, 0x02, 0x69, 0x76, 0x18, 0x04, 0x20, 0x01, 0x28, 0x0c, 0x52, 0x02, 0x69, 0x76, 0x1a, 0x73,
-	0x0a, 0x0d, 0x50, 0x65, 0x6e, 0x64, 0x69, 0x6e, 0x67, 0x50, 0x72, 0x65, 0x4b, 0x65, 0x79, 0x12,
-	0x1c, 0x0a, 0x0a, 0x70, 0x72, 0x65, 0x5f, 0x6b, 0x65, 0x79, 0x5f, 0x69, 0x64, 0x18, 0x01, 0x20,
-	0x01, 0x28, 0x0d, 0x52, 0x08, 0x70, 0x72, 0x65, 0x4b, 0x65, 0x79, 0x49, 0x64, 0x12, 0x29, 0x0a,
-	0x11, 0x73, 0x69, 0x67, 0x6e, 0x65, 0x64, 0x5f, 0x70, 0x72, 0x65, 0x5f, 0x6b, 0x65, 0x79, 0x5f,
-	0x69, 0x64, 0x18, 0x03, 0x20, 0x01, 0x28, 0x05, 0x52, 0x0e, 0x73, 0x69, 0x67, 0x6e, 0x65, 0x64,
-	0x50, 0x72, 0x65, 0x4b, 0x65, 0x79, 0x49, 0x64, 0x12, 0x19, 0x0a, 0x08, 0x62, 0x61, 0x73, 0x65,
-	0x5f, 0x6b, 0x65, 0x79, 0x18, 0x02, 0x20, 0x01, 0x28, 0x0c, 0x52, 0x07, 0x62, 0x61, 0x73, 0x65,
-	0x4b, 0x65, 0x79, 0x4a, 0x04, 0x08, 0x0c, 0x10, 0x0d, 0x22, 0x8f, 0x01, 0x0a, 0x0f, 0x52, 0x65,
-	0x63, 0x6f, 0x72, 0x64, 0x53, 0x74, 0x72, 0x75, 0x63, 0x74, 0x75, 0x72, 0x65, 0x12, 0x4f, 0x0a,
-	0x0f, 0x63, 0x75, 0x72, 0x72, 0x65, 0x6e, 0x74, 0x5f, 0x73, 0x65, 0x73, 0x73, 0x69, 0x6f, 0x6e,
-	0x18, 0x01, 0x20, 0x01, 0x28, 0x0b, 0x32, 0x26, 0x2e, 0x73, 0x69, 0x67, 0x6e, 0x61, 0x6c, 0x2e,
-	0x70, 0x72, 0x6f, 0x74, 0x6f, 0x2e, 0x73, 0x74, 0x6f, 0x72, 0x61, 0x67, 0x65, 0x2e, 0x53, 0x65,
-	0x73, 0x73, 0x69, 0x6f, 0x6e, 0x53, 0x74, 0x72, 0x75, 0x63, 0x74, 0x75, 0x72, 0x65, 0x52, 0x0e,
-	0x63, 0x75, 0x72, 0x72, 0x65, 0x6e, 0x74, 0x53, 0x65, 0x73, 0x73, 0x69, 0x6f, 0x6e, 0x12, 0x2b,
-	0x0a, 0x11, 0x70, 0x72, 0x65, 0x76, 0x69, 0x6f, 0x75, 0x73, 0x5f, 0x73, 0x65, 0x73, 0x73, 0x69,
-	0x6f, 0x6e, 0x73, 0x18, 0x02, 0x20, 0x03, 0x28, 0x0c, 0x52, 0x10, 0x70, 0x72, 0x65, 0x76, 0x69,
-	0x6f, 0x75, 0x73, 0x53, 0x65, 0x73, 0x73, 0x69, 0x6f, 0x6e, 0x73, 0x22, 0x67, 0x0a, 0x15, 0x50,
-	0x72, 0x65, 0x4b, 0x65, 0x79, 0x52, 0x65, 0x63, 0x6f, 0x72, 0x64, 0x53, 0x74, 0x72, 0x75, 0x63,
-	0x74, 0x75, 0x72, 0x65, 0x12, 0x0e, 0x0a, 0x02, 0x69, 0x64, 0x18, 0x01, 0x20, 0x01, 0x28, 0x0d,
-	0x52, 0x02, 0x69, 0x64, 0x12, 0x1d, 0x0a, 0x0a, 0x70, 0x75, 0x62, 0x6c, 0x69, 0x63, 0x5f, 0x6b,
-	0x65, 0x79, 0x18, 0x02, 0x20, 0x01, 0x28, 0x0c, 0x52, 0x09, 0x70, 0x75, 0x62, 0x6c, 0x69, 0x63,
-	0x4b, 0x65, 0x79, 0x12, 0x1f, 0x0a, 0x0b, 0x70, 0x72, 0x69, 0x76, 0x61, 0x74, 0x65, 0x5f, 0x6b,
-	0x65, 0x79, 0x18, 0x03, 0x20, 0x01, 0x28, 0x0c, 0x52, 0x0a, 0x70, 0x72, 0x69, 0x76, 0x61, 0x74,
-	0x65, 0x4b, 0x65, 0x79, 0x22, 0xa9, 0x01, 0x0a, 0x1b, 0x53, 0x69, 0x67, 0x6e, 0x65, 0x64, 0x50,
-	0x72, 0x65, 0x4b, 0x65, 0x79, 0x52, 0x65, 0x63, 0x6f, 0x72, 0x64, 0x53, 0x74, 0x72, 0x75, 0x63,
-	0x74, 0x75, 0x72, 0x65, 0x12, 0x0e, 0x0a, 0x02, 0x69, 0x64, 0x18, 0x01, 0x20, 0x01, 0x28, 0x0d,
-	0x52, 0x02, 0x69, 0x64, 0x12, 0x1d, 0x0a, 0x0a, 0x70, 0x75, 0x62, 0x6c, 0x69, 0x63, 0x5f, 0x6b,
-	0x65, 0x79, 0x18, 0x02, 0x20, 0x01, 0x28, 0x0c, 0x52, 0x09, 0x70, 0x75, 0x62, 0x6c, 0x69, 0x63,
-	0x4b, 0x65, 0x79, 0x12, 0x1f, 0x0a, 0x0b, 0x70, 0x72, 0x69, 0x76, 0x61, 0x74, 0x65, 0x5f, 0x6b,
-	0x65, 0x79, 0x18, 0x03, 0x20, 0x01, 0x28, 0x0c, 0x52, 0x0a, 0x70, 0x72, 0x69, 0x76, 0x61, 0x74,
-	0x65, 0x4b, 0x65, 0x79, 0x12, 0x1c, 0x0a, 0x09, 0x73, 0x69, 0x67, 0x6e, 0x61, 0x74, 0x75, 0x72,
-	0x65, 0x18, 0x04, 0x20, 0x01, 0x28, 0x0c, 0x52, 0x09, 0x73, 0x69, 0x67, 0x6e, 0x61, 0x74, 0x75,
-	0x72, 0x65, 0x12, 0x1c, 0x0a, 0x09, 0x74, 0x69, 0x6d, 0x65, 0x73, 0x74, 0x61, 0x6d, 0x70, 0x18,
-	0x05, 0x20, 0x01, 0x28, 0x06, 0x52, 0x09, 0x74, 0x69, 0x6d, 0x65, 0x73, 0x74, 0x61, 0x6d, 0x70,
-	0x22, 0x5a, 0x0a, 0x18, 0x49, 0x64, 0x65, 0x6e, 0x74, 0x69, 0x74, 0x79, 0x4b, 0x65, 0x79, 0x50,
-	0x61, 0x69, 0x72, 0x53, 0x74, 0x72, 0x75, 0x63, 0x74, 0x75, 0x72, 0x65, 0x12, 0x1d, 0x0a, 0x0a,
-	0x70, 0x75, 0x62, 0x6c, 0x69, 0x63, 0x5f, 0x6b, 0x65, 0x79, 0x18, 0x01, 0x20, 0x01, 0x28, 0x0c,
-	0x52, 0x09, 0x70, 0x75, 0x62, 0x6c, 0x69, 0x63, 0x4b, 0x65, 0x79, 0x12, 0x1f, 0x0a, 0x0b, 0x70,
-	0x72, 0x69, 0x76, 0x61, 0x74, 0x65, 0x5f, 0x6b, 0x65, 0x79, 0x18, 0x02, 0x20, 0x01, 0x28, 0x0c,
-	0x52, 0x0a, 0x70, 0x72, 0x69, 0x76, 0x61, 0x74, 0x65, 0x4b, 0x65, 0x79, 0x22, 0xf3, 0x04, 0x0a,
-	0x17, 0x53, 0x65, 0x6e, 0x64, 0x65, 0x72, 0x4b, 0x65, 0x79, 0x53, 0x74, 0x61, 0x74, 0x65, 0x53,
-	0x74, 0x72, 0x75, 0x63, 0x74, 0x75, 0x72, 0x65, 0x12, 0x27, 0x0a, 0x0f, 0x6d, 0x65, 0x73, 0x73,
-	0x61, 0x67, 0x65, 0x5f, 0x76, 0x65, 0x72, 0x73, 0x69, 0x6f, 0x6e, 0x18, 0x05, 0x20, 0x01, 0x28,
-	0x0d, 0x52, 0x0e, 0x6d, 0x65, 0x73, 0x73, 0x61, 0x67, 0x65, 0x56, 0x65, 0x72, 0x73, 0x69, 0x6f,
-	0x6e, 0x12, 0x19, 0x0a, 0x08, 0x63, 0x68, 0x61, 0x69, 0x6e, 0x5f, 0x69, 0x64, 0x18, 0x01, 0x20,
-	0x01, 0x28, 0x0d, 0x52, 0x07, 0x63, 0x68, 0x61, 0x69, 0x6e, 0x49, 0x64, 0x12, 0x66, 0x0a, 0x10,
-	0x73, 0x65, 0x6e, 0x64, 0x65, 0x72, 0x5f, 0x63, 0x68, 0x61, 0x69, 0x6e, 0x5f, 0x6b, 0x65, 0x79,
-	0x18, 0x02, 0x20, 0x01, 0x28, 0x0b, 0x32, 0x3c, 0x2e, 0x73, 0x69, 0x67, 0x6e, 0x61, 0x6c, 0x2e,
-	0x70, 0x72, 0x6f, 0x74, 0x6f, 0x2e, 0x73, 0x74, 0x6f, 0x72, 0x61, 0x67, 0x65, 0x2e, 0x53, 0x65,
-	0x6e, 0x64, 0x65, 0x72, 0x4b, 0x65, 0x79, 0x53, 0x74, 0x61, 0x74, 0x65, 0x53, 0x74, 0x72, 0x75,
-	0x63, 0x74, 0x75, 0x72, 0x65, 0x2e, 0x53, 0x65, 0x6e, 0x64, 0x65, 0x72, 0x43, 0x68, 0x61, 0x69,
-	0x6e, 0x4b, 0x65, 0x79, 0x52, 0x0e, 0x73, 0x65, 0x6e, 0x64, 0x65, 0x72, 0x43, 0x68, 0x61, 0x69,
-	0x6e, 0x4b, 0x65, 0x79, 0x12, 0x6c, 0x0a, 0x12, 0x73, 0x65, 0x6e, 0x64, 0x65, 0x72, 0x5f, 0x73,
-	0x69, 0x67, 0x6e, 0x69, 0x6e, 0x67, 0x5f, 0x6b, 0x65, 0x79, 0x18, 0x03, 0x20, 0x01, 0x28, 0x0b,
-	0x32, 0x3e, 0x2e, 0x73, 0x69, 0x67, 0x6e, 0x61, 0x6c, 0x2e, 0x70, 0x72, 0x6f, 0x74, 0x6f, 0x2e,
-	0x73, 0x74, 0x6f, 0x72, 0x61, 0x67, 0x65, 0x2e, 0x53, 0x65, 0x6e, 0x64, 0x65, 0x72, 0x4b, 0x65,
-	0x79, 0x53, 0x74, 0x61, 0x74, 0x65, 0x53, 0x74, 0x72, 0x75, 0x63, 0x74, 0x75, 0x72, 0x65, 0x2e,
-	0x53, 0x65, 0x6e, 0x64, 0x65, 0x72, 0x53, 0x69, 0x67, 0x6e, 0x69, 0x6e, 0x67, 0x4b, 0x65, 0x79,
-	0x52, 0x10, 0x73, 0x65, 0x6e, 0x64, 0x65, 0x72, 0x53, 0x69, 0x67, 0x6e, 0x69, 0x6e, 0x67, 0x4b,
-	0x65, 0x79, 0x12, 0x6e, 0x0a, 0x13, 0x73, 0x65, 0x6e, 0x64, 0x65, 0x72, 0x5f, 0x6d, 0x65, 0x73,
-	0x73, 0x61, 0x67, 0x65, 0x5f, 0x6b, 0x65, 0x79, 0x73, 0x18, 0x04, 0x20, 0x03, 0x28, 0x0b, 0x32,
-	0x3e, 0x2e, 0x73, 0x69, 0x67, 0x6e, 0x61, 0x6c, 0x2e, 0x70, 0x72, 0x6f, 0x74, 0x6f, 0x2e, 0x73,
-	0x74, 0x6f, 0x72, 0x61, 0x67, 0x65, 0x2e, 0x53, 0x65, 0x6e, 0x64, 0x65, 0x72, 0x4b, 0x65, 0x79,
-	0x53, 0x74, 0x61, 0x74, 0x65, 0x53, 0x74, 0x72, 0x75, 0x63, 0x74, 0x75, 0x72, 0x65, 0x2e, 0x53,
-	0x65, 0x6e, 0x64, 0x65, 0x72, 0x4d, 0x65, 0x73, 0x73, 0x61, 0x67, 0x65, 0x4b, 0x65, 0x79, 0x52,
-	0x11, 0x73, 0x65, 0x6e, 0x64, 0x65, 0x72, 0x4d, 0x65, 0x73, 0x73, 0x61, 0x67, 0x65, 0x4b, 0x65,
-	0x79, 0x73, 0x1a, 0x42, 0x0a, 0x0e, 0x53, 0x65, 0x6e, 0x64, 0x65, 0x72, 0x43, 0x68, 0x61, 0x69,
-	0x6e, 0x4b, 0x65, 0x79, 0x12, 0x1c, 0x0a, 0x09, 0x69, 0x74, 0x65, 0x72, 0x61, 0x74, 0x69, 0x6f,
-	0x6e, 0x18, 0x01, 0x20, 0x01, 0x28, 0x0d, 0x52, 0x09, 0x69, 0x74, 0x65, 0x72, 0x61, 0x74, 0x69,
-	0x6f, 0x6e, 0x12, 0x12, 0x0a, 0x04, 0x73, 0x65, 0x65, 0x64, 0x18, 0x02, 0x20, 0x01, 0x28, 0x0c,
-	0x52, 0x04, 0x73, 0x65, 0x65, 0x64, 0x1a, 0x44, 0x0a, 0x10, 0x53, 0x65, 0x6e, 0x64, 0x65, 0x72,
-	0x4d, 0x65, 0x73, 0x73, 0x61, 0x67, 0x65, 0x4b, 0x65, 0x79, 0x12, 0x1c, 0x0a, 0x09, 0x69, 0x74,
-	0x65, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x18, 0x01, 0x20, 0x01, 0x28, 0x0d, 0x52, 0x09, 0x69,
-	0x74, 0x65, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x12, 0x12, 0x0a, 0x04, 0x73, 0x65, 0x65, 0x64,
-	0x18, 0x02, 0x20, 0x01, 0x28, 0x0c, 0x52, 0x04, 0x73, 0x65, 0x65, 0x64, 0x1a, 0x44, 0x0a, 0x10,
-	0x53, 0x65, 0x6e, 0x64, 0x65, 0x72, 0x53, 0x69, 0x67, 0x6e, 0x69, 0x6e, 0x67, 0x4b, 0x65, 0x79,
-	0x12, 0x16, 0x0a, 0x06, 0x70, 0x75, 0x62, 0x6c, 0x69, 0x63, 0x18, 0x01, 0x20, 0x01, 0x28, 0x0c,
-	0x52, 0x06, 0x70, 0x75, 0x62, 0x6c, 0x69, 0x63, 0x12, 0x18, 0x0a, 0x07, 0x70, 0x72, 0x69, 0x76,
-	0x61, 0x74, 0x65, 0x18, 0x02, 0x20, 0x01, 0x28, 0x0c, 0x52, 0x07, 0x70, 0x72, 0x69, 0x76, 0x61,
-	0x74, 0x65, 0x22, 0x75, 0x0a, 0x18, 0x53, 0x65, 0x6e, 0x64, 0x65, 0x72, 0x4b, 0x65, 0x79, 0x52,
-	0x65, 0x63, 0x6f, 0x72, 0x64, 0x53, 0x74, 0x72, 0x75, 0x63, 0x74, 0x75, 0x72, 0x65, 0x12, 0x59,
-	0x0a, 0x11, 0x73, 0x65, 0x6e, 0x64, 0x65, 0x72, 0x5f, 0x6b, 0x65, 0x79, 0x5f, 0x73, 0x74, 0x61,
-	0x74, 0x65, 0x73, 0x18, 0x01, 0x20, 0x03, 0x28, 0x0b, 0x32, 0x2d, 0x2e, 0x73, 0x69, 0x67, 0x6e,
-	0x61, 0x6c, 0x2e, 0x70, 0x72, 0x6f, 0x74, 0x6f, 0x2e, 0x73, 0x74, 0x6f, 0x72, 0x61, 0x67, 0x65,
-	0x2e, 0x53, 0x65, 0x6e, 0x64, 0x65, 0x72, 0x4b, 0x65, 0x79, 0x53, 0x74, 0x61, 0x74, 0x65, 0x53,
-	0x74, 0x72, 0x75, 0x63, 0x74, 0x75, 0x72, 0x65, 0x52, 0x0f, 0x73, 0x65, 0x6e, 0x64, 0x65, 0x72,
-	0x4b, 0x65, 0x79, 0x53, 0x74, 0x61, 0x74, 0x65, 0x73, 0x42, 0x05, 0x5a, 0x03, 0x2f, 0x76, 0x31,
-	0x62, 0x06, 0x70, 0x72, 0x6f, 0x74, 0x6f, 0x33,
+	0x0a, 0x02, 0x69, 0x76, 0x18, 0x04, 0x20, 0x01, 0x28, 0x0c, 0x52, 0x02, 0x69, 0x76, 0x1a, 0x87,
+	0x01, 0x0a, 0x0d, 0x50, 0x65, 0x6e, 0x64, 0x69, 0x6e, 0x67, 0x50, 0x72, 0x65, 0x4b, 0x65, 0x79,
+	0x12, 0x21, 0x0a, 0x0a, 0x70, 0x72, 0x65, 0x5f, 0x6b, 0x65, 0x79, 0x5f, 0x69, 0x64, 0x18, 0x01,
+	0x20, 0x01, 0x28, 0x0d, 0x48, 0x00, 0x52, 0x08, 0x70, 0x72, 0x65, 0x4b, 0x65, 0x79, 0x49, 0x64,
+	0x88, 0x01, 0x01, 0x12, 0x29, 0x0a, 0x11, 0x73, 0x69, 0x67, 0x6e, 0x65, 0x64, 0x5f, 0x70, 0x72,
+	0x65, 0x5f, 0x6b, 0x65, 0x79, 0x5f, 0x69, 0x64, 0x18, 0x03, 0x20, 0x01, 0x28, 0x05, 0x52, 0x0e,
+	0x73, 0x69, 0x67, 0x6e, 0x65, 0x64, 0x50, 0x72, 0x65, 0x4b, 0x65, 0x79, 0x49, 0x64, 0x12, 0x19,
+	0x0a, 0x08, 0x62, 0x61, 0x73, 0x65, 0x5f, 0x6b, 0x65, 0x79, 0x18, 0x02, 0x20, 0x01, 0x28, 0x0c,
+	0x52, 0x07, 0x62, 0x61, 0x73, 0x65, 0x4b, 0x65, 0x79, 0x42, 0x0d, 0x0a, 0x0b, 0x5f, 0x70, 0x72,
+	0x65, 0x5f, 0x6b, 0x65, 0x79, 0x5f, 0x69, 0x64, 0x4a, 0x04, 0x08, 0x0c, 0x10, 0x0d, 0x22, 0x8f,
+	0x01, 0x0a, 0x0f, 0x52, 0x65, 0x63, 0x6f, 0x72, 0x64, 0x53, 0x74, 0x72, 0x75, 0x63, 0x74, 0x75,
+	0x72, 0x65, 0x12, 0x4f, 0x0a, 0x0f, 0x63, 0x75, 0x72, 0x72, 0x65, 0x6e, 0x74, 0x5f, 0x73, 0x65,
+	0x73, 0x73, 0x69, 0x6f, 0x6e, 0x18, 0x01, 0x20, 0x01, 0x28, 0x0b, 0x32, 0x26, 0x2e, 0x73, 0x69,
+	0x67, 0x6e, 0x61, 0x6c, 0x2e, 0x70, 0x72, 0x6f, 0x74, 0x6f, 0x2e, 0x73, 0x74, 0x6f, 0x72, 0x61,
+	0x67, 0x65, 0x2e, 0x53, 0x65, 0x73, 0x73, 0x69, 0x6f, 0x6e, 0x53, 0x74, 0x72, 0x75, 0x63, 0x74,
+	0x75, 0x72, 0x65, 0x52, 0x0e, 0x63, 0x75, 0x72, 0x72, 0x65, 0x6e, 0x74, 0x53, 0x65, 0x73, 0x73,
+	0x69, 0x6f, 0x6e, 0x12, 0x2b, 0x0a, 0x11, 0x70, 0x72, 0x65, 0x76, 0x69, 0x6f, 0x75, 0x73, 0x5f,
+	0x73, 0x65, 0x73, 0x73, 0x69, 0x6f, 0x6e, 0x73, 0x18, 0x02, 0x20, 0x03, 0x28, 0x0c, 0x52, 0x10,
+	0x70, 0x72, 0x65, 0x76, 0x69, 0x6f, 0x75, 0x73, 0x53, 0x65, 0x73, 0x73, 0x69, 0x6f, 0x6e, 0x73,
+	0x22, 0x67, 0x0a, 0x15, 0x50, 0x72, 0x65, 0x4b, 0x65, 0x79, 0x52, 0x65, 0x63, 0x6f, 0x72, 0x64,
+	0x53, 0x74, 0x72, 0x75, 0x63, 0x74, 0x75, 0x72, 0x65, 0x12, 0x0e, 0x0a, 0x02, 0x69, 0x64, 0x18,
+	0x01, 0x20, 0x01, 0x28, 0x0d, 0x52, 0x02, 0x69, 0x64, 0x12, 0x1d, 0x0a, 0x0a, 0x70, 0x75, 0x62,
+	0x6c, 0x69, 0x63, 0x5f, 0x6b, 0x65, 0x79, 0x18, 0x02, 0x20, 0x01, 0x28, 0x0c, 0x52, 0x09, 0x70,
+	0x75, 0x62, 0x6c, 0x69, 0x63, 0x4b, 0x65, 0x79, 0x12, 0x1f, 0x0a, 0x0b, 0x70, 0x72, 0x69, 0x76,
+	0x61, 0x74, 0x65, 0x5f, 0x6b, 0x65, 0x79, 0x18, 0x03, 0x20, 0x01, 0x28, 0x0c, 0x52, 0x0a, 0x70,
+	0x72, 0x69, 0x76, 0x61, 0x74, 0x65, 0x4b, 0x65, 0x79, 0x22, 0xa9, 0x01, 0x0a, 0x1b, 0x53, 0x69,
+	0x67, 0x6e, 0x65, 0x64, 0x50, 0x72, 0x65, 0x4b, 0x65, 0x79, 0x52, 0x65, 0x63, 0x6f, 0x72, 0x64,
+	0x53, 0x74, 0x72, 0x75, 0x63, 0x74, 0x75, 0x72, 0x65, 0x12, 0x0e, 0x0a, 0x02, 0x69, 0x64, 0x18,
+	0x01, 0x20, 0x01, 0x28, 0x0d, 0x52, 0x02, 0x69, 0x64, 0x12, 0x1d, 0x0a, 0x0a, 0x70, 0x75, 0x62,
+	0x6c, 0x69, 0x63, 0x5f, 0x6b, 0x65, 0x79, 0x18, 0x02, 0x20, 0x01, 0x28, 0x0c, 0x52, 0x09, 0x70,
+	0x75, 0x62, 0x6c, 0x69, 0x63, 0x4b, 0x65, 0x79, 0x12, 0x1f, 0x0a, 0x0b, 0x70, 0x72, 0x69, 0x76,
+	0x61, 0x74, 0x65, 0x5f, 0x6b, 0x65, 0x79, 0x18, 0x03, 0x20, 0x01, 0x28, 0x0c, 0x52, 0x0a, 0x70,
+	0x72, 0x69, 0x76, 0x61, 0x74, 0x65, 0x4b, 0x65, 0x79, 0x12, 0x1c, 0x0a, 0x09, 0x73, 0x69, 0x67,
+	0x6e, 0x61, 0x74, 0x75, 0x72, 0x65, 0x18, 0x04, 0x20, 0x01, 0x28, 0x0c, 0x52, 0x09, 0x73, 0x69,
+	0x67, 0x6e, 0x61, 0x74, 0x75, 0x72, 0x65, 0x12, 0x1c, 0x0a, 0x09, 0x74, 0x69, 0x6d, 0x65, 0x73,
+	0x74, 0x61, 0x6d, 0x70, 0x18, 0x05, 0x20, 0x01, 0x28, 0x06, 0x52, 0x09, 0x74, 0x69, 0x6d, 0x65,
+	0x73, 0x74, 0x61, 0x6d, 0x70, 0x22, 0x5a, 0x0a, 0x18, 0x49, 0x64, 0x65, 0x6e, 0x74, 0x69, 0x74,
+	0x79, 0x4b, 0x65, 0x79, 0x50, 0x61, 0x69, 0x72, 0x53, 0x74, 0x72, 0x75, 0x63, 0x74, 0x75, 0x72,
+	0x65, 0x12, 0x1d, 0x0a, 0x0a, 0x70, 0x75, 0x62, 0x6c, 0x69, 0x63, 0x5f, 0x6b, 0x65, 0x79, 0x18,
+	0x01, 0x20, 0x01, 0x28, 0x0c, 0x52, 0x09, 0x70, 0x75, 0x62, 0x6c, 0x69, 0x63, 0x4b, 0x65, 0x79,
+	0x12, 0x1f, 0x0a, 0x0b, 0x70, 0x72, 0x69, 0x76, 0x61, 0x74, 0x65, 0x5f, 0x6b, 0x65, 0x79, 0x18,
+	0x02, 0x20, 0x01, 0x28, 0x0c, 0x52, 0x0a, 0x70, 0x72, 0x69, 0x76, 0x61, 0x74, 0x65, 0x4b, 0x65,
+	0x79, 0x22, 0xf3, 0x04, 0x0a, 0x17, 0x53, 0x65, 0x6e, 0x64, 0x65, 0x72, 0x4b, 0x65, 0x79, 0x53,
+	0x74, 0x61, 0x74, 0x65, 0x53, 0x74, 0x72, 0x75, 0x63, 0x74, 0x75, 0x72, 0x65, 0x12, 0x27, 0x0a,
+	0x0f, 0x6d, 0x65, 0x73, 0x73, 0x61, 0x67, 0x65, 0x5f, 0x76, 0x65, 0x72, 0x73, 0x69, 0x6f, 0x6e,
+	0x18, 0x05, 0x20, 0x01, 0x28, 0x0d, 0x52, 0x0e, 0x6d, 0x65, 0x73, 0x73, 0x61, 0x67, 0x65, 0x56,
+	0x65, 0x72, 0x73, 0x69, 0x6f, 0x6e, 0x12, 0x19, 0x0a, 0x08, 0x63, 0x68, 0x61, 0x69, 0x6e, 0x5f,
+	0x69, 0x64, 0x18, 0x01, 0x20, 0x01, 0x28, 0x0d, 0x52, 0x07, 0x63, 0x68, 0x61, 0x69, 0x6e, 0x49,
+	0x64, 0x12, 0x66, 0x0a, 0x10, 0x73, 0x65, 0x6e, 0x64, 0x65, 0x72, 0x5f, 0x63, 0x68, 0x61, 0x69,
+	0x6e, 0x5f, 0x6b, 0x65, 0x79, 0x18, 0x02, 0x20, 0x01, 0x28, 0x0b, 0x32, 0x3c, 0x2e, 0x73, 0x69,
+	0x67, 0x6e, 0x61, 0x6c, 0x2e, 0x70, 0x72, 0x6f, 0x74, 0x6f, 0x2e, 0x73, 0x74, 0x6f, 0x72, 0x61,
+	0x67, 0x65, 0x2e, 0x53, 0x65, 0x6e, 0x64, 0x65, 0x72, 0x4b, 0x65, 0x79, 0x53, 0x74, 0x61, 0x74,
+	0x65, 0x53, 0x74, 0x72, 0x75, 0x63, 0x74, 0x75, 0x72, 0x65, 0x2e, 0x53, 0x65, 0x6e, 0x64, 0x65,
+	0x72, 0x43, 0x68, 0x61, 0x69, 0x6e, 0x4b, 0x65, 0x79, 0x52, 0x0e, 0x73, 0x65, 0x6e, 0x64, 0x65,
+	0x72, 0x43, 0x68, 0x61, 0x69, 0x6e, 0x4b, 0x65, 0x79, 0x12, 0x6c, 0x0a, 0x12, 0x73, 0x65, 0x6e,
+	0x64, 0x65, 0x72, 0x5f, 0x73, 0x69, 0x67, 0x6e, 0x69, 0x6e, 0x67, 0x5f, 0x6b, 0x65, 0x79, 0x18,
+	0x03, 0x20, 0x01, 0x28, 0x0b, 0x32, 0x3e, 0x2e, 0x73, 0x69, 0x67, 0x6e, 0x61, 0x6c, 0x2e, 0x70,
+	0x72, 0x6f, 0x74, 0x6f, 0x2e, 0x73, 0x74, 0x6f, 0x72, 0x61, 0x67, 0x65, 0x2e, 0x53, 0x65, 0x6e,
+	0x64, 0x65, 0x72, 0x4b, 0x65, 0x79, 0x53, 0x74, 0x61, 0x74, 0x65, 0x53, 0x74, 0x72, 0x75, 0x63,
+	0x74, 0x75, 0x72, 0x65, 0x2e, 0x53, 0x65, 0x6e, 0x64, 0x65, 0x72, 0x53, 0x69, 0x67, 0x6e, 0x69,
+	0x6e, 0x67, 0x4b, 0x65, 0x79, 0x52, 0x10, 0x73, 0x65, 0x6e, 0x64, 0x65, 0x72, 0x53, 0x69, 0x67,
+	0x6e, 0x69, 0x6e, 0x67, 0x4b, 0x65, 0x79, 0x12, 0x6e, 0x0a, 0x13, 0x73, 0x65, 0x6e, 0x64, 0x65,
+	0x72, 0x5f, 0x6d, 0x65, 0x73, 0x73, 0x61, 0x67, 0x65, 0x5f, 0x6b, 0x65, 0x79, 0x73, 0x18, 0x04,
+	0x20, 0x03, 0x28, 0x0b, 0x32, 0x3e, 0x2e, 0x73, 0x69, 0x67, 0x6e, 0x61, 0x6c, 0x2e, 0x70, 0x72,
+	0x6f, 0x74, 0x6f, 0x2e, 0x73, 0x74, 0x6f, 0x72, 0x61, 0x67, 0x65, 0x2e, 0x53, 0x65, 0x6e, 0x64,
+	0x65, 0x72, 0x4b, 0x65, 0x79, 0x53, 0x74, 0x61, 0x74, 0x65, 0x53, 0x74, 0x72, 0x75, 0x63, 0x74,
+	0x75, 0x72, 0x65, 0x2e, 0x53, 0x65, 0x6e, 0x64, 0x65, 0x72, 0x4d, 0x65, 0x73, 0x73, 0x61, 0x67,
+	0x65, 0x4b, 0x65, 0x79, 0x52, 0x11, 0x73, 0x65, 0x6e, 0x64, 0x65, 0x72, 0x4d, 0x65, 0x73, 0x73,
+	0x61, 0x67, 0x65, 0x4b, 0x65, 0x79, 0x73, 0x1a, 0x42, 0x0a, 0x0e, 0x53, 0x65, 0x6e, 0x64, 0x65,
+	0x72, 0x43, 0x68, 0x61, 0x69, 0x6e, 0x4b, 0x65, 0x79, 0x12, 0x1c, 0x0a, 0x09, 0x69, 0x74, 0x65,
+	0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x18, 0x01, 0x20, 0x01, 0x28, 0x0d, 0x52, 0x09, 0x69, 0x74,
+	0x65, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x12, 0x12, 0x0a, 0x04, 0x73, 0x65, 0x65, 0x64, 0x18,
+	0x02, 0x20, 0x01, 0x28, 0x0c, 0x52, 0x04, 0x73, 0x65, 0x65, 0x64, 0x1a, 0x44, 0x0a, 0x10, 0x53,
+	0x65, 0x6e, 0x64, 0x65, 0x72, 0x4d, 0x65, 0x73, 0x73, 0x61, 0x67, 0x65, 0x4b, 0x65, 0x79, 0x12,
+	0x1c, 0x0a, 0x09, 0x69, 0x74, 0x65, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x18, 0x01, 0x20, 0x01,
+	0x28, 0x0d, 0x52, 0x09, 0x69, 0x74, 0x65, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x12, 0x12, 0x0a,
+	0x04, 0x73, 0x65, 0x65, 0x64, 0x18, 0x02, 0x20, 0x01, 0x28, 0x0c, 0x52, 0x04, 0x73, 0x65, 0x65,
+	0x64, 0x1a, 0x44, 0x0a, 0x10, 0x53, 0x65, 0x6e, 0x64, 0x65, 0x72, 0x53, 0x69, 0x67, 0x6e, 0x69,
+	0x6e, 0x67, 0x4b, 0x65, 0x79, 0x12, 0x16, 0x0a, 0x06, 0x70, 0x75, 0x62, 0x6c, 0x69, 0x63, 0x18,
+	0x01, 0x20, 0x01, 0x28, 0x0c, 0x52, 0x06, 0x70, 0x75, 0x62, 0x6c, 0x69, 0x63, 0x12, 0x18, 0x0a,
+	0x07, 0x70, 0x72, 0x69, 0x76, 0x61, 0x74, 0x65, 0x18, 0x02, 0x20, 0x01, 0x28, 0x0c, 0x52, 0x07,
+	0x70, 0x72, 0x69, 0x76, 0x61, 0x74, 0x65, 0x22, 0x75, 0x0a, 0x18, 0x53, 0x65, 0x6e, 0x64, 0x65,
+	0x72, 0x4b, 0x65, 0x79, 0x52, 0x65, 0x63, 0x6f, 0x72, 0x64, 0x53, 0x74, 0x72, 0x75, 0x63, 0x74,
+	0x75, 0x72, 0x65, 0x12, 0x59, 0x0a, 0x11, 0x73, 0x65, 0x6e, 0x64, 0x65, 0x72, 0x5f, 0x6b, 0x65,
+	0x79, 0x5f, 0x73, 0x74, 0x61, 0x74, 0x65, 0x73, 0x18, 0x01, 0x20, 0x03, 0x28, 0x0b, 0x32, 0x2d,
+	0x2e, 0x73, 0x69, 0x67, 0x6e, 0x61, 0x6c, 0x2e, 0x70, 0x72, 0x6f, 0x74, 0x6f, 0x2e, 0x73, 0x74,
+	0x6f, 0x72, 0x61, 0x67, 0x65, 0x2e, 0x53, 0x65, 0x6e, 0x64, 0x65, 0x72, 0x4b, 0x65, 0x79, 0x53,
+	0x74, 0x61, 0x74, 0x65, 0x53, 0x74, 0x72, 0x75, 0x63, 0x74, 0x75, 0x72, 0x65, 0x52, 0x0f, 0x73,
+	0x65, 0x6e, 0x64, 0x65, 0x72, 0x4b, 0x65, 0x79, 0x53, 0x74, 0x61, 0x74, 0x65, 0x73, 0x42, 0x05,
+	0x5a, 0x03, 0x2f, 0x76, 0x31, 0x62, 0x06, 0x70, 0x72, 0x6f, 0x74, 0x6f, 0x33,
 }
 
 var (
@@ -1343,6 +1344,7 @@ func file_storage_proto_init() {
 			}
 		}
 	}
+	file_storage_proto_msgTypes[8].OneofWrappers = []interface{}{}
 	type x struct{}
 	out := protoimpl.TypeBuilder{
 		File: protoimpl.DescBuilder{
diff --git a/protocol/proto/v1/storage.proto b/protocol/proto/v1/storage.proto
index 269b26d..9429ffb 100644
--- a/protocol/proto/v1/storage.proto
+++ b/protocol/proto/v1/storage.proto
@@ -32,7 +32,7 @@ message SessionStructure {
   }
 
   message PendingPreKey {
-    uint32 pre_key_id        = 1;
+    optional uint32 pre_key_id = 1;
     int32  signed_pre_key_id = 3;
     bytes  base_key          = 2;
   }
diff --git a/protocol/session/state.go b/protocol/session/state.go
index f74e864..7787a76 100644
--- a/protocol/session/state.go
+++ b/protocol/session/state.go
@@ -293,7 +293,7 @@ func (s *State) SetUnacknowledgedPreKeyMessage(preKeyID *prekey.ID, signedPreKey
 		BaseKey:        baseKey.Bytes(),
 	}
 	if preKeyID != nil {
-		pending.PreKeyId = uint32(*preKeyID)
+		pending.PreKeyId = pointer.To(uint32(*preKeyID))
 	}
 
 	s.session.PendingPreKey = pending
@@ -337,8 +337,9 @@ func (s *State) UnacknowledgedPreKeyMessages() (*UnacknowledgedPreKeyMessageItem
 		baseKey:        key,
 	}
 
-	if preKeyID := pendingPreKey.GetPreKeyId(); preKeyID != 0 {
-		u.preKeyID = pointer.To(prekey.ID(preKeyID))
+	// 0 is a valid ID.
+	if pendingPreKey.PreKeyId != nil {
+		u.preKeyID = pointer.To(prekey.ID(pendingPreKey.GetPreKeyId()))
 	}
 
 	return u, nil
-- 
2.43.0

