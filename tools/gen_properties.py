#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements are reviewable)."""
import json, os
S="protocol/session/"
def P(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    return {"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a}
out=[
P("C01","Pairwise messages arrive exactly as sent under any network behaviour",
 "Every message a party encrypts in a pairwise session decrypts, on its first arrival at the intended recipient, to exactly the plaintext that was encrypted, no matter which other messages were lost, delayed, duplicated, reordered or corrupted before it. This holds for every plaintext length, in both directions, across any number of ratchet turns, and for a message delayed behind up to 2,000 later messages of its sending chain, behind up to four newer sending chains of the same session, or skipped ahead of by up to 25,000 messages. Messages of a conversation never become undecryptable because of what happened to other messages.",
 ["schedules","histories","fault_sequences","inputs"],
 "all interleavings of sends in both directions with every order, loss, duplication and delay of deliveries, all plaintexts and all ratchet depths",
 "The tests deliver a handful of fixed orders (in order, one shuffle of 50, one burst) over at most two ratchet turns; loss across ratchet turns, skipped keys of old chains and chain eviction are never reached.",
 [S+"cipher.go",S+"state.go","protocol/ratchet/keys.go","protocol/message/signal.go","protocol/crypto/aes/aes.go"],
 [("decryptMessageSession / chainKey / messageKeys",S+"cipher.go"),("skipped message keys and receiver chains",S+"state.go"),("symmetric and DH ratchet",  "protocol/ratchet/keys.go")],
 [("receiver chains","known sending chains of the peer with next index and skipped keys",S+"state.go"),("sender chain","current sending ratchet key and chain key",S+"state.go")],
 ["Session.EncryptMessage","Session.DecryptMessage"]),
P("C02","A pairwise message is decrypted at most once",
 "No matter how often, when and in what order a pairwise ciphertext is delivered again, in either form it was sent, its plaintext is returned to the recipient at most once. A repeated delivery returns an error and no plaintext, and specifically the duplicate-message error for as long as the recipient still holds the session and the sending chain the message belongs to. This includes repetitions after later messages, after ratchet turns, after the session was replaced or archived, and after a restart of the recipient, excepting only initial messages of sessions made without a one-time pre-key that were given up behind more than 40 newer ones.",
 ["histories","schedules","fault_sequences"],
 "all delivery histories with arbitrary repetition of any previously delivered ciphertext at any later point",
 "The tests never deliver a pairwise message twice; replay depends on how far the chain, the skipped keys and the archived sessions have moved since.",
 [S+"cipher.go",S+"state.go",S+"record.go"],
 [("chain index check and removal of used message keys",S+"cipher.go"),("MessageKeys removes what it returns",S+"state.go")],None,["Session.DecryptMessage"]),
P("C03","Only genuine messages of the peer are accepted in a pairwise session",
 "Whatever bytes reach a recipient under the address of a sender whose identity it has come to trust, if decryption returns a plaintext it is one that this sender encrypted for this recipient. Any change to a regular message or to the message inside an initial (pre-key) message, any truncation or extension, any splice of two messages, any reflection, redirection to another recipient or attribution to another sender is answered with an error and no plaintext.",
 ["inputs","histories","fault_sequences"],
 "all byte strings derivable from observed traffic by an active attacker, at every point of every history",
 "No test tampers with a pairwise ciphertext; acceptance depends on the session state in which the forged bytes arrive.",
 ["protocol/message/signal.go","protocol/message/mac.go","protocol/message/prekey.go",S+"cipher.go"],
 [("VerifyMAC over version, header and body with both identities","protocol/message/signal.go"),("error propagation in decryptSignal / decryptPreKey",S+"cipher.go")],None,["Session.DecryptMessage"]),
P("C04","Rejected input leaves no trace",
 "An operation that rejects its input (a forged, corrupted, duplicate, misdirected, untrusted or otherwise unacceptable pairwise, pre-key, bundle, group or distribution message) leaves every session record, sender-key record, trusted identity and pre-key of the party exactly as it was, also when the party keeps its state in the library's own in-memory stores. In particular no amount of rejected input makes a later genuine message undecryptable or changes which session is used to send.",
 ["inputs","histories","fault_sequences"],
 "all sequences of rejected inputs interleaved with genuine traffic",
 "The tests check that a few operations fail but never compare the stored state before and after nor continue the conversation afterwards.",
 [S+"cipher.go",S+"session.go",S+"group_cipher.go",S+"store_inmem.go",S+"record.go"],
 [("work on a clone of the current state, store only on success",S+"cipher.go"),("in-memory stores copy records",S+"store_inmem.go")],None,["session.Store","identity.Store","prekey.Store","session.GroupStore"]),
P("C05","Pairwise sessions survive crashes and storage or randomness failures",
 "If a party crashes, a store call fails (before or after taking effect) or the randomness source fails at any point inside any pairwise operation, the party can continue from what its stores hold: every message not yet consumed is still decryptable, sending still works, and no plaintext is returned twice. An operation during which nothing was written to the party's stores can simply be repeated and then succeeds, and state is written before the result it protects is returned.",
 ["crash_points","fault_sequences","histories"],
 "a crash or failure at every store call and every read of randomness, before or after its effect, in every operation of every history",
 "The tests only use stores that never fail and never restart.",
 [S+"cipher.go",S+"session.go"],
 [("session stored before the result is returned and before the one-time pre-key is deleted",S+"cipher.go")],None,["Session.EncryptMessage","Session.DecryptMessage","Session.ProcessPreKeyBundle"]),
P("C06","A message key never encrypts two different messages",
 "Any two different ciphertexts ever returned to a sender, in a pairwise session or under a group sender key, were produced with different message keys: they never share both the chain they belong to and the position in it. This holds across crashes, restarts, failed or retried operations and session replacements, provided completed writes to the stores are durable.",
 ["crash_points","fault_sequences","histories"],
 "all histories of sends, failures at any store call, restarts and retries",
 "Key reuse needs a failure between advancing and persisting the chain, which no test injects.",
 [S+"cipher.go",S+"group_cipher.go",S+"state.go",S+"group_state.go"],
 [("chain key advanced and stored before the ciphertext is returned",S+"cipher.go"),("same for sender keys",S+"group_cipher.go")],None,["Session.EncryptMessage","GroupSession.EncryptMessage"]),
P("C07","Captured state cannot read past messages",
 "A complete copy of a party's stores taken at any moment does not allow decrypting any pairwise or group message that the party had already decrypted or sent by then, nor the initial message of a session that used a one-time pre-key since deleted. The copy contains none of the message keys, chain keys, ratchet private keys or one-time pre-keys that were used up by those messages.",
 ["histories","schedules"],
 "a capture at every point of every history, against all traffic recorded before",
 "No test looks at what remains in the state after a message was processed.",
 [S+"state.go",S+"cipher.go",S+"group_state.go",S+"group_cipher.go"],
 [("message keys removed on use, chain keys replaced by their successor",S+"state.go"),("one-time pre-key deleted",S+"cipher.go")],None,["session.Store contents","session.GroupStore contents","prekey.Store contents"]),
P("C08","Sessions heal after a state compromise",
 "Every time a party receives the first message of a new sending chain of its peer, the party's next message carries a new ratchet key made from fresh randomness. After a passive attacker copied all of a party's state, messages encrypted to that party on a chain derived from a ratchet key the party generated after the copy cannot be decrypted with the copied state.",
 ["histories","schedules"],
 "all capture points, followed by all continuations of the conversation",
 "The tests have no attacker and never look at ratchet keys across turns.",
 [S+"cipher.go","protocol/ratchet/keys.go"],
 [("new ephemeral key and root key step per received chain",S+"cipher.go"),("CreateChain mixes the DH result into the root key","protocol/ratchet/keys.go")],None,["Session.DecryptMessage","ratchet key in message headers"]),
P("C09","Trusted identity keys are pinned and only changed deliberately",
 "The first identity key that was authenticated for an address, by processing a valid bundle or by decrypting a message, becomes its trusted key, and only the application can replace it. While an address has a different trusted key, or the application's identity store refuses the key for the direction at hand, no bundle for it is accepted, no message to it is encrypted and no message from it is decrypted under that identity; each such attempt fails with the untrusted-identity error. The identity store itself reports, loads, replaces and clears keys accordingly, and reports a replacement only when the key changed.",
 ["histories","inputs","fault_sequences"],
 "all histories of contacts, re-installations, forged identities, acceptances and clears",
 "One test covers a single identity change for one initial message; the other paths and forged first contacts are not covered.",
 ["protocol/identity/store_inmem.go",S+"session.go",S+"cipher.go"],
 [("IsTrustedIdentity checks on every path",S+"cipher.go"),("store contents","protocol/identity/store_inmem.go")],None,["identity.Store","all Session operations"]),
P("C10","Handshakes establish a shared session and use up one-time pre-keys once",
 "From any correctly signed bundle, with or without a one-time pre-key, the initiator can send at once, and whichever of its messages first reaches the responder, in any order, sets up the session on the responder's side; until it has decrypted a reply the initiator keeps sending self-sufficient initial messages naming the right keys, and plain ones afterwards. A bundle whose signed pre-key is not signed by its identity key is refused. The one-time pre-key is deleted exactly when the first message of its session is decrypted, no other pre-key is ever deleted, and initial messages naming pre-keys the responder does not have are refused.",
 ["histories","schedules","fault_sequences","inputs"],
 "all bundles, all losses and orders of the initial messages, repeated handshakes, exhausted or reused one-time pre-keys",
 "The tests establish sessions from the first message in order; reused or missing pre-keys and lost initial messages are not covered.",
 [S+"session.go",S+"cipher.go","protocol/prekey/store_inmem.go","protocol/message/prekey.go"],
 [("ProcessPreKeyBundle / processPreKeyV3",S+"session.go"),("pending pre-key",S+"state.go"),("deletion after storing the session",S+"cipher.go")],None,["Session.ProcessPreKeyBundle","Session.DecryptMessage","prekey.Store"]),
P("C11","Replaced and simultaneous sessions keep working and converge",
 "When both parties initiate sessions at the same time, or either re-initiates or archives sessions at any moment, messages of every session among the current one and the 40 most recently archived ones remain decryptable. After archiving its session a party refuses to send until a session is current again, and the session of the last newly created or successfully decrypting session is the one used to send. Once messages stop crossing, a single exchange of one message in each direction leaves both parties using the same session, with plain messages from then on.",
 ["schedules","histories","fault_sequences"],
 "all interleavings of handshakes by either party, archivals and deliveries over up to 41 sessions",
 "The tests have a single session replacement and no crossing handshakes.",
 [S+"record.go",S+"cipher.go",S+"session.go"],
 [("archive of previous states and promotion",S+"record.go"),("trial decryption over archived states",S+"cipher.go")],
 [("current and previous sessions","sessions of one conversation",S+"record.go")],["Session operations","Record.State"]),
P("C12","Group messages reach every member exactly as sent",
 "Every member that processed a sender's distribution message decrypts every message the sender encrypts from that position on, on first arrival, to exactly the plaintext sent, whatever was lost, reordered, duplicated or corrupted before, for a message delayed behind up to 2,000 later ones or skipping up to 25,000. Repeated or delayed distribution messages never move a member back or lose its progress, a sender's newest sender key is the one its messages and distribution messages use, and messages under a sender's five most recently distributed keys (with distinct chain IDs) stay decryptable.",
 ["schedules","histories","fault_sequences","inputs"],
 "all interleavings of group sends, deliveries, late joins, repeated distributions and key rotations by several senders",
 "The tests use one sender, one member, one sender key and three messages out of order; the shuffle test iterates over an empty list.",
 [S+"group_cipher.go",S+"group_record.go",S+"group_state.go",S+"group_session.go","protocol/message/senderkey.go"],
 [("messageKey and skipped keys",S+"group_cipher.go"),("AddState / StateForChainID",S+"group_record.go")],None,["GroupSession operations"]),
P("C13","A group message is decrypted at most once",
 "However often a group ciphertext is delivered to a member, its plaintext is returned at most once; every repetition fails with the duplicate-message error as long as the member holds the sender key it belongs to. Processing the sender's distribution messages again, in any order and at any time, does not make an already decrypted message decryptable again while its key is held.",
 ["histories","schedules","fault_sequences"],
 "all repetitions of messages and distribution messages at any later point",
 "One test repeats one message immediately; repetition after skipped messages, re-distribution or rotation is not covered.",
 [S+"group_cipher.go",S+"group_record.go",S+"group_state.go"],
 [("iteration check and RemoveMessageKeys",S+"group_cipher.go"),("AddState keeps the existing state",S+"group_record.go")],None,["GroupSession.DecryptMessage","GroupSession.ProcessSenderKeyDistribution"]),
P("C14","Group messages are authentic and earlier ones stay secret from late joiners",
 "If group decryption returns a plaintext under a sender's address, the holder of that sender's private signing key encrypted it for that group: any changed, spliced or re-attributed message, and any message made by another member who knows the group's chain keys, is refused with an error. A member cannot decrypt messages sent before the position named in the distribution message it received.",
 ["inputs","histories","fault_sequences"],
 "all forgeries by outsiders and by members, and all join points, in every history",
 "No test tampers with a group message or plays a malicious member.",
 ["protocol/message/senderkey.go",S+"group_cipher.go",S+"group_session.go"],
 [("signature verification before any state change",S+"group_cipher.go"),("iteration and chain key in the distribution message",S+"group_session.go")],None,["GroupSession.DecryptMessage"]),
P("C15","Group state survives crashes and storage or randomness failures",
 "If a sender or member crashes, a group store call fails (before or after taking effect) or randomness fails at any point of a group operation, the party can continue from what its store holds: members still decrypt every message they had not consumed, none twice, and the sender can send and distribute. An operation during which nothing was written can be repeated and then succeeds, and every distribution message or ciphertext returned is backed by stored state.",
 ["crash_points","fault_sequences","histories"],
 "a crash or failure at every store call and read of randomness of every group operation",
 "The tests only use stores that never fail.",
 [S+"group_cipher.go",S+"group_session.go"],
 [("store before return",S+"group_cipher.go")],None,["GroupSession operations","session.GroupStore"]),
P("C16","Stored state and work stay bounded whatever peers send",
 "Whatever genuine or forged traffic arrives, a stored session never holds more than 5 receiving chains and 2,000 skipped message keys per chain, a conversation never more than 40 archived sessions, and a sender-key record never more than 5 keys with 2,000 skipped message keys each; the oldest entries are the ones given up. A message more than 25,000 positions ahead of its chain is refused, for pairwise sessions with anyone but oneself and for groups, and exactly 25,000 ahead is still accepted; a session with oneself (two devices of one user) has no such limit.",
 ["histories","inputs","schedules"],
 "all traffic patterns including bursts, long silences, repeated handshakes and rotations",
 "The tests check one jump over the limit and one overflow of skipped keys for groups.",
 [S+"state.go",S+"record.go",S+"group_record.go",S+"group_state.go",S+"cipher.go",S+"group_cipher.go"],
 [("limits and eviction",S+"state.go"),("MaxJumps",S+"cipher.go")],None,["session.Store contents","DecryptMessage"]),
P("C17","No input from the network or storage crashes a party",
 "Whatever bytes arrive as a regular, initial, group, distribution or plaintext message, at whatever point of a conversation, parsing and processing them returns normally, with a result or an error, and never panics. The same holds when pre-keys, sessions or sender keys named by the input are missing, when stored session bytes are damaged, and when stores fail.",
 ["inputs","histories","fault_sequences"],
 "all byte strings, truncations and mutations of genuine traffic including degenerate keys, in all session states, with damaged stored records",
 "The tests only parse well-formed messages.",
 ["protocol/message/signal.go","protocol/message/prekey.go","protocol/message/senderkey.go","protocol/message/plaintext.go",S+"session.go",S+"cipher.go",S+"group_cipher.go","protocol/curve/public.go","protocol/curve/curve25519/curve25519.go"],
 [("length and key checks when parsing","protocol/message"),("errors for missing keys and failed agreements",S+"session.go")],None,["message.New*FromBytes","DecryptMessage"]),
P("C18","Conversations and callers' buffers do not affect each other",
 "An operation on one conversation (one remote address, or one sender and distribution) changes no other conversation's stored state, even for addresses differing only in the device or distributions of the same sender, and operations on different conversations interleaved at any store or randomness call behave as if run one after another. Operations do not modify buffers passed in by the caller, and overwriting those buffers or returned ones afterwards does not affect the stored state, nor does any later operation change what an earlier one returned.",
 ["schedules","histories","inputs"],
 "all interleavings of operations on distinct conversations at store and randomness calls, all buffer layouts and reuse patterns",
 "The tests run one conversation at a time with freshly allocated, exactly sized buffers.",
 [S+"store_inmem.go",S+"cipher.go",S+"group_cipher.go","protocol/crypto/aes/aes.go","protocol/identity/store_inmem.go"],
 [("stores keyed by full address and distribution ID",S+"store_inmem.go"),("no shared mutable state between operations",S+"cipher.go")],None,["stores","EncryptMessage","DecryptMessage"]),
P("C19","Parties interoperate with an independent implementation of the protocols",
 "In any history a party using this library can exchange messages with a peer that implements X3DH, the Double Ratchet and sender keys independently from the published specifications and this library's wire format: bundles and signatures verify, initial and regular messages in both directions decrypt under loss and reordering, and group messages and distributions are understood both ways. In particular messages are authenticated over version, header, body and both identity keys, and the handshake uses all four key agreements.",
 ["histories","schedules","inputs"],
 "all conversations with an independent peer under arbitrary loss, duplication and reordering",
 "The tests only let the library talk to itself, so a change made symmetrically to both roles goes unnoticed, except for two fixed vectors of the initial keys.",
 [S+"session.go",S+"cipher.go","protocol/message","protocol/ratchet","protocol/senderkey/keys.go","protocol/curve/curve25519/curve25519.go"],
 [("key derivations","protocol/ratchet/keys.go"),("MAC","protocol/message/mac.go"),("XEdDSA","protocol/curve/curve25519/curve25519.go")],None,["wire bytes"]),
P("C20","Weak or failing randomness is never turned into weak output",
 "When the randomness source fails or ends early, every operation that needs it returns an error instead of a result, leaving nothing behind that a retry would build on. When the source repeats itself, as after restoring a machine snapshot, two different messages signed with the same key still never share a signature nonce. An operation given no source uses crypto/rand.Reader, and works as with any other source.",
 ["fault_sequences","histories"],
 "failures and short reads at every read of randomness, and repetition of the source at any point of a signing history",
 "The tests only use the operating system's randomness.",
 ["protocol/curve/curve25519/curve25519.go","protocol/curve/pair.go",S+"session.go",S+"group_session.go"],
 [("io.ReadFull with error checks","protocol/curve/curve25519/curve25519.go"),("nonce derived from key, message and randomness","protocol/curve/curve25519/curve25519.go")],None,["Sign","GenerateKeyPair","EncryptMessage","NewSenderKeyDistribution"]),
P("C21","Safety numbers agree exactly when both parties hold each other's real keys",
 "At any point of any history, the safety numbers two parties derive from their own identity key, the trusted key they hold for the other and both stable identifiers show the same digits, and the scanned code of one compares equal on the other, exactly when each holds the other's real identity key and both use the same pair of identifiers; scanning additionally requires the same version. A key substituted on either side, by an interceptor or by a re-installation not yet accepted, always makes them differ on both sides.",
 ["histories","inputs"],"all histories of contacts, interceptions, re-installations and acceptances, all identifiers, versions and iteration counts",
 "The tests use two fixed keys and one random pair, outside of any conversation.",
 ["protocol/fingerprint/fingerprint.go","protocol/fingerprint/scannable.go","protocol/fingerprint/displayable.go","protocol/fingerprint/encode.go"],
 [("iterated hash and symmetric combination","protocol/fingerprint/fingerprint.go")],None,["fingerprint.New","Scannable.Compare"]),
P("C22","Curve operations satisfy their algebraic contracts",
 "For all key pairs, both sides of a key agreement compute the same secret, every signature verifies under the matching public key for the signed bytes however split, and no signature verifies for other bytes or another key; encodings round-trip.",
 ["inputs"],"all keys, messages and splits",
 "The tests sample random keys only.",
 ["protocol/curve/curve25519/curve25519.go","protocol/curve/curve25519/util.go","protocol/curve/djb_public.go"],
 [("X25519 and XEdDSA","protocol/curve/curve25519/curve25519.go")],None,["curve.KeyPair"]),
P("C23","A link between identity keys is accepted exactly when its signer made it",
 "In any history in which parties link alternate identity keys to one another, re-install, publish signed pre-keys and pass signatures on, VerifyAlternateIdentity accepts a signature for a key exactly when the holder of the verifying identity key made it for that very key, with SignAlternateIdentity or an independent implementation. Links do not work the other way round, for another key, or when changed, cut or lengthened; signatures made for signed pre-keys or without the full context are not links, and a link does not pass for the signature of a signed pre-key. When randomness fails, signing fails without a signature, and no nonce is ever used for two different keys.",
 ["histories","inputs","fault_sequences"],"all histories of links, re-installations and pre-key signatures, an adversary recombining everything signed, and failures of randomness at every read",
 "The tests use three fresh keys, working randomness and no other signatures that could be confused with a link.",
 ["protocol/identity/keys.go","protocol/curve/curve25519/curve25519.go"],
 [("two context prefixes before the linked key","protocol/identity/keys.go")],None,["KeyPair.SignAlternateIdentity","Key.VerifyAlternateIdentity"]),
P("C24","Stored session and group records tell the truth about the conversation",
 "After any history, what a stored record says about itself is true: for every session, current or archived, it reports protocol version 3, both identity keys, the own registration ID and the peer's as given by the bundle or initial message, the base key, how far the sending chain and each remembered receiving chain have come and how many message keys are kept, and the pre-keys of the handshake exactly until a reply has been decrypted. A group record reports its newest sender key as the current one and, for each key it remembers, the chain ID, signing key and position reached, with the private signing key on the sender's side only. A record without a current session says so, reading a record changes nothing, and a session written out and read back is the same session.",
 ["histories","schedules","fault_sequences"],"all histories of messages, handshakes, archivals, rotations and distributions in any delivery order, with failures and crashes at any store call",
 "The tests look at a few records of short, orderly conversations; the reports must stay true after any reordering, replacement of sessions, eviction and failure.",
 ["protocol/session/record.go","protocol/session/state.go","protocol/session/group_record.go","protocol/session/group_state.go","protocol/session/session.go"],
 [("session state accessors","protocol/session/state.go"),("record accessors","protocol/session/record.go"),("group state","protocol/session/group_state.go")],None,["session.Record","session.State","session.GroupRecord","session.GroupState"]),
P("C25","Messages report exactly what they carry and nothing malformed is read as one",
 "Every regular, initial, group and distribution message, at whatever point of whatever history it was made, is written in the documented form, is read back by its parser, and reports, as made and as read, exactly what its bytes carry: type, version, keys, IDs, counters, body and the message inside. Bytes with another version, without a required key, with a malformed key, chain key or distribution ID, or too short are refused as such a message, as is anything without the context byte as a plaintext message; reading changes no input, and a message keeps reporting the same while and after it is processed and whatever happens later. Checked directly, the MAC of a regular message verifies under its own key and the two identities in their order only, and a group message's signature under the sender's signing key only.",
 ["histories","inputs"],"all messages that arise in histories with rotations, handshakes, long chains, failures and crashes, and all alterations of their fields made by the network",
 "The tests build one message of three kinds with fixed contents; IDs, counters and keys of every size, absent fields, messages of a long history and respelled ones are not tried.",
 ["protocol/message/signal.go","protocol/message/prekey.go","protocol/message/senderkey.go","protocol/message/plaintext.go","protocol/message/mac.go","protocol/distribution/id.go"],
 [("encoding and parsing","protocol/message/signal.go"),("pre-key messages","protocol/message/prekey.go"),("group and distribution messages","protocol/message/senderkey.go")],None,["message.Signal","message.PreKey","message.SenderKey","message.SenderKeyDistribution","message.Plaintext"]),
P("C26","The supplied stores hold exactly what was stored last",
 "After any sequence of operations, every in-memory store that comes with the library returns for an address, a sender and distribution or an ID exactly what was stored for it last, and nothing if nothing was or it was deleted or cleared; other entries, other stores, the own identity and the registration ID are unaffected. Changing a session or sender-key record after storing it, or one that was loaded, does not change the store, and using the store does not change records in the application's hands. Storing an identity key reports whether a different one was replaced, a key is trusted exactly if it is the stored one or none is stored, and clearing takes effect at once and stays so.",
 ["histories"],"all sequences of loads, stores, deletions, clears and trust questions over similar addresses, groups and IDs, with records that conversations come to and that are changed before and afterwards",
 "The tests use the stores for single entries in an orderly way; no test looks at neighbouring entries or at records changed after they were stored or loaded.",
 ["protocol/session/store_inmem.go","protocol/identity/store_inmem.go","protocol/prekey/store_inmem.go","protocol/protocol/store_inmem.go"],
 [("session and sender-key stores","protocol/session/store_inmem.go"),("identity store","protocol/identity/store_inmem.go"),("pre-key stores","protocol/prekey/store_inmem.go")],None,["session.Store","session.GroupStore","identity.Store","prekey.Store","prekey.SignedStore"]),
P("C27","Failures are reported as what they are",
 "At any point of any history, an operation during which a store call failed or was cancelled reports that very error, as errors.Is sees it, whatever kind of message, bundle or group operation it was, and never a duplicate, an untrusted identity, a missing session or success. Encrypting without a current session, and decrypting a regular message from an address without any session, report that the session with that address was not found, and no other operation or situation does; an untrusted identity is reported for the address concerned. Only decrypting ever reports a duplicate, and queries of a record report that it has no current session exactly when it has none.",
 ["histories","fault_sequences","schedules"],"all histories with archivals, re-installations, refused identities and forgeries, failures and cancellations at every store call, and interleaved operations",
 "Applications drop duplicates, fetch bundles, warn users and retry by these errors; the tests never let a store fail and look at two of the errors in one situation each.",
 ["protocol/session/cipher.go","protocol/session/session.go","protocol/session/group_cipher.go","protocol/session/group_session.go","protocol/session/record.go","protocol/perrors/errors.go"],
 [("protocol errors","protocol/perrors/errors.go"),("error paths of pairwise operations","protocol/session/cipher.go"),("error paths of group operations","protocol/session/group_cipher.go")],None,["perrors.ErrDuplicateMessage","perrors.ErrSessionNotFound","perrors.ErrUntrustedIdentity","perrors.ErrNoCurrentSession"]),
]
p=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(p,"w") as f:
    for o in out:
        assert len(o["title"])<=80,(o["id"],len(o["title"]))
        n=o["statement"].count(". ")+1
        assert n<=3,(o["id"],n)
        f.write(json.dumps(o,ensure_ascii=False)+"\n")
print(len(out))
