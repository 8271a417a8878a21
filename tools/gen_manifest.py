#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here=os.path.dirname(os.path.abspath(__file__))
props=[json.loads(l) for l in open(os.path.join(here,"..","properties.jsonl"))]
focus={
"C01":"Loss, duplication, delay, reordering over many ratchet turns, jumps of up to 25,000 and chain eviction; every delivery is compared with an executable model of the double ratchet.",
"C02":"Every delivered ciphertext is delivered again at arbitrary later points, in both forms, re-encoded, after crashes and session replacements; the model knows what was consumed.",
"C03":"An active attacker derives about 30 kinds of forgeries from observed traffic in every session state.",
"C04":"Digests of all stored state before and after every rejected input; traffic continues afterwards.",
"C05":"A crash, error (before or after the effect), cancellation or randomness failure at every store call and read of randomness; the run continues from durable state and is settled at the end.",
"C06":"All ciphertexts ever returned are checked for equal chain and position and for equal first cipher blocks under a constant first plaintext block.",
"C07":"Used-up keys are computed by the simulator and searched for in stored state; copies of the state are tried on all consumed traffic.",
"C08":"Passive forks of a party's state follow the conversation; twin runs with different randomness must diverge.",
"C09":"A model of the trusted identity per address is checked after every operation; interceptors, re-installations, acceptances, clears.",
"C10":"Handshakes with and without one-time pre-keys, lost and reordered initial messages, missing and reused pre-keys, bad signatures.",
"C11":"Crossing handshakes, archivals and up to 45 sessions per conversation against the model; bounded convergence once faults stop.",
"C12":"Several senders, members, groups, rotations, repeated distributions, loss, reordering and jumps against a model of sender keys.",
"C13":"Repetition of group messages and of distribution messages at arbitrary later points.",
"C14":"Forgeries by outsiders and by members who know all chain keys; late joiners.",
"C15":"Crashes and failures at every store call and read of randomness of group operations.",
"C16":"Stored records are measured after every operation under bursts, silences, handshakes, rotations; jump limits probed exactly.",
"C17":"Malformed and degenerate messages, damaged records, missing keys, failing stores; every panic or hang is a violation.",
"C18":"Operations on distinct conversations interleaved at store and randomness calls by a seeded scheduler; buffers inside larger arenas, overwritten after use; digests of all other conversations.",
"C19":"Conversations with an independent implementation of X3DH, Double Ratchet, sender keys and XEdDSA written from the specifications.",
"C20":"Randomness fails, ends early, comes in short reads or repeats at arbitrary reads; signature nonces compared.",
"C23":"Links are made, passed on, recombined with each other and with pre-key signatures, and checked against the set of links really made; randomness fails while signing.",
"C24":"After every operation the stored records' own reports are compared with the executable model, under reordering, crossing handshakes, rotations, evictions, faults and crashes.",
"C25":"Every message made, delivered, forged or respelled in a run is read as each kind of message and compared with an independent parser of the wire format; messages read are asked again after later operations.",
"C26":"Two sets of supplied stores live through each run and are compared with plain maps after random operations with records taken from the conversations and changed before and afterwards.",
"C27":"The error of every operation is compared with the errors its store calls returned (failures and cancellations at every call) and with the sessions and identities the party holds.",
"C21":"Safety numbers of both sides are compared at arbitrary points of histories with interceptors and re-installations.",
}
m={"version":1,"setup_cmd":"./build.sh","checks":[],"not_applicable":[
 {"property":"C22","reason":"Pure functions of their arguments: no schedule, time, storage, fault or second party for the property to depend on, so a simulated history adds nothing over sampling inputs. Their use inside the protocols is covered by C03, C10, C14 and C19, where an independent implementation of the same curve operations is the peer."}],
 "notes":"No hooks in /repo: the library's store interfaces, the io.Reader for randomness and crypto/rand.Reader are the seams. Every check rebuilds the simulator from /repo's working tree. Replay a violation with: .build/sim replay <file> (after ./build.sh)."}
for p in props:
    i=p["id"]
    if i not in focus: continue
    m["checks"].append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough","evidence_file":f"evidence/{i}.json",
     "technique":"deterministic simulation with fault injection (seeded search, model-based oracles)","level":"exploration",
     "level_note":focus[i]+" Seeded sampling of histories, not exhaustive; trusts the executable model, the reference implementation and the Go standard library's primitives; stores are assumed to write a record atomically and durably."})
json.dump(m,open(os.path.join(here,"..","MANIFEST.json"),"w"),indent=1)
print(len(m["checks"]))
