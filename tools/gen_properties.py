#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                     observe_at=observe or [], hook_needed=None)))

p("C01", "Key generation gives all parties one consistent sharing of one key",
  "For every set of distinct non-zero 16-bit party IDs, every threshold 1 <= t < n and every delivery order, when all parties follow the protocol each of them finishes key generation without error, and all obtain the same group key, public shares, party list and threshold. Each party's secret share carries its own ID and is the discrete logarithm of its listed public share, and every party's contribution enters the group key. Any t+1 secret shares interpolate to the one secret whose public key is the group key.",
  ["inputs", "configurations", "schedules"], "all ID sets, all thresholds, all delivery orders of honest messages",
  "TestKeygen runs one configuration (IDs 1..50, t=25) in lock-step, and checks only the full-set interpolation.",
  ["pkg/frost/keygen/round0.go", "pkg/frost/keygen/round1.go", "pkg/frost/keygen/round2.go", "pkg/frost/keygen/base.go", "pkg/internal/polynomial/polynomial.go", "pkg/internal/polynomial/exponent.go", "pkg/eddsa/secret_share.go"],
  [("sum of verified shares and of commitments", "pkg/frost/keygen/round1.go, round2.go ProcessMessage"), ("evaluation of the summed commitments", "pkg/frost/keygen/round2.go GenerateMessages")],
  ["frost.NewKeygenState outputs", "wire messages"])

p("C02", "t or fewer shares are never enough",
  "The shares produced by key generation, and those of the trusted-dealer helpers, lie on a polynomial of degree exactly t: no t or fewer of them interpolate to the group secret. A signing session of t or fewer of the parties ends in an error at every signer, yields no signature, and the shares it exchanged do not add up to a signature that Ed25519 accepts.",
  ["inputs", "configurations"], "all ID sets and thresholds; all subsets of at most t parties",
  "No test looks at fewer than t+1 shares or signers.",
  ["pkg/internal/polynomial/polynomial.go", "pkg/frost/keygen/round0.go", "pkg/helpers/keys.go", "pkg/frost/sign/round2.go"],
  [("random polynomial of degree t", "pkg/internal/polynomial/polynomial.go NewPolynomial"), ("full signature is verified before release", "pkg/frost/sign/round2.go GenerateMessages")],
  ["secret shares", "signing outputs and messages"])

p("C03", "Any t+1 or more signers obtain one valid Ed25519 signature",
  "For every key from key generation or from the trusted-dealer helpers, every subset of at least t+1 of its parties, every message (including empty and very long ones) and every delivery order, when all signers follow the protocol each of them finishes without error with the same signature. The standard Ed25519 verification accepts that signature for that message under the group key.",
  ["inputs", "configurations", "schedules"], "all keys, signer subsets, messages, delivery orders",
  "TestSign runs one lock-step session with t=n-1, one key and one message, and passes without checking anything if the output is nil.",
  ["pkg/frost/sign/base.go", "pkg/frost/sign/round0.go", "pkg/frost/sign/round1.go", "pkg/frost/sign/round2.go", "pkg/frost/party/id.go", "pkg/eddsa/signature.go"],
  [("Lagrange-weighted additive shares", "pkg/frost/sign/base.go NewRound"), ("binding factors and nonce aggregation", "pkg/frost/sign/round1.go"), ("aggregation", "pkg/frost/sign/round2.go GenerateMessages")],
  ["frost.NewSignState outputs", "crypto/ed25519.Verify"])

p("C04", "Delivery order, duplicates and strays do not affect a session",
  "Whatever the order in which a party receives the protocol's messages (also one round ahead of it, or before its first step), and whatever duplicates, copies of its own messages, messages addressed to others, from non-participants or of another protocol are mixed in, a caller who invokes ProcessAll after each HandleMessage sees the session finish with the same result as in-order delivery once every party's messages have been delivered. Each protocol message is accepted exactly once: a repeated message of a sender and type is refused with an error even if its content differs, as are non-participants and foreign types, while own and misaddressed messages are ignored. Each party emits each of its protocol messages exactly once, with the right sender and addressee.",
  ["schedules", "histories"], "all interleavings of deliveries and processing steps, with any strays injected",
  "Tests deliver every round in lock-step with no reordering, duplicates or strays.",
  ["pkg/state/state.go", "pkg/helpers/parties.go", "pkg/frost/keygen/base.go", "pkg/frost/sign/base.go"],
  [("filtering and queueing by type", "pkg/state/state.go HandleMessage"), ("queue promotion and round loop", "pkg/state/state.go ProcessAll")],
  ["HandleMessage results", "messages returned by ProcessAll", "outputs"],
  [("receivedMessages", "messages of the current round by sender", "pkg/state/state.go"), ("queue", "messages of later rounds", "pkg/state/state.go")])

p("C05", "Cheating in key generation is detected and attributed",
  "If a participant sends an honest party, with the same broadcast content to everyone, commitments with an invalid or foreign proof of knowledge, commitments of a degree other than the threshold, or a share that does not match its commitments, that honest party aborts with an error naming a participant that deviated and the round, and its output stays empty. No honest party is ever blamed. An honest party that finishes without error holds a share matching its public share and the same public data as every other honest party that finishes.",
  ["inputs", "fault_sequences", "configurations"], "all deviations of up to n-1 participants, in either round, towards any subset of receivers of shares",
  "No test sends an invalid protocol message.",
  ["pkg/frost/keygen/round1.go", "pkg/frost/keygen/round2.go", "pkg/internal/zk/schnorr.go", "pkg/internal/polynomial/exponent.go", "pkg/state/state.go", "pkg/state/error.go"],
  [("proof and degree check", "pkg/frost/keygen/round1.go ProcessMessage"), ("VSS check", "pkg/frost/keygen/round2.go ProcessMessage"), ("abort with culprit", "pkg/state/state.go reportError")],
  ["State.Err", "keygen.Output"])

p("C06", "Cheating in signing is detected and attributed, no bad signature leaks",
  "If a signer broadcasts an identity nonce commitment or a signature share that is not the one its commitments, key share and the session determine (including errors of several cheaters that cancel out, and shares replayed from another session), every honest signer aborts with an error naming a signer that deviated and the round, and never blames an honest one. A signature is only ever output if standard Ed25519 verification accepts it for exactly that session's message and group key; after an abort the output stays empty.",
  ["inputs", "fault_sequences", "configurations"], "all deviations of up to n-1 signers in either round",
  "No test sends an invalid protocol message.",
  ["pkg/frost/sign/round1.go", "pkg/frost/sign/round2.go", "pkg/state/state.go", "pkg/state/error.go"],
  [("identity check", "pkg/frost/sign/round1.go ProcessMessage"), ("share check", "pkg/frost/sign/round2.go ProcessMessage"), ("final verification", "pkg/frost/sign/round2.go GenerateMessages")],
  ["State.Err", "sign.Output"])

p("C07", "Proofs of knowledge are complete, sound and bound to their statement",
  "A Schnorr proof made with the discrete logarithm of a public point, for any party ID, 32-byte context and key, always verifies for exactly that ID, point and context. It does not verify once the ID, the point, the context or any part of the proof is changed, and proofs made without the secret (chosen challenge, chosen response, copied from another party or point) are rejected. The challenge is the SHA-512 hash of party ID, context, public point and nonce commitment, reduced modulo the group order.",
  ["inputs"], "all IDs, contexts, keys, all alterations of statement and proof, and forgery strategies",
  "The only test checks that one honest proof verifies; it passed while every challenge was zero.",
  ["pkg/internal/zk/schnorr.go", "pkg/frost/keygen/round0.go", "pkg/frost/keygen/round1.go"],
  [("Fiat-Shamir challenge", "pkg/internal/zk/schnorr.go challenge"), ("verification equation", "pkg/internal/zk/schnorr.go Verify")],
  ["zk.NewSchnorrProof, Verify", "KeyGen1 messages"])

p("C08", "Arbitrary bytes never crash or stall a party",
  "Every decoder (messages and their parts, signatures, secret shares, public shares, keys, points, IDs; binary, text and JSON) terminates on every input with a value or an error, without panicking and without using memory out of proportion to the input. What was decoded without error can be encoded, compared, copied and evaluated. Handing whatever was decoded, even after a reported decoding error, to a key-generation or signing session in any stage makes neither the handling nor the processing panic.",
  ["inputs", "histories"], "all byte strings; all sequences of decoded messages in all session stages",
  "Tests decode only well-formed encodings plus four malformed headers.",
  ["pkg/messages/messages.go", "pkg/messages/header.go", "pkg/messages/keygen1.go", "pkg/messages/keygen2.go", "pkg/messages/sign1.go", "pkg/messages/sign2.go", "pkg/internal/polynomial/exponent.go", "pkg/internal/zk/schnorr.go", "pkg/eddsa/public.go", "pkg/eddsa/secret_share.go", "pkg/eddsa/signature.go", "pkg/ristretto/ristretto.go", "pkg/frost/party/id.go", "pkg/state/state.go"],
  [("length and canonicity checks", "UnmarshalBinary of each type"), ("content check", "pkg/state/state.go HandleMessage")],
  ["return or panic of each decoder", "HandleMessage, ProcessAll"])

p("C09", "Wire encodings are faithful, canonical and strictly validated",
  "Every message, header, proof, commitment polynomial and signature survives encoding and decoding unchanged, its reported size is the encoded length, and appending leaves existing bytes intact. A byte string is accepted exactly if it has a known type, a non-zero sender, an addressee exactly for the messages that need one, the exact payload length, and canonical scalars and points; anything accepted re-encodes to the same bytes, and anything else gives an error. Messages compare equal exactly if their encodings are equal.",
  ["inputs"], "all values and all byte strings",
  "Tests round-trip one value per type and reject four malformed headers.",
  ["pkg/messages/header.go", "pkg/messages/messages.go", "pkg/messages/marshalling.go", "pkg/messages/keygen1.go", "pkg/messages/keygen2.go", "pkg/messages/sign1.go", "pkg/messages/sign2.go", "pkg/internal/polynomial/exponent.go", "pkg/internal/zk/schnorr.go", "pkg/eddsa/signature.go"],
  [("FROSTMarshaler implementations", "pkg/messages, pkg/internal/polynomial, pkg/internal/zk, pkg/eddsa")],
  ["MarshalBinary, BytesAppend, Size, UnmarshalBinary, Equal"])

p("C10", "Stored key material is restored exactly or refused",
  "Secret shares (JSON and binary), public shares (JSON) and public keys (JSON) are restored from their encodings as equal values that work in signing, with every derived part (public share, group key, party list, threshold) consistent with the stored one. Encodings with a non-canonical or truncated value, an ID or threshold that does not fit, a missing part, an invalid share, a threshold not below the number of shares, or a group key that is not the interpolation of the shares are refused with an error, never silently altered. Two key objects are equal by Equal exactly if everything encoded of them is the same.",
  ["inputs"], "all key material, all corruptions of its encodings",
  "Tests round-trip one random value each; no corrupted encoding is tried.",
  ["pkg/eddsa/secret_share.go", "pkg/eddsa/public.go", "pkg/eddsa/public_key.go", "pkg/frost/party/id.go", "pkg/ristretto/ristretto.go"],
  [("group key recomputation", "pkg/eddsa/public.go UnmarshalJSON, NewPublic"), ("range and canonicity checks", "pkg/eddsa/secret_share.go, public.go")],
  ["Marshal/Unmarshal of the types"])

p("C11", "Group elements behave as the ristretto255 group",
  "All operations on group elements (decoding, encoding, text form, equality, addition, subtraction, negation, the fixed, variable, multi and double scalar multiplications, mapping of uniform bytes) agree with ristretto255 as specified, for every operand, every internal representation, every receiver value and every aliasing of receiver and operands. Exactly the canonical encodings are decoded, a failed decoding leaves the receiver unchanged, and two elements are equal exactly if their encodings are. The Ed25519 form of an element is the canonical encoding of its unique representative in the prime-order subgroup.",
  ["inputs"], "all elements, scalars, byte strings, receivers and aliasings",
  "Tests check published vectors and a few round trips; no multi-scalar, aliasing, torsion or Ed25519-form test over varied inputs.",
  ["pkg/ristretto/ristretto.go"],
  [("decode/encode/map formulas", "pkg/ristretto/ristretto.go"), ("cofactor clearing", "pkg/ristretto/ristretto.go BytesEd25519")],
  ["public methods of ristretto.Element"])

p("C12", "Verification agrees with standard Ed25519",
  "For every public key, message and signature value, valid or not, PublicKey.Verify gives the same answer as the standard Ed25519 verification of the converted key, message and converted signature. Keys and signatures made by the standard Ed25519 algorithm verify when brought into this library's types, and the conversion of such a key gives back its standard bytes. The challenge is SHA-512(R || A || M) over the Ed25519 forms, reduced modulo the group order.",
  ["inputs"], "all keys, messages and signatures, including altered and degenerate ones",
  "Tests verify one valid signature; no invalid signature is ever verified.",
  ["pkg/eddsa/public_key.go", "pkg/eddsa/signature.go", "pkg/ristretto/ristretto.go"],
  [("verification equation", "pkg/eddsa/public_key.go Verify"), ("challenge", "pkg/eddsa/signature.go ComputeChallenge")],
  ["PublicKey.Verify, ToEd25519, ComputeChallenge"])

p("C13", "A session ends exactly once and its outcome never changes",
  "A session is unfinished with no error and empty output until it either succeeds (no error, complete output) or aborts (an error, empty output), at which moment Done is closed, IsFinished turns true and WaitForError returns. From then on the reported outcome, the error and the output stay the same, every further message is refused with an error, and no further message is emitted, whatever the caller or the timeout still does.",
  ["histories", "fault_sequences"], "all histories of calls, before and after success or abort of either protocol",
  "Tests stop at the first success and never call a finished session again.",
  ["pkg/state/state.go", "pkg/frost/keygen/base.go", "pkg/frost/sign/base.go", "pkg/helpers/parties.go"],
  [("finish/reportError guard", "pkg/state/state.go"), ("output assigned last", "pkg/frost/keygen/round2.go, pkg/frost/sign/round2.go")],
  ["Done, IsFinished, Err, WaitForError, outputs after each call"])

p("C14", "Sessions and key material can be used from several goroutines",
  "Calls on one session from several goroutines (handling, processing, waiting, polling, timeouts) are free of data races and behave as if executed one at a time: each message is accepted once and each round's messages are returned to exactly one caller. Once WaitForError or Done has signalled success, the output can be read without further synchronisation. Any number of sessions can run concurrently on the same key material and exchange messages by reference without races or interference.",
  ["schedules", "histories"], "all interleavings of concurrent calls",
  "No test uses more than one goroutine; scripts/test.sh runs single-threaded tests under the race detector.",
  ["pkg/state/state.go", "pkg/frost/sign/base.go", "pkg/frost/keygen/round0.go", "pkg/eddsa/public.go"],
  [("State mutex", "pkg/state/state.go"), ("copies at session start and in messages", "pkg/frost/sign/base.go, pkg/frost/keygen/round0.go, round1.go")],
  ["race detector", "concurrent histories of HandleMessage/ProcessAll/IsFinished/Err"])

p("C15", "Timeouts abort exactly the sessions that stall",
  "With a positive timeout, a session, in whatever stage including before its first step, aborts with an unattributed error when the timeout elapses after its creation or the last accepted message, and not before; accepting a message restarts the time, while refused or ignored messages do not. With a zero timeout it never aborts by itself, and a session that has finished is never affected.",
  ["histories", "schedules", "configurations"], "all timeouts, all stages, all timings of accepted and refused messages",
  "No test sets a timeout.",
  ["pkg/state/state.go"],
  [("timer restarted by ackMessage, stopped by finish", "pkg/state/state.go")],
  ["Done and Err under virtual time"])

p("C16", "Secrets are wiped from a finished session",
  "When a session finishes, by success, abort or timeout in any round, nothing reachable from it still contains the secrets it worked with: a signer's nonces and (weighted) key share, or a key-generation participant's polynomial coefficients and resulting secret share. Only what was handed to or received from the caller (outputs, key material, messages) keeps such values.",
  ["histories", "fault_sequences"], "all ways a session can end, in every round",
  "No test inspects a session after it finished.",
  ["pkg/frost/keygen/base.go", "pkg/frost/sign/base.go", "pkg/frost/sign/party.go", "pkg/internal/polynomial/polynomial.go", "pkg/state/state.go"],
  [("Reset called by finish", "pkg/state/state.go finish"), ("Reset", "pkg/frost/keygen/base.go, pkg/frost/sign/base.go")],
  ["memory reachable from state.State"])

p("C17", "All secrets come fresh and in full from the system randomness",
  "Every nonce, polynomial coefficient and proof nonce is drawn from crypto/rand with the full entropy of a scalar and independently for each use: no two commitments within or across sessions, parties, keys or messages coincide. Short reads of the randomness source do not weaken them, and if the source fails no message depending on it is produced.",
  ["inputs", "histories", "fault_sequences"], "all sessions, all behaviours of the randomness source (short reads, errors)",
  "No test looks at the randomness or its source.",
  ["pkg/internal/scalar/scalar.go", "pkg/internal/polynomial/polynomial.go", "pkg/internal/zk/schnorr.go", "pkg/frost/sign/round0.go", "pkg/frost/keygen/round0.go"],
  [("64 uniform bytes per scalar", "pkg/internal/scalar/scalar.go, pkg/internal/polynomial/polynomial.go")],
  ["bytes read from crypto/rand.Reader", "commitments in the emitted messages"])

p("C18", "Sessions do not alter their inputs, messages and outputs stay as returned",
  "Running sessions, to success or abort, never changes the key material, party lists and messages to sign they were created with, so the same key material can be used for any number of sessions. A message or output returned to the caller never changes afterwards, whatever the session still processes, and broadcast messages handed to sessions stay unchanged, so that passing the same message object to several sessions is the same as sending its encoding. The results of different parties and sessions share no mutable data.",
  ["histories"], "all histories of sessions over shared inputs and messages",
  "Tests encode every message immediately and use each key once.",
  ["pkg/frost/keygen/round0.go", "pkg/frost/keygen/round1.go", "pkg/frost/keygen/round2.go", "pkg/frost/sign/base.go", "pkg/frost/sign/round0.go", "pkg/messages/sign1.go", "pkg/frost/party/idslice.go", "pkg/eddsa/secret_share.go"],
  [("copies", "pkg/frost/keygen/round0.go, round1.go, round2.go; pkg/messages New*; pkg/frost/sign/base.go NewRound")],
  ["encodings of inputs, messages and outputs before and after"])

p("C19", "Invalid configurations are refused when a session is created",
  "Creating a key-generation session succeeds exactly if the party list is sorted with distinct non-zero IDs, contains the own ID, and 1 <= t <= n-1; creating a signing session succeeds exactly if the signer list is sorted with distinct non-zero IDs, contains the owner of the secret share, and is a subset of the key's parties. In every other case an error and no session is returned, without panicking.",
  ["configurations"], "all party lists, own IDs and thresholds",
  "No go test creates an invalid session.",
  ["pkg/frost/frost.go", "pkg/frost/keygen/base.go", "pkg/frost/sign/base.go", "pkg/state/base_round.go", "pkg/frost/party/idslice.go"],
  [("argument checks", "pkg/frost/keygen/base.go NewRound, pkg/frost/sign/base.go NewRound, pkg/state/base_round.go NewBaseRound")],
  ["results of NewKeygenState and NewSignState"])

p("C20", "Secret-sharing algebra is exact",
  "For every set of IDs, the Lagrange coefficients are those of interpolation at 0 modulo the group order: they reconstruct f(0) from the values of any polynomial with fewer coefficients than there are IDs; an ID that is 0 or not in the set gives an error. Evaluating a committed polynomial at any non-zero index gives the commitment of the polynomial's value, sums of committed polynomials evaluate to sums, polynomials of different degree are refused by addition, and evaluation at 0 is refused. A dealer never deals a key whose threshold is not below the number of parties.",
  ["inputs"], "all ID sets, polynomials, indices",
  "Tests use a handful of random polynomials and IDs; Lagrange is tested only for its errors and on equal IDs.",
  ["pkg/frost/party/id.go", "pkg/internal/polynomial/polynomial.go", "pkg/internal/polynomial/exponent.go", "pkg/internal/scalar/scalar.go", "pkg/helpers/keys.go"],
  [("Lagrange", "pkg/frost/party/id.go"), ("Horner and multi-scalar evaluation", "pkg/internal/polynomial")],
  ["public functions of these packages"])

p("C21", "The command-line tools produce keys and signatures that verify",
  "For every 0 < t < n up to the tool's limit, keygen writes a key file whose public part, secrets and printed values form a consistent sharing, and signer, given that file and any message, reports success with values that form a valid Ed25519 signature of that message under the printed group key. For invalid arguments, or unreadable, malformed, incomplete or inconsistent key files, neither tool reports success, writes a key file, crashes or hangs; keygen does not report success when the key file cannot be written.",
  ["inputs", "configurations"], "all arguments, messages and key files",
  "The tools have no tests at all.",
  ["cmd/keygen/keygen.go", "cmd/signer/signer.go", "pkg/helpers/parties.go"],
  [("argument checks and lock-step driver", "cmd/keygen/keygen.go, cmd/signer/signer.go")],
  ["stdout, exit status and key file of the built tools"])

p("C22", "Protocol transcripts follow the documented FROST equations",
  "An independent implementation of the documented protocol can take any participant's place in key generation and signing, in any session with this library's parties, and obtains the same results. In particular each signature share is z = d + e*rho + lambda*s*c, with a binding factor rho that is the hash of the signer's ID, the message and all signers' IDs and commitments in sorted order, and the wire layout is the documented one.",
  ["inputs", "configurations"], "all sessions mixing library and reference participants",
  "Tests only let the library talk to itself, so a change applied to all parties (for instance a dropped binding factor) goes unnoticed.",
  ["pkg/frost/sign/round1.go", "pkg/frost/sign/round2.go", "pkg/frost/keygen/round0.go", "pkg/frost/keygen/round1.go", "pkg/frost/keygen/round2.go", "pkg/messages/sign1.go", "pkg/messages/keygen1.go"],
  [("computeRhos", "pkg/frost/sign/round1.go"), ("share equation", "pkg/frost/sign/round1.go GenerateMessages")],
  ["wire messages against a reference participant"])

p("C23", "The state machine honours the round contract",
  "For any protocol built on the round interface, the session runs the rounds strictly in order, hands each round exactly one message of its type from every other participant and nothing else, asks it for its messages exactly once after that, and stops at the last round. After an error of a round no further round method but the clean-up is called, and the clean-up of the current round runs exactly once, when the session ends by success, error or timeout. Round methods are never run concurrently.",
  ["histories", "schedules", "fault_sequences"], "all round implementations, message histories, and errors of any round method",
  "Only the two built-in protocols are run, in lock-step and without errors.",
  ["pkg/state/state.go", "pkg/state/round.go", "pkg/state/base_round.go", "pkg/state/error.go"],
  [("ProcessAll", "pkg/state/state.go"), ("finish", "pkg/state/state.go")],
  ["callbacks of a monitoring Round implementation"])

p("C24", "Party IDs and sets keep their meaning",
  "Every 16-bit ID survives its byte, text and scalar forms; out-of-range, signed, empty or non-numeric text and too short bytes are refused. A set built from any list of IDs is sorted, leaves the list untouched and shares no memory with it; membership, subset, size, equality and copies agree with the mathematical set operations; generated party lists are exactly 1..n for every n, and randomly generated IDs are never 0.",
  ["inputs"], "all IDs, texts, lists of IDs",
  "Tests try a few constants; the set operations have no tests.",
  ["pkg/frost/party/id.go", "pkg/frost/party/idslice.go", "pkg/helpers/parties.go"],
  [("encodings", "pkg/frost/party/id.go"), ("binary search on sorted slices", "pkg/frost/party/idslice.go")],
  ["public functions of pkg/frost/party and pkg/helpers"])

p("C25", "The batch driver is equivalent to delivering message by message",
  "For a participant driven by helpers.PartyRoutine with its wire messages in any batches and any order, the messages returned and the final result are those of handing every message to HandleMessage and calling ProcessAll. If a message of the batch cannot be decoded or is refused by the session, or the session ends or has ended with an error (abort or timeout), an error and no messages are returned, and the session's own error can be recovered from it; a refused message does not harm the session. The given bytes are neither modified nor retained, and returned messages stay as they are whatever is called later.",
  ["inputs", "histories"], "all sessions, batches and faulty messages",
  "PartyRoutine is only called by the two command-line tools, which have no tests.",
  ["pkg/helpers/parties.go", "pkg/state/state.go", "pkg/messages/messages.go"],
  [("PartyRoutine", "pkg/helpers/parties.go")],
  ["arguments and results of PartyRoutine, state and result of the session"])

p("C90", "Signatures cannot be forged and transcripts leak nothing about the key",
  "No coalition of at most t participants, seeing all messages of any number of concurrent sessions, can produce a signature on a message that no session with an honest signer signed, or learn anything about the group secret.",
  ["inputs", "histories"], "all efficient adversaries",
  "It is a statement about all adversaries, under computational assumptions.",
  ["pkg/frost/keygen/base.go", "pkg/frost/sign/round1.go"],
  [("binding factors, proofs of knowledge", "pkg/frost/sign/round1.go, pkg/internal/zk/schnorr.go")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
