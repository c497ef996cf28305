#!/usr/bin/env python3
"""Source of properties.jsonl (kept as code so that the long lines stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
                          "mechanism": [dict(name=n, where=w) for n, w in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

AC, AS, AU, AD, AE, AK = ("aucpace/src/client.rs", "aucpace/src/server.rs", "aucpace/src/utils.rs",
                          "aucpace/src/database.rs", "aucpace/src/errors.rs", "aucpace/src/constants.rs")
SL, SE, SR = "spake2/src/lib.rs", "spake2/src/ed25519.rs", "spake2/src/error.rs"
RC, RS, RU, RT, RG = ("srp/src/client.rs", "srp/src/server.rs", "srp/src/utils.rs", "srp/src/types.rs", "srp/src/groups.rs")

prop("A01", "AuCPace: honest sessions always agree on the session key",
  "Whenever a client that registered a user with some username, password and hashing parameters later runs any AuCPace variant (plain, partially augmented, strong, strong + partially augmented; nonce-agreed or pre-established SSID; explicit or implicit authentication; heap or fixed-buffer API) against a server holding that registration, and the messages arrive unmodified, neither side reports an error and both end with the same 64-byte session key. This holds however the messages of that and other sessions are delayed, reordered, duplicated or retransmitted, and across server and client crashes and restarts between attempts. Once such faults stop, a retried login completes.",
  ["schedules", "fault_sequences", "inputs", "configurations", "crash_points"],
  "every variant x username x password x params x interleaving of concurrent sessions x loss/duplication/reordering/delay/partition/crash schedule",
  "The integration tests run one user, one password, one lock-step order and one parameter set per variant, never the strong or partial variants through the fixed-buffer API, and never two sessions at once.",
  [AC, AS, AU], [("client and server state machines", AC + ", " + AS), ("verifier W = w*B at registration, PRS = x*W = w*X at login", AC + " register*/generate_cpace*, " + AS + " generate_prs*"), ("CPace key pair and session key derivation", AU)],
  [("ssid", "hash binding both nonces", AU + " compute_ssid"), ("prs", "password related string", AS + " generate_prs")],
  ["key returned by receive_client_authenticator / receive_server_authenticator / implicit_auth"])

prop("A02", "AuCPace: no false acceptance under an active network attacker",
  "With explicit mutual authentication, a client or server reports success only if there is a real opposite party that used the same SSID inputs, channel identifier and credentials and holds the identical key, whatever a network attacker who does not know the password modifies, replaces, replays, reflects, splices between sessions or drops. In particular any mismatch of password, username, SSID or channel identifier between the two parties, and any change to a single key-relevant message or field, makes the party concerned report an error or stay unfinished, never succeed.",
  ["fault_sequences", "histories", "inputs", "schedules"],
  "every sequence of attacker actions on every message of every concurrently running session, every near-miss credential / CI / SSID pair",
  "No test runs a wrong password, a wrong channel identifier or a modified, replayed, reflected or spliced message through AuCPace at all.",
  [AC, AS, AU], [("authenticators Ta/Tb under distinct hash indices", AU + " compute_authenticator_messages"), ("constant-time full-length comparison", AC + " receive_server_authenticator, " + AS + " receive_client_authenticator"), ("SSID, PRS and CI bound into the CPace generator", AU + " generate_keypair")],
  [("sk1", "first session key", AU), ("ta/tb", "authenticators", AU)], ["Ok/Err of the two authenticator receivers"])

prop("A03", "AuCPace: session keys agree for matching parties and only for them",
  "With implicit authentication, two parties end with the same key if they used the same SSID inputs, channel identifier and credentials and received each other's messages unmodified; a difference in any of those inputs, or a change to any one key-relevant message field, gives unrelated keys. Keys of different sessions are always different, even for the same user on the same channel with the same pre-established SSID, and a session key never equals a value sent on the wire.",
  ["fault_sequences", "inputs", "histories"],
  "all pairs of parties over all sessions in a run, with mismatches in each single dimension and attacker modification of each field",
  "Tests only compare the two keys of one honest run; the negative direction is never tested, and never across sessions.",
  [AU, AC, AS], [("hash-index separation H0..H5", AU), ("ssid/PRS/CI in generator", AU + " generate_keypair"), ("fresh ephemeral keys", AU)], [], ["keys returned by implicit_auth"])

prop("A04", "AuCPace: neutral group elements are refused everywhere",
  "A client or server that receives the neutral element (or whose computation on a received point and stored exponent yields it) as server ephemeral, public key, blinded point or blinded salt refuses with the illegal-point error at that step and yields no key, in every variant and API flavour; encodings that are not canonical group elements never decode into a message. A random-number glitch that makes one party's secret scalar zero is therefore caught by its peer, and the strong client never sends a neutral blinded point.",
  ["inputs", "fault_sequences", "configurations"],
  "every point-carrying message position x every variant x explicit/implicit x heap/fixed-buffer API, plus zero draws from the random source and zero stored exponents",
  "Unit tests cover one call each for eight of the receiving functions; the strong fixed-buffer client, and degenerate values produced through randomness or storage faults inside a real session, are not exercised.",
  [AC, AS], [("is_identity checks", AC + " generate_cpace*, receive_server_pubkey, implicit_auth; " + AS + " generate_prs_strong, lookup_failed_strong, receive_client_pubkey, implicit_auth"), ("non-zero blinding loop", AC + " start_augmentation_strong")],
  [], ["Err(IllegalPointError)"])

prop("A05", "AuCPace: every session uses fresh, full-entropy secrets",
  "Every nonce, salt, ephemeral public key, blinded point, secret exponent and long-term key pair produced by clients and servers is drawn from the caller's random source with at least its nominal entropy: values never repeat between sessions or across restarts, all parts of each value vary, and each secret depends on at least 32 bytes of the random stream (each nonce on all of its bytes). As a result, replaying a complete or partial recorded session against fresh parties never authenticates.",
  ["histories", "schedules", "crash_points", "fault_sequences"],
  "all values emitted over arbitrarily many sessions, restarts and replays, for every random stream",
  "A test sees one run; constant, truncated, cached or partly filled randomness passes every existing test.",
  [AU, AC, AS], [("generate_nonce, generate_keypair, generate_server_keypair", AU), ("SaltString::generate, generate_salt_strong, blinding value", AC)], [("rng", "caller-supplied CSPRNG", AC + ", " + AS)], ["all emitted messages"])

prop("A06", "AuCPace: an unknown user gets a plausible reply and can never log in",
  "For a username without a stored registration (or key pair) the server still answers with a well-formed augmentation message of the same kind as for a registered user; while that server lives, repeated queries for the same unknown name look as consistent as for a registered name (same salt, same long-term public key, same exponent applied to blinded points), while different names and different servers get unrelated values. The continuing session never yields an authenticated key, whatever the client guesses. A reply does not otherwise reveal whether the user exists.",
  ["inputs", "histories", "fault_sequences"],
  "all usernames, query histories, database lookup faults and guessed password-related strings, in each variant",
  "The lookup-failure path is only executed by two tests that expect an error; nothing looks at the reply or at repeated replies.",
  [AS], [("lookup_failed, lookup_failed_strong", AS), ("per-server secret", AS + " ServerSecret")], [("secret", "64-bit value that masks failed lookups", AS)], ["AugmentationInfo / StrongAugmentationInfo for unknown users"])

prop("A07", "AuCPace: failures of the password hasher, buffer or database are contained",
  "If the password hasher fails, returns no hash or a hash that is not 32 or 64 bytes, if username and password do not fit the fixed buffer, or if the database loses or cannot find a record, the operation reports the corresponding documented error (or follows the unknown-user path) exactly in those cases; it never panics, never registers or derives anything from a partial result, and leaves the client, server and every other session fully usable.",
  ["fault_sequences", "inputs"],
  "every placement of hasher/buffer/database faults over registrations and logins of concurrent sessions, all input lengths around the buffer size",
  "No test injects a failing hasher, a wrong-size hash, an overlong credential or a failing lookup.",
  [AC, AU, AS, AE], [("scalar_from_hash length check", AU), ("hash_password buffer check", AC), ("error mapping", AC)], [], ["Err variants of register*, generate_cpace*"])

prop("A08", "AuCPace: logins racing with credential changes use one consistent record",
  "A login that overlaps a password change, re-hash, key-pair rotation, deletion or a stale read succeeds or fails exactly as the single verifier record returned to it dictates: it succeeds when the client's password is the one that record was made from, and fails otherwise; salt, parameters, exponent and verifier are never mixed from different records, and the advertised long-term public key is the stored one. Sessions already past the lookup are unaffected, and servers keep no credential state of their own, so after a crash and restart every stored user can still log in.",
  ["schedules", "histories", "crash_points"],
  "all interleavings of credential updates with the lookups of concurrent sessions, and all crash points",
  "Tests store one record once before the only session.",
  [AS, AD], [("single lookup per reply", AS + " generate_prs, generate_prs_strong"), ("Database traits", AD)], [], ["login outcome vs. record returned by lookup"])

prop("A09", "AuCPace: messages survive the wire intact; broken bytes never crash a peer",
  "With serialisation enabled every client and server message decodes from its own encoding to the same message, for every field value, however the byte stream is split into reads: in binary formats every message, in a self-describing text format (JSON) every message that does not borrow byte strings, also when the text is written in another equivalent way or read from a stream. Truncated, extended, duplicated, bit-flipped or arbitrary bytes are either rejected or decode to a well-formed message that re-encodes consistently; neither decoding nor feeding any decodable message to a party in any phase panics or fails to return.",
  ["inputs", "fault_sequences"],
  "all message variants and field values x all split, truncation and corruption positions x wire formats (bincode and postcard for all messages; JSON for those without borrowed byte strings)",
  "Only the examples serialise messages (with one format and whole reads); no test decodes a damaged message.",
  [AU, AC, AS], [("serde_saltstring, serde_paramsstring", AU), ("derive(Serialize, Deserialize) on the message enums", AC + ", " + AS)], [], ["serde encode/decode of ClientMessage and ServerMessage"])

prop("A10", "AuCPace: no session starts from a short pre-established SSID",
  "A pre-established SSID shorter than 16 bytes (for instance after a short read or truncation on the way to either party) is refused with the insecure-SSID error by client and server alike, every SSID of 16 bytes or more is accepted, and the whole SSID is significant: parties whose SSIDs differ anywhere or in length never complete with each other.",
  ["inputs", "fault_sequences"],
  "all SSID lengths and contents, with truncation/extension/corruption faults on either party's copy",
  "One 8-byte SSID is tried on each side; the boundary and the bytes beyond it are not.",
  [AC, AS, AK], [("MIN_SSID_LEN check and H0(ssid)", AC + " / " + AS + " begin_prestablished_ssid")], [], ["begin_prestablished_ssid result"])

prop("A11", "AuCPace: secrets stay off the wire; strong logins are blinded and unlinkable",
  "Nothing a party sends during a login, nor the rendering of any login message or of any error, contains the password, the stored verifier, a secret exponent or scalar, the raw shared key or the session key. In the strong variants the salt is never sent: what is sent for one user is a freshly blinded point and its product with the stored exponent, different in every login, independent of what is observable elsewhere, yet always unblinding to the registered salt.",
  ["histories", "inputs", "schedules"],
  "all bytes sent and all error/debug renderings over all sessions of a run, in all variants",
  "No test looks at what is on the wire, nor at two logins of one user.",
  [AC, AS, AU], [("blinding and unblinding of the salt point", AC + " start_augmentation_strong, StrongAuCPaceClientAugLayer"), ("key/authenticator derivation through separate hashes", AU)], [], ["all sent messages, Display/Debug of errors and messages"])

prop("A12", "AuCPace: interoperates with an independent peer of the documented protocol",
  "A real client and a real server each complete every variant of the protocol against an independent implementation of the documented message flow and formulas (hash indices, input order, encodings, SSID, PRS, generator, session keys and authenticators), in both roles, arriving at the same key; registrations created by the real client are the values the documentation prescribes.",
  ["inputs", "configurations", "schedules"],
  "all variants, both roles, nonce sizes, 32- and 64-byte password hashes, all credentials and channel identifiers, under network faults",
  "All tests pair the implementation with itself, so any change made consistently on both sides passes; there are no AuCPace test vectors.",
  [AC, AS, AU, "aucpace/src/lib.rs"], [("protocol table", "aucpace/src/lib.rs"), ("H0..H5", AU)], [], ["messages and keys"])

prop("S01", "SPAKE2: both sides of an honest exchange derive the same key",
  "Two parties that use the same password and identities in complementary roles (A with B, or symmetric with symmetric) and receive each other's message unmodified both obtain the same 32-byte key, whichever side starts, finishes or receives first and however messages of concurrent exchanges are delayed, reordered, duplicated or re-requested. This includes every pair of symmetric messages regardless of how their bytes compare, and parties that rebuild their state after a crash from the same random stream.",
  ["inputs", "schedules", "fault_sequences", "crash_points"],
  "all passwords, identities, random scalars and delivery schedules; all relative orders of the two symmetric messages",
  "Each mode is tested with one password and identity; message order effects in the symmetric transcript show up only for particular byte patterns.",
  [SL, SE], [("start_internal / finish", SL), ("hash_ab, hash_symmetric", SE)], [("xy_scalar, msg1", "per-session secret and own message", SL)], ["key from finish()"])

prop("S02", "SPAKE2: keys match only for the same password, identities, roles and messages",
  "If two parties' passwords or identities differ in any way (one byte, length, trailing bytes, where one identity ends and the next begins, swapped identities), or either received anything but the other's exact message (modified, replayed, taken from another exchange), their keys differ, or the receiving side reports an error. Keys of distinct exchanges are always distinct.",
  ["inputs", "fault_sequences", "histories"],
  "all near-miss pairs of passwords and identities and all attacker substitutions over all concurrent exchanges",
  "One pair of different passwords is tested; identities are never varied and messages never altered and accepted.",
  [SL, SE], [("transcript hash over pw, ids, both messages, K", SE), ("hash_to_scalar", SE)], [], ["key from finish()"])

prop("S03", "SPAKE2: malformed, misdirected or reflected messages are rejected, never crash",
  "A received message of any length other than 33 bytes is reported as wrong length; one whose side marker is not that of the expected complementary role (own role reflected, other mode, unknown marker) as bad side; one whose body is not a curve point as corrupt; in that order of precedence, for every byte string and role. Any other message yields a 32-byte key; nothing panics, and no error is reported for a valid message.",
  ["inputs", "fault_sequences"],
  "all byte strings delivered to a party in each role, including truncations, extensions, bit flips, reflections and cross-mode deliveries",
  "Tests cover one over-long message and one reflection for side A only; off-curve points, side B, symmetric and short or empty messages are untested.",
  [SL, SE, SR], [("length and side checks", SL + " finish"), ("decompression check", SE + " bytes_to_element")], [], ["Err(Error) of finish()"])

prop("S04", "SPAKE2: interoperates with an independent reference peer",
  "Messages and keys are those of the published SPAKE2/Ed25519 construction used by the reference Python implementation (blinding constants, HKDF password scalar, transcript layout): a real party completes with an independent peer in every role, for all passwords, identities and scalars, under any delivery schedule.",
  ["inputs", "configurations", "schedules"],
  "all roles against an independent peer; all passwords, identities, random scalars",
  "The compatibility vectors cover one password, one identity pair, one scalar pair of the A/B mode; the symmetric mode has no end-to-end vector.",
  [SL, SE], [("const_m/const_n/const_s, hash_to_scalar, hash_ab, hash_symmetric", SE)], [], ["outbound message and key"])

prop("S05", "SPAKE2: every exchange uses a fresh secret from the supplied random source",
  "Each started session draws its secret scalar anew from the supplied random source with at least 32 bytes of entropy, so outbound messages and keys never repeat between sessions, even for the same password and identities, in every role and across restarts; a recorded message delivered to a later session does not reproduce an earlier key.",
  ["histories", "schedules", "crash_points"],
  "all sessions of a run, all roles, all random streams",
  "No test compares two sessions or controls the random source.",
  [SL, SE], [("random_scalar", SE), ("start_*_with_rng", SL)], [], ["outbound messages and keys"])

prop("S06", "SPAKE2: nothing but the final key exposes the password or secrets",
  "The outbound message, the debug rendering of a session in any role and the rendering of any error contain neither the password, its derived scalar, the secret scalar nor the key, and do not otherwise depend on the password except through the blinded point; error reporting does not depend on the password.",
  ["inputs", "histories"],
  "all sessions, passwords (binary and text), roles and delivered messages of a run",
  "The debug test compares two fixed strings for one password.",
  [SL, SR], [("manual Debug for Spake2 and Side", SL)], [], ["Debug/Display output, outbound message"])

prop("R01", "SRP: honest sessions complete with mutual proofs and equal keys",
  "For every supported group and hash, a client using the username, password and salt a user registered with and a server holding the resulting verifier derive equal keys, and each accepts the other's proof, for all ephemeral secrets and however messages of concurrent sessions are delayed, reordered, duplicated or retransmitted; once faults stop, a login completes. This includes public values, verifiers and keys whose encodings have leading zero bytes and those where the server value is smaller than the masked verifier.",
  ["inputs", "schedules", "fault_sequences", "configurations"],
  "all groups x hashes x credentials x salts x ephemeral values (including short, zero and oversized byte strings) x delivery schedules",
  "One group with one hash, one random run with 64-byte ephemerals; short encodings occur in about 1 of 100 runs and are never forced.",
  [RC, RS, RU, RG], [("compute_premaster_secret on both sides", RC + ", " + RS), ("transcript hashes", RU)], [], ["key(), verify_client, verify_server"])

prop("R02", "SRP: no false acceptance under wrong credentials or an active attacker",
  "A server accepts a client proof, and a client a server proof, only when both hold the same key from the same public values and the same username, password and salt. A wrong or near-miss username, password or salt, a changed verifier, or any modified, swapped, replayed, reflected or cross-session message makes the affected side report a bad proof or illegal parameter; the user proof and server proof are never interchangeable, and keys of different sessions differ.",
  ["inputs", "fault_sequences", "histories"],
  "all near-miss credentials and attacker actions on all messages of all concurrent sessions",
  "One wrong password is tried (and merely expected to panic); no message is ever altered or replayed.",
  [RC, RS, RU], [("M1/M2 computation", RU), ("ct_eq comparison", RC + " verify_server, " + RS + " verify_client")], [], ["verify_client, verify_server"])

prop("R03", "SRP: public values congruent to zero are refused",
  "A client refuses a server public value and a server refuses a client public value that is congruent to zero modulo the group prime, in every encoding (empty, zero bytes, the prime, its multiples, with leading zeros), with the illegal-parameter error naming that value, and no key or proof is produced; every other value is processed without error or panic.",
  ["inputs", "fault_sequences"],
  "all encodings of multiples of N injected as A or B in any session of any group, and arbitrary other values of any size",
  "Two tests inject a literal zero in one group and only require a panic; multiples of N and other encodings are untested.",
  [RC, RS, RT], [("A % N and B % N checks", RC + " / " + RS + " process_reply")], [], ["Err(IllegalParameter)"])

prop("R04", "SRP: a party rebuilt from its stored secrets resumes the same session",
  "All session state is derived from the inputs: a server that crashes at any point and is rebuilt from the stored ephemeral secret and verifier, or a client rebuilt from its ephemeral secret and credentials, continues the session with the same public value, proofs and key. If what was stored is lost, stale or replaced meanwhile (new ephemeral, changed verifier), the session fails with a bad proof and never falsely succeeds.",
  ["crash_points", "fault_sequences", "histories"],
  "all crash points of either party with intact, lost, stale or torn stored state",
  "No test builds the second step from anything but the first one's live variables, or repeats a step.",
  [RC, RS], [("stateless process_reply recomputing A resp. B", RC + ", " + RS)], [("b, v", "server ephemeral and verifier the application must persist", RS)], ["proofs and keys before/after restart"])

prop("R05", "SRP: interoperates with an independent RFC 5054 peer in all groups",
  "Groups, multiplier k, private key x, verifier, public values, scrambling parameter u and premaster secret are those of RFC 5054, and the proofs are hashes of A, B and the key as the crate documents: a real client or server completes against an independent implementation in every provided group, for all credentials and ephemerals.",
  ["inputs", "configurations", "schedules"],
  "both roles against an independent peer; all seven groups; SHA-1/SHA-256/SHA-512; all ephemerals including those with short public values",
  "One RFC vector for the 1024-bit group and SHA-1; the other six groups, other hashes and proofs have no reference.",
  [RC, RS, RU, RG], [("compute_u, compute_k, compute_m1, compute_m2", RU), ("group constants", RG)], [], ["public values, proofs, keys"])

prop("R06", "SRP: a proof is accepted only in full and unmodified",
  "verify steps accept exactly the expected proof bytes: any truncated (including empty), extended, bit-flipped, shifted, zero-filled or repeated proof, as produced by short reads, torn writes or tampering, is reported as a bad proof without panicking, and a rejected attempt does not affect a later verification of the correct proof.",
  ["inputs", "fault_sequences"],
  "every truncation length, extension and corruption position of both proofs, in any order of attempts",
  "No test verifies anything but a complete proof.",
  [RC, RS], [("ct_eq on slices of different length", RC + " verify_server, " + RS + " verify_client")], [], ["Err(BadRecordMac)"])

prop("X01", "All protocols: concurrent sessions do not influence one another",
  "Every message, error and key of a session is the same whether the session runs alone or interleaved in any way with any number of other sessions, users, failures and protocols sharing the same process, client, server and group objects.",
  ["schedules", "histories"],
  "all interleavings of sessions sharing client/server/database objects, including sessions that fail or are abandoned midway",
  "Every test runs one session per process object; shared or leaked state between sessions cannot show.",
  [AC, AS, SL, RC, RS, RG], [("session state moved by value through the phases", AC + ", " + AS + ", " + SL), ("immutable shared groups", RG)], [], ["transcripts of the same session alone and interleaved"])

prop("X02", "All protocols: behaviour is a function of inputs and the supplied random source",
  "When the caller supplies the random source (or secret ephemerals), every message, error and key is determined by the call inputs and that source alone: two executions with the same inputs and the same random stream are byte-identical, and a different stream changes every secret-dependent output. No other randomness, clock, address or prior history enters.",
  ["histories", "schedules", "configurations"],
  "all sessions and registrations, repeated in the same process after arbitrary other activity",
  "Tests use the operating system's random source and never repeat a run.",
  [AC, AS, AU, SL, SE, RC, RS], [("all randomness through the CSPRNG parameter", AC + ", " + AS + ", " + SL)], [], ["event-log digests of repeated executions"])

prop("X03", "All protocols: optional features and build mode add nothing but API",
  "A session behaves the same in every build of the crates that offers the calls it uses: for any selection of optional features (aucpace: alloc, strong_aucpace, partial_augmentation, serde, zeroize, getrandom, sha2, scrypt; spake2: std, getrandom), with or without debug assertions, the same inputs and the same random stream give the same messages, errors and keys, and the same encodings where messages are encoded, so that parties built differently interoperate.",
  ["configurations", "histories", "inputs"],
  "feature selections (covering every combination of three settings) x build modes x simulated deployments with loss, crashes, tampering, wrong credentials and failing hashers",
  "The tests run with all features and debug assertions only; no test compares two builds.",
  [AC, AS, AU, SL, RC, RS], [("cfg(feature) items, debug assertions", AC + ", " + AS + ", " + SL)], [], ["messages, errors, keys and encodings of each session in each build"])

prop("N01", "Proof and authenticator comparisons take constant time",
  "The time taken to reject a wrong authenticator or proof does not depend on how much of it is correct.",
  ["inputs"], "all wrong proofs", "Tests do not measure time.",
  [AC, AS, RC, RS], [("subtle::ConstantTimeEq", AC)], [], [])
prop("N02", "Offline dictionary attacks on recorded sessions are infeasible",
  "From everything visible on the network (passively, or with one guess per active session) the password cannot be found by computation feasible to an attacker.",
  ["histories"], "all efficient attackers", "A computational hardness statement, not a behaviour.",
  [AU, SL, RC], [("PAKE constructions", AU)], [], [])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
