#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [], "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": observe, "hook_needed": None}})

p("C01", "SRP: client and server that share a password agree",
  "For every valid group, hash function, username, password, salt and pair of ephemeral secrets, a client that registered a verifier with the server and logs in with the same username, password and salt ends with exactly the server's session key, the server accepts the client's proof, and the client accepts the server's proof. The login can only be refused when the exchanged public value is a multiple of the group modulus.",
  ["inputs", "configurations"], "all (N, g) with 1 < N and g not longer than N, all hash functions, all byte strings username/password/salt/a/b (any length, leading zeros included)",
  "The suite runs one RFC 5054 vector and a few random logins on one group; values with leading zero bytes, reductions that wrap, tiny or large secrets and other groups are not reached.",
  ["srp/src/client.rs", "srp/src/server.rs", "srp/src/utils.rs"],
  [("premaster secret on both sides", "SrpClient::compute_premaster_secret, SrpServer::compute_premaster_secret"), ("verifier", "SrpClient::compute_verifier"), ("public values", "compute_public_ephemeral (both)")],
  ["SrpClientVerifier::key", "SrpServerVerifier::key", "verify_client", "verify_server"])
p("C02", "SRP: every published value follows its formula",
  "The verifier, both public values, the session key and both proofs are exactly the documented SRP-6a functions of the inputs (k = H(N|PAD(g)), x = H(s|H(I:P)), u = H(A|B), v = g^x, A = g^a, B = kv + g^b, S, M1 = H(A|B|K), M2 = H(A|M1|K), all integers as minimal big-endian bytes). In particular no result depends on leading zero bytes of an input integer.",
  ["inputs", "configurations"], "all groups, hash functions and byte strings; both the public methods and the internal helpers they use",
  "One vector (group 1024, SHA-1) pins the formulas; a deviation for other lengths, values, groups or hashes is invisible.",
  ["srp/src/client.rs", "srp/src/server.rs", "srp/src/utils.rs"],
  [("hash inputs", "utils.rs compute_u/compute_k/compute_m1/compute_m2"), ("identity hash and x", "client.rs compute_identity_hash, compute_x")],
  ["compute_verifier", "compute_public_ephemeral", "process_reply", "proof", "key"])
p("C03", "SRP: a public value that is 0 mod N is refused, and only that",
  "Processing a peer's reply fails with the illegal-parameter error naming the peer's value exactly when that value is congruent to 0 modulo N (0, N, 2N, with or without leading zeros, empty), on the client and on the server. No other value is refused, and none makes either side panic.",
  ["inputs"], "all byte strings received as public values, all groups, secrets and passwords",
  "Tests use at most one bad value; the guard must hold for every multiple of N in every encoding.",
  ["srp/src/client.rs", "srp/src/server.rs"], [("safeguard against malicious B / A", "process_reply (both)")], ["process_reply"])
p("C04", "SRP: a proof is accepted if and only if it is the expected proof",
  "Each side accepts a received proof exactly when it equals, in full length and in every byte, the proof the peer computes from the same transcript; every other byte string, of any length, is answered with the bad-MAC error naming the peer. A client's proof is accepted by the server only if the two sides hashed the same concatenation A|B|K (collisions of the hash aside).",
  ["inputs"], "all byte strings offered as proofs, all sessions",
  "Tests offer the right proof and at most one wrong one; truncated, extended, empty and single-bit-different proofs are unbounded.",
  ["srp/src/client.rs", "srp/src/server.rs", "srp/src/utils.rs"], [("constant-time comparison", "verify_server, verify_client")], ["verify_server", "verify_client"])
p("C05", "SRP: the built-in groups are the RFC 5054 groups",
  "Each of the seven built-in groups has exactly the modulus and generator RFC 5054 appendix A gives for its size.",
  ["configurations"], "all seven groups, every bit of N and g",
  "Only the 1024-bit group (and one more indirectly) is exercised, and login works with any modulus on both sides.",
  ["srp/src/groups.rs", "srp/src/groups"], [("group constants", "groups.rs lazy statics")], ["srp::groups::G_*"])

p("C06", "SPAKE2: two sides with the same password and names derive the same key",
  "For every password, pair of identities and pair of secret scalars, an A side and a B side (or two symmetric sides) that exchange their messages unmodified both succeed and derive the same 32-byte key.",
  ["inputs"], "all byte strings for password and identities, all random scalars; both asymmetric and symmetric mode, either order of the two symmetric messages",
  "Tests use two or three password/identity combinations and a handful of random scalars.",
  ["spake2/src/lib.rs", "spake2/src/ed25519.rs"], [("blinding and unblinding", "Spake2::start_internal, Spake2::finish"), ("message sorting", "hash_symmetric")], ["finish"])
p("C07", "SPAKE2: messages and key match python-spake2's protocol",
  "The outbound message is the side byte followed by the encoding of x*B + pw*(M, N or S for side A, B or symmetric), and the derived key is SHA-256 over the fixed transcript of hashed password, hashed identities, the two messages in protocol order (A first; sorted when symmetric) and the unblinded shared element. The constants M, N and S and the side bytes are those of python-spake2's Ed25519 parameters.",
  ["inputs"], "all passwords, identities, scalars and peer messages",
  "A few interoperability vectors fix one point each of these functions.",
  ["spake2/src/lib.rs", "spake2/src/ed25519.rs"], [("transcript", "hash_ab, hash_symmetric"), ("blinding constants", "const_m, const_n, const_s")], ["start_*_with_rng", "finish"])
p("C08", "SPAKE2: the password scalar is HKDF output read big-endian mod the group order",
  "For every password, the scalar derived from it is the 48-byte HKDF-SHA256 output (empty salt, info 'SPAKE2 pw') read as a big-endian integer and reduced modulo the group order; all password bytes count and any length, including empty, is accepted.",
  ["inputs"], "all passwords", "Three sample passwords are checked.",
  ["spake2/src/ed25519.rs"], [("derivation", "ed25519_hash_to_scalar")], ["Ed25519Group::hash_to_scalar"])
p("C09", "SPAKE2: inbound messages are validated exactly, without panics",
  "Finishing with a received byte string fails with WrongLength exactly when it is not 33 bytes; otherwise with BadSide exactly when its first byte is not the peer's side byte ('B' for A, 'A' for B, 'S' for symmetric); otherwise with CorruptMessage exactly when the remaining 32 bytes do not decode to a group element; and otherwise it yields a key. No received byte string makes it panic.",
  ["inputs"], "all byte strings of all lengths, all three roles",
  "Two or three malformed messages are tried.",
  ["spake2/src/lib.rs", "spake2/src/ed25519.rs"], [("checks at the start of finish", "Spake2::finish"), ("decoding", "bytes_to_element")], ["finish"])
p("C10", "SPAKE2: the key binds password, identities, roles and messages",
  "Two completed sessions produce equal keys only if they used the same password, the same identity (or ordered pair of identities), the same mode and the same pair of messages, collisions of SHA-256 aside. Changing any single one of these changes the transcript that is hashed.",
  ["inputs"], "all pairs of completed sessions", "Tests compare one wrong password and one wrong identity.",
  ["spake2/src/ed25519.rs", "spake2/src/lib.rs"], [("fixed-length transcript of hashes", "hash_ab, hash_symmetric")], ["finish"])
p("C11", "SPAKE2: debug output of a session never depends on secrets",
  "Formatting a session in progress prints only the group name, the side and the public identities: it is the same text for any two sessions that differ only in password, secret scalar or message. Distinct identities that are not UTF-8 print as distinct, unambiguous hexadecimal.",
  ["inputs"], "all sessions, all identities", "One UTF-8 example per side is compared with a literal string.",
  ["spake2/src/lib.rs"], [("Debug impls", "Spake2, Side, MaybeUtf8")], ["format!(\"{:?}\", session)"])

p("C12", "AuCPace: a registered client and its server agree on the session key",
  "For every username, password, hasher, salt, parameters, channel identifier, SSID or nonce pair and every random value, a client that registered and then logs in with the same password derives exactly the server's session key, with implicit authentication and with explicit mutual authentication, over the heap and the fixed-buffer variants alike. The run can only fail where a public point is the neutral element or the hasher reports an error.",
  ["inputs", "configurations"], "all inputs and random values, K1, both password-buffer variants, nonce-agreed and pre-established SSIDs",
  "One end-to-end example run with one user and password per mode.",
  ["aucpace/src/client.rs", "aucpace/src/server.rs", "aucpace/src/utils.rs"],
  [("PRS on both sides", "generate_cpace, generate_prs"), ("CPace", "generate_keypair, compute_first_session_key")], ["implicit_auth", "receive_*_authenticator"])
p("C13", "AuCPace: the partial and strong variants agree too",
  "The same agreement holds with the server's stored long-term key pair (partial augmentation), with the blinded salt (strong AuCPace) and with both: blinding and unblinding cancel for every non-zero blinding value and every secret exponent, so login recovers exactly the salt used at registration.",
  ["inputs", "configurations"], "all inputs and random values; partial, strong and partial+strong; heap and fixed-buffer",
  "One example run per variant.",
  ["aucpace/src/client.rs", "aucpace/src/server.rs"], [("blinding", "start_augmentation_strong, StrongAuCPaceClientAugLayer"), ("secret exponent", "generate_salt_strong, generate_prs_strong"), ("long-term key", "generate_client_info_partial_aug")], ["implicit_auth", "receive_*_authenticator"])
p("C14", "AuCPace: SSID rules",
  "A pre-established SSID is refused as insecure exactly when it is shorter than 16 bytes, by client and server alike; otherwise, and for the nonce exchange, both sides derive the same sub-session id, the prefixed hash of the SSID bytes or of server nonce followed by client nonce. Every SSID byte counts.",
  ["inputs", "configurations"], "all SSID byte strings, all nonces, all K1", "One short SSID is tried; the agreed SSID is never compared.",
  ["aucpace/src/client.rs", "aucpace/src/server.rs", "aucpace/src/utils.rs", "aucpace/src/constants.rs"], [("length check", "begin_prestablished_ssid (both)"), ("H0", "compute_ssid")], ["begin_prestablished_ssid", "agree_ssid"])
p("C15", "AuCPace: neutral points from the peer are always refused",
  "Whenever a received public key, augmentation public key, blinded point or recovered salt point is the neutral element, the step fails with the illegal-point error and no key or message comes out; that error is raised in no other case. This holds for the client and the server, implicit and explicit authentication, heap and fixed-buffer variants, known and unknown users.",
  ["inputs"], "all points, all states reaching each step", "A few steps are tried with the identity, not all of them.",
  ["aucpace/src/client.rs", "aucpace/src/server.rs"], [("is_identity checks", "generate_cpace*, receive_*_pubkey, implicit_auth, generate_prs_strong, lookup_failed_strong")], ["each protocol step's Result"])
p("C16", "AuCPace: explicit authentication releases a key only for the right authenticator",
  "With explicit mutual authentication each side returns the session key exactly when the received 64-byte authenticator equals the one the peer derives from the same sub-session id and first session key, and otherwise fails with the mutual-authentication error. The client and server authenticators are produced by differently prefixed hashes, and the server's is released only after the client's was verified.",
  ["inputs"], "all 64-byte authenticators, all sessions", "Only the success path and one failure are run.",
  ["aucpace/src/client.rs", "aucpace/src/server.rs", "aucpace/src/utils.rs"], [("gate", "receive_server_authenticator, receive_client_authenticator"), ("H3/H4", "compute_authenticator_messages")], ["receive_*_authenticator"])
p("C17", "AuCPace: keys and messages follow the key schedule",
  "Every hash the protocol computes is the configured digest over the 4-byte little-endian step number (0 to 5) followed by the documented inputs in order: sub-session id, CPace generator (ssid, prs, channel identifier), first session key (ssid, encoded shared point), authenticators and session key (ssid, first session key). Public keys are the generator times the fresh private scalar.",
  ["inputs", "configurations"], "all inputs, digests, channel identifiers", "No test compares any derived value with the specification.",
  ["aucpace/src/utils.rs", "aucpace/src/client.rs", "aucpace/src/server.rs"], [("H0..H5", "utils.rs"), ("generator", "generate_keypair")], ["messages and keys returned by each step"])
p("C18", "AuCPace: an unknown user gets a consistent, indistinguishable answer",
  "For a user the database does not know (or has no stored key pair for), the server still answers with a message of the same kind and group: a public key that is fresh each time, default parameters, and a salt (or blinded salt) that is the same function of the server secret and the username on every attempt, while the pairing secret is fresh randomness. It never reports that the user is unknown.",
  ["inputs", "histories"], "all usernames, databases, server secrets and sequences of attempts", "No test looks at the answer for an unknown user twice.",
  ["aucpace/src/server.rs"], [("fake salt", "lookup_failed, lookup_failed_strong")], ["generate_client_info*"])
p("C19", "AuCPace: the password hash covers exactly username:password",
  "The password hasher receives exactly the bytes username, ':' and password, with the given salt and parameters; the fixed-buffer variant fails with the too-long error exactly when these do not fit and otherwise equals the heap variant. The 32- or 64-byte output becomes the scalar by little-endian reduction, and a missing output, another length and any hasher error are each reported with their own error, never a panic.",
  ["inputs", "configurations"], "all usernames, passwords, buffer sizes, salts, parameters, hashers", "One username/password per variant with one hasher; boundary lengths and other hash sizes are not tried.",
  ["aucpace/src/client.rs", "aucpace/src/utils.rs"], [("buffer", "hash_password, hash_password_alloc"), ("scalar", "scalar_from_hash")], ["generate_cpace*", "register*"])
p("C20", "AuCPace: registration produces the record login needs",
  "A registration message carries the given username, the salt actually used (or the secret exponent from which the salt is recomputed), the parameters actually used and the verifier G*w for the scalar w of the password hash under exactly those, in all four variants. The salt and the secret exponent are fresh values from the supplied generator.",
  ["inputs", "configurations"], "all inputs; register, register_alloc, register_strong, register_alloc_strong", "One registration per variant is fed to one login.",
  ["aucpace/src/client.rs"], [("registration", "register*, generate_salt_strong")], ["ClientMessage::Registration", "ClientMessage::StrongRegistration"])
p("C21", "Secrets and nonces are fresh draws from the supplied generator",
  "Every nonce, private scalar, blinding value, salt, server secret and random pairing secret is a new draw of full width from the caller's random generator: no two of them share a draw, within a session or across sessions of the same endpoint, and none depends on anything else. The blinding value is never zero.",
  ["inputs", "histories"], "all generators, all sequences of sessions on one endpoint", "Randomness is never observed by a test.",
  ["aucpace/src/client.rs", "aucpace/src/server.rs", "aucpace/src/utils.rs", "spake2/src/lib.rs"], [("draws", "generate_nonce, generate_keypair, generate_server_keypair, ServerSecret::new, start_*_with_rng, start_augmentation_strong")], ["messages of successive sessions under a recorded generator"])
p("C22", "AuCPace: messages survive serialisation",
  "Every client and server message that serialises successfully deserialises to an equal message, and malformed salt or parameter strings are refused with an error instead of a panic.",
  ["inputs"], "all message variants and field values", "A few hand-written messages are round-tripped with one or two codecs.",
  ["aucpace/src/utils.rs", "aucpace/src/client.rs", "aucpace/src/server.rs"], [("helpers", "serde_saltstring, serde_paramsstring"), ("derived impls", "ClientMessage, ServerMessage")], ["serde Serialize/Deserialize of the message enums"])
p("C23", "Secret-dependent comparisons are constant-time",
  "Received proofs and authenticators are compared with the expected values only through the constant-time equality primitive over the full length: no branch, index or early exit of the verification step depends on the expected secret value other than the final accept/reject.",
  ["inputs"], "all expected and received values", "Functional tests cannot see timing.",
  ["srp/src/client.rs", "srp/src/server.rs", "aucpace/src/client.rs", "aucpace/src/server.rs"], [("subtle::ConstantTimeEq", "verify_server, verify_client, receive_*_authenticator")], ["verify_*", "receive_*_authenticator"])
p("C24", "No peer-controlled input makes any side panic",
  "Under the documented preconditions (a valid group; a digest and hasher that honour their traits), no byte string, point or authenticator a peer can send, and no username, password or SSID, makes any public step of the three protocols panic, overflow, index out of bounds or loop forever (a zero blinding value is redrawn until it is not zero, which ends with probability one).",
  ["inputs", "configurations"], "all inputs to every public protocol step", "Panics need inputs the tests do not choose.",
  ["srp/src", "spake2/src", "aucpace/src"], [("bounds, unwrap and expect invariants", "throughout")], ["every public protocol step"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
