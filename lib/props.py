"""The properties, in one place: gen.py writes properties.jsonl and MANIFEST.json from this."""
P = []


def prop(id, title, statement, over, text, why, files, mech, tech, note, level="exploration", observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, tech=tech, note=note, level=level, observe=observe, state=state))


HS = "src/protocol/handshakestate.c"
SY = "src/protocol/symmetricstate.c"
CS = "src/protocol/cipherstate.c"
DH = "src/protocol/dhstate.c"
PA = "src/protocol/patterns.c"

prop("C01", "Handshakes are byte for byte the ones the Noise specification defines",
     "For every supported protocol name (pattern, prefix, DH, hybrid, cipher, hash), role, key material, prologue, "
     "pre-shared key and payload, each handshake message, the handshake hash, the remote static key and both "
     "transport keys are exactly those that the Noise specification (with noise-c's documented extensions) defines. "
     "Two noise-c peers, or a noise-c peer and any other conforming implementation, therefore always complete and agree.",
     ["inputs", "configurations"],
     "all 38 non-fallback patterns x 2 prefixes x DH/hybrid/cipher/hash choices x keys, prologues (0..70000 bytes), payload sizes (0..limit) x both roles x 3 backends",
     "The test vectors fix one key set and a few payloads per protocol name; agreement has to hold for every key, size, API path and mix of roles.",
     [HS, SY, PA, CS, "src/protocol/hashstate.c", DH],
     [("token interpreter for writing and reading messages", HS), ("MixKey / MixHash / EncryptAndHash / Split", SY), ("pattern tables", PA)],
     "runtime monitor: independent executable Noise model (libcrypto primitives, own NewHope) compared on every message, under ASan/UBSan",
     "held on the handshakes executed; trusts libcrypto and the model written from the specification, which agrees with noise-c byte for byte on every one of them",
     observe=["wire bytes of every message", "handshake hash", "remote static key", "transport ciphertexts"])

prop("C02", "A handshake completes only between peers that agree and saw the same bytes",
     "If any bit of a handshake message is altered, truncated, extended, replayed or replaced, or the peers differ in "
     "prologue, pre-shared key, static keys or protocol name, or a peer does not hold the static private key it claims, "
     "then the two never end with a common handshake hash or working transport keys. The receiving side rejects the "
     "first message whose authentication covers the difference, reports no payload, and is failed for good: every later "
     "operation on it reports an invalid state.",
     ["inputs", "configurations", "histories"],
     "every pattern and prefix, every message, every position and kind of alteration, every kind of configuration difference",
     "No test alters a handshake message; the guarantee is over all alterations and all differences.",
     [HS, SY, CS],
     [("decrypt-and-hash with the running transcript as associated data", SY), ("failure is terminal", HS), ("null ephemeral rejection", HS)],
     "runtime monitor: each end shadowed by its own model under an active-attacker network; acceptance must equal the model's verdict",
     "held on the attacks executed; the attacker is bounded to the listed alterations and to impostors using the model")

prop("C03", "The handshake API follows its documented state machine for every call order",
     "For every sequence of calls on a handshake object, each call returns the documented result for the object's current "
     "state: configuration only before start, start only with all required keys, writes and reads strictly in the pattern's "
     "turn, split only at the end and once, the hash only at the end, and errors for null or malformed arguments. A call "
     "that is refused for state or argument reasons changes nothing, the reported action always tells the next legal step, "
     "and a failed creation returns no object.",
     ["histories", "inputs"],
     "random interleavings of 14 kinds of call on initiator and responder, 60..120 calls each, over all patterns",
     "Unit tests follow the legal order with a handful of misuses; the state machine is defined over all orders.",
     [HS],
     [("action and requirement checks at the head of each call", HS)],
     "runtime monitor: random call sequences checked online against a model of the documented states",
     "held on the call sequences executed; where the documentation allows several errors for one call, any of them is accepted")

prop("C04", "Encryption and decryption are the specified AEADs with the specified limits",
     "For every key, nonce, associated data and plaintext, encryption yields exactly the ChaChaPoly or AESGCM ciphertext that "
     "the Noise specification defines, decryption inverts it and accepts nothing else, and without a key data passes through "
     "unchanged. The 65535-byte limit, the room needed for the tag and the key and nonce rules are enforced, and a "
     "rejected call leaves data and state unchanged.",
     ["inputs", "histories"],
     "both ciphers, all four hashes, plaintext and associated-data sizes 0..65600 around every block boundary, any alignment, nonces up to 2^64-1, three backends",
     "Tests use a few fixed vectors; block-boundary, alignment, nonce-carry and limit behaviour is over all inputs.",
     [CS, "src/backend/ref/cipher-aesgcm.c", "src/backend/ref/cipher-chachapoly.c", "src/crypto/chacha/chacha.c", "src/crypto/donna/poly1305-donna-32.h", "src/crypto/ghash/ghash.c", "src/backend/openssl/cipher-aesgcm.c", "src/backend/sodium/cipher-chachapoly.c"],
     [("nonce formatting and AEAD back ends", "src/backend"), ("length, key and nonce checks", CS)],
     "runtime monitor: differential oracle (libcrypto AEAD/HKDF) over random operation sequences, canaried buffers, ASan/UBSan",
     "held on the sequences executed; trusts libcrypto, which is also the back end under test for one cipher of one build")

prop("C29", "A SymmetricState computes what the specification defines for any call order",
     "A SymmetricState starts from its protocol name, and every sequence of mix_key, mix_hash, encrypt_and_hash, "
     "decrypt_and_hash and split gives exactly the bytes, keys, nonces and handshake hash the Noise specification defines. "
     "Before the first key data passes through; split gives the two keys in order whichever output is left out, and ends the "
     "object's use. Forgeries, sizes over the limits, missing room, null arguments, unknown names and identifiers are refused "
     "with the documented error, and a refused call changes nothing.",
     ["inputs", "histories"],
     "all protocol names, random call sequences with data up to 70000 bytes, forged and cut ciphertexts, three backends",
     "Tests run a handful of fixed sequences; carried-over state is over all call orders.",
     [SY, CS, "src/protocol/hashstate.c", "src/protocol/names.c"],
     [("mixing, encryption and split", SY)],
     "runtime monitor: every step compared with a shadow SymmetricState computed by libcrypto, canaried buffers, ASan/UBSan",
     "held on the sequences executed")

prop("C05", "A failed decryption releases no plaintext and changes nothing",
     "Whenever decryption or the reading of a handshake message fails authentication, whatever was altered (ciphertext, tag, "
     "associated data, nonce, key, length), the call reports the failure, and neither the caller's message buffer nor the "
     "payload buffer afterwards contains any plaintext, genuine or unauthenticated. The failed attempt does not advance the "
     "nonce: the genuine message still decrypts afterwards.",
     ["inputs", "histories"],
     "13 kinds of forgery at all sizes, both ciphers, three backends, and forged handshake messages in every pattern",
     "Tests check the return code of a few corrupted vectors, not what is left in memory or the next nonce.",
     [CS, HS, "src/backend/openssl/cipher-aesgcm.c", "src/backend/ref/cipher-aesgcm.c", "src/backend/ref/cipher-chachapoly.c"],
     [("verify before decrypting, or wipe on failure", "src/backend"), ("nonce advance only on success", CS)],
     "runtime monitor: memory scan of every output buffer after each rejected forgery; shadow nonce",
     "held on the forgeries executed; the scan looks for any 16 consecutive bytes of plaintext")

prop("C20", "Fallback to XXfallback (Noise Pipes) is exact, and possible only where defined",
     "After a first message that failed, was declined, or was answered by garbage, both ends can switch to XXfallback (or its "
     "hybrid form); the new handshake then reuses the original initiator's ephemeral, reverses the roles, and is byte for byte "
     "the one the specification defines, ending in agreement. Fallback is refused in every other state and pattern, with an "
     "ephemeral that was rejected or never seen, and the fallback handshake fails if its messages, its prologue or the reused "
     "ephemeral differ between the ends. An end that falls back forgets the remote static key it had assumed.",
     ["inputs", "histories", "configurations"],
     "all patterns with a pre-known responder key x triggers x order of fallback x prefixes, hybrids and algorithms, with alterations",
     "Tests run vectors of one fallback path; here state carried over from an arbitrary failed handshake matters.",
     [HS, PA],
     [("fallback conversion: roles, keys kept and cleared, transcript restart", HS)],
     "runtime monitor: both ends shadowed by the model through failure, fallback and completion",
     "held on the runs executed; fallback between hybrid and non-hybrid patterns is not judged (not defined by the specification)")

prop("C27", "Transport nonces are never reused, rewound or accepted twice",
     "Each successful encryption uses the next nonce in sequence and each successful decryption consumes exactly one; a message "
     "is accepted only under the nonce the receiver expects, so replayed, reordered, dropped-then-late and corrupted messages "
     "are rejected without losing the message that is expected. The nonce can be moved forward but never back, and once the "
     "last nonce is reached both directions refuse to work instead of wrapping.",
     ["histories", "fault_sequences"],
     "sequences of sends, deliveries in any order, replays, corruptions, jumps and rewinds, from nonce 0 up to exhaustion",
     "Tests send a few messages in order; the discipline is over all delivery histories and the end of the nonce space.",
     [CS],
     [("nonce increment on success, monotone set_nonce, reserved last nonce", CS)],
     "runtime monitor: online checker of the delivery history against the expected-nonce rule, with ciphertexts recomputed per nonce",
     "held on the histories executed")

prop("C06", "Message sizes are exact and every buffer and length limit is respected",
     "Every handshake message has exactly the length its pattern, keys and payload determine; writing succeeds exactly when "
     "the caller's buffer has room for it and it does not exceed 65535 bytes, and otherwise reports an invalid length. Reading "
     "accepts exactly the lengths the pattern allows, refuses every truncation, every message over 65535 bytes and every "
     "payload that does not fit the caller's buffer. No call writes outside the buffer it was given, whatever its size, and "
     "reported sizes, message lengths, name lengths and hash lengths are the true ones.",
     ["inputs", "configurations"],
     "all patterns and algorithm choices x payload sizes 0..65535 x every buffer size around the exact one x every truncation; outputs guarded by canaries and exact heap allocations",
     "Tests always pass generous buffers and complete messages; the limits are over all sizes.",
     [HS, CS, SY, "include/noise/protocol/buffer.h", "src/protocol/hashstate.c", "src/protocol/names.c"],
     [("room and length checks before each token", HS), ("65535 limit and MAC room", CS)],
     "runtime monitor: exact-size heap buffers under ASan with a size model; bounds sweep around every limit",
     "held on the sizes executed: every buffer size within a few bytes of each boundary and random ones elsewhere")

prop("C12", "Diffie-Hellman keys agree, derive, validate and copy correctly",
     "For Curve25519 and Curve448, two objects with generated or imported key pairs always calculate the same shared secret, "
     "namely the RFC 7748 function of the clamped private key and the other's public key, for every private key and every "
     "canonical public key. The public key of a private key is the one the definition gives, a pair that does not match is "
     "refused, null public keys are recognised and give an all-zero secret, copies behave as their original, wrong lengths, "
     "roles or missing keys are refused, and a refused call leaves a usable object.",
     ["inputs", "histories"],
     "random, sparse, dense, low-order, twist and boundary public keys and private keys x 2 curves x 3 backends and the 32-bit, ref64 and SSE2 builds x API paths",
     "Tests use RFC vectors; carries and edge values of field arithmetic appear only for special inputs.",
     [DH, "src/backend/ref/dh-curve25519.c", "src/backend/ref/dh-curve448.c", "src/crypto/donna/curve25519-donna.c", "src/crypto/goldilocks/src", "src/backend/sodium/dh-curve25519.c"],
     [("scalar multiplication and public key derivation", "src/backend"), ("key state tracking, null keys", DH)],
     "runtime monitor: libcrypto and big-integer ladder oracle over edge-biased keys, API model, ASan/UBSan",
     "held on the keys executed; Curve448 public keys not below the prime may be refused")

prop("C13", "The NewHope hybrid exchange agrees and follows its definition",
     "For all seeds of both sides, the initiator's and the responder's NewHope shared secrets are equal and are, with both "
     "public messages, exactly those of the NewHope algorithm; a changed public message gives what the algorithm gives for it. "
     "Key objects keep their role: the responder's key depends on the initiator's, calculation with keys of wrong role, length "
     "or missing keys is refused, and copies and reuse of an object behave as fresh objects do.",
     ["inputs", "histories"],
     "random, structured and rare seeds (second round of rejection sampling), altered public messages (bit flips, extreme coefficients), role misuse, object reuse, copies",
     "The test runs a few exchanges; reconciliation failures and coefficient edge cases are input dependent.",
     ["src/backend/ref/dh-newhope.c", "src/crypto/newhope", DH],
     [("key generation, reconciliation, NTT, sampling", "src/crypto/newhope"), ("object roles and dependent keys", "src/backend/ref/dh-newhope.c")],
     "runtime monitor: independently written NewHope oracle compared byte for byte over random and altered exchanges",
     "held on the exchanges executed; the oracle is written from the NewHope paper and reference test vectors")

prop("C14", "Ed25519 signatures are exact, and only genuine ones verify",
     "For every private key and message, signing gives the RFC 8032 signature and every genuine signature verifies. No "
     "signature with any bit of message, signature or public key changed, with a non-canonical S, or made by another key "
     "verifies. Key pairs are derived, checked, copied and cleared correctly, and a call with wrong lengths, missing keys or "
     "null arguments is refused with the documented error.",
     ["inputs", "histories"],
     "random and structured keys, message sizes 0..4096, forgeries: bit flips, S+kL, swapped R, other key or message, low-order keys; three backends",
     "Tests verify a few RFC vectors; unforgeability is over all alterations, and S malleability has no vector.",
     ["src/protocol/signstate.c", "src/backend/ref/sign-ed25519.c", "src/crypto/ed25519", "src/backend/sodium/sign-ed25519.c"],
     [("sign and verify", "src/crypto/ed25519/ed25519.c"), ("key tracking", "src/protocol/signstate.c")],
     "runtime monitor: libcrypto Ed25519 as differential oracle, forgery generator, API model, ASan/UBSan",
     "held on the signatures executed; small-order keys are not judged where RFC 8032 implementations legitimately differ")

prop("C15", "Hashing, HKDF and PBKDF2 are exact for every input and chunking",
     "BLAKE2s, BLAKE2b, SHA-256 and SHA-512 digests equal their standards for every input length, including beyond 4 GiB "
     "counters, and for every way of cutting the input into updates; one-shot and two-part hashing agree with streaming; the "
     "Noise HKDF gives the HMAC-based outputs for every key, data and output length, and PBKDF2 the RFC 8018 output for every "
     "password, salt, iteration count and output length. Wrong lengths and null arguments are refused, and objects are "
     "reusable after reset, finalize or error.",
     ["inputs", "histories"],
     "lengths 0..70000 plus more than 2^32 bits or bytes, random chunkings, 4 hashes, 3 backends",
     "Tests hash a few short strings; padding, block-boundary and counter-carry behaviour is over all lengths and chunkings.",
     ["src/protocol/hashstate.c", "src/crypto/blake2", "src/crypto/sha2", "src/backend/ref/hash-blake2s.c", "src/backend/openssl/hash-sha256.c", "src/backend/sodium/hash-sha256.c"],
     [("update / finalize buffering and length counters", "src/crypto"), ("HMAC, HKDF, PBKDF2", "src/protocol/hashstate.c")],
     "runtime monitor: libcrypto digests/HMAC/PBKDF2 as differential oracle over random chunkings and huge inputs, ASan/UBSan",
     "held on the inputs executed; huge inputs are a handful per run")

prop("C16", "Protocol names and identifiers map one to one and only valid names parse",
     "Formatting a protocol id and parsing the name gives the same id back, for every combination of pattern, modifiers, DH, "
     "hybrid, cipher and hash that exists, and the name is exactly the one the specification's naming rule gives. Any other "
     "string, however close to a valid name, is refused without reading beyond its length, formatting respects the buffer "
     "size, and name and id lookup of every single algorithm are inverse to each other within its category only.",
     ["inputs"],
     "exhaustive over all valid ids and names; random mutations of names (case, length, embedded NUL, separators, missing or extra fields), ids with any bits, all buffer sizes",
     "Tests check a list of names; rejection is over all other strings and the mapping over all combinations.",
     ["src/protocol/names.c"],
     [("name table, field splitting, id ranges", "src/protocol/names.c")],
     "runtime monitor: independent name grammar as oracle, exhaustive valid names plus mutations in exact-size heap buffers, ASan",
     "exhaustive for valid names and ids, sampled for invalid ones")

prop("C28", "Error strings, fingerprints and memory utilities match their contracts",
     "Every error code maps to its own fixed message and any other value is formatted or truncated safely within the given "
     "buffer. Key fingerprints in both formats are exactly the digest-based strings documented, always terminated within the "
     "buffer, and refused for objects without a public key or for bad types and lengths. Secure compare and zero-test answer "
     "correctly for every content and length, and secure clearing really zeroes.",
     ["inputs"],
     "all error codes and random integers, every buffer size 0..200, both fingerprint types, all key kinds, byte arrays differing in any single bit",
     "Tests look at a few codes and one fingerprint; the contract is over all values and buffer sizes.",
     ["src/protocol/errors.c", "src/protocol/util.c", "include/noise/protocol/util.h"],
     [("noise_strerror, noise_format_fingerprint, noise_is_equal, noise_is_zero, noise_clean", "src/protocol/util.c")],
     "runtime monitor: reimplementation oracle over all codes, sizes and single-bit differences in exact-size buffers under ASan",
     "held on the values executed; all error codes exhaustively")

PB = "src/protobufs/protobufs.c"
prop("C09", "The protobuf codec writes exact encodings and reads them safely",
     "Values of every field type, including nested elements and arrays, written with the protobuf functions give exactly the "
     "proto3 wire encoding, reading that encoding gives the values back, and measuring gives its exact size. Any buffer too "
     "small, truncated, oversized or malformed input, wrong tag or wire type, invalid UTF-8 string and misuse of the calls is "
     "reported as the documented error, kept until the end, without touching memory outside the buffer; valid UTF-8 strings "
     "are accepted, unknown fields can be skipped, and peeking does not consume.",
     ["inputs", "histories"],
     "random field trees of all types and tags, all buffer sizes around the exact one, damaged encodings, exhaustive UTF-8 boundary code points",
     "Tests encode a few values of each type; varint lengths, nesting, truncation and hostile sizes are over all inputs.",
     [PB, "include/noise/protobufs.h"],
     [("backwards writer, element start/end, array and block insertion", PB), ("varint, delimited and UTF-8 readers, skip and peek", PB)],
     "runtime monitor: independent wire-format encoder/decoder and UTF-8 table as oracle, exact-size buffers under ASan/UBSan",
     "held on the encodings executed; sint32 varints above 32 bits and negative tags on writing are not judged")

CERT = "src/keys/certificate.c"
prop("C10", "Certificate and key objects keep, write and read back what was set",
     "Certificates, certificate chains, encrypted private keys, private keys and their parts hold exactly what was set, added, "
     "inserted or cleared on them, in order; writing one gives exactly the encoding that doc/noise-certificate.proto defines "
     "and reading that gives an equal object. Unknown fields are ignored; malformed, truncated or wrongly typed encodings are "
     "refused without an object, reads past the end of lists give nothing, null arguments are refused, and whatever happens "
     "all memory is released by free, and none is left after a failed read.",
     ["inputs", "histories"],
     "random operation sequences on all ten object types, damaged encodings, unknown fields, short buffers, bad UTF-8",
     "Tests load a few fixed certificates; list handling, nesting and error paths depend on the whole history and input.",
     [CERT, "include/noise/keys/certificate.h", "doc/noise-certificate.proto", PB],
     [("generated object API: new/free/read/write/set/add/insert/clear", CERT), ("array growth and object trees", "src/protobufs/protobufs.c")],
     "runtime monitor: object model plus independent encoder/decoder over random histories, live-heap accounting, ASan/UBSan",
     "held on the histories executed; repeated singular sub-messages (merge or replace) and illegal tag numbers are not judged")

prop("C11", "Private key files give up the key only to the passphrase",
     "A private key saved under a passphrase is readable back, from buffer or file, with that passphrase and gives an equal key; "
     "with any other passphrase, or after any alteration of algorithm, salt, iteration count or encrypted data, loading fails "
     "with an error and no key. The saved form is exactly the documented one (PBKDF2 of the named hash, the named cipher), uses "
     "a fresh random salt of at least 16 bytes and the built-in iteration count, and neither it nor the caller's buffer after "
     "success or error contains private key plaintext. Unknown algorithm names, missing fields, unknown versions and data too "
     "long or buffers too small are refused.",
     ["inputs", "histories"],
     "random keys, passphrases, algorithms, buffer sizes; bit flips, truncations and field changes of saved keys; three backends",
     "Tests load fixed files; wrong passphrases, alterations and plaintext residues are over all inputs and sizes.",
     ["src/keys/loader.c", CERT, "src/protocol/hashstate.c"],
     [("noise_save_private_key_to_buffer, noise_load_private_key_from_buffer", "src/keys/loader.c"), ("PBKDF2", "src/protocol/hashstate.c")],
     "runtime monitor: independent reader and writer of the key format (libcrypto), residue search of caller buffers, ASan/UBSan",
     "held on the keys executed; passphrases equal under HMAC's zero padding are not judged")

prop("C23", "noise-protoc generates code that implements the .proto file",
     "For every .proto file in the supported subset noise-protoc succeeds, and the C code it writes compiles and implements the "
     "messages: objects keep what is set, added, inserted or cleared, are written in exact proto3 encoding in tag order (packed "
     "where packed), read back equal, refuse malformed encodings and null arguments, and leak nothing. Enum constants have "
     "their values and names resolve by scope. Invalid files (duplicate names or tags, tags out of range, maps, empty messages, "
     "bad packing, syntax errors) are refused with a message, exit status 1 and no output files, and no file crashes or hangs it.",
     ["inputs", "histories"],
     "random .proto files with packages, nesting, enums, all types and qualifiers, edge tags; 46 kinds of invalid file; mutated files",
     "The repository has no test of noise-protoc; its output only exists for one committed schema.",
     ["tools/protoc/proto3-generate-c.c", "tools/protoc/proto3-ast.c", "tools/protoc/proto3-grammar.y", "tools/protoc/proto3-lexer.l", "tools/protoc/main.c", "tools/protoc/test.proto"],
     [("C generator", "tools/protoc/proto3-generate-c.c"), ("scopes, fields, name resolution", "tools/protoc/proto3-ast.c"), ("grammar checks", "tools/protoc/proto3-grammar.y")],
     "runtime monitor: generated code executed under ASan/UBSan against an object model and independent codec; ASan build of the compiler on random, invalid and mutated schemas",
     "held on the schemas and histories executed; C keywords as names, imports and unresolved types are not judged")

prop("C24", "noise-keytool writes matching certificates and keys and shows files truly",
     "noise-keytool generate writes a certificate and a passphrase-protected private key file for exactly the algorithms asked "
     "for, in that order and once each, with fresh keys whose public halves match, the id, name and role given, and in the "
     "documented formats; the private key opens only with the passphrase, which is not echoed when it is typed, and is readable nowhere else. show prints every field "
     "and the right fingerprint of every key of certificates, certificate chains and private keys, for any number of files. "
     "Wrong usage, passphrases that do not match or do not open the key, unusable paths and damaged files give a message and "
     "exit status 1, and never a crash. sign writes a signed certificate.",
     ["inputs", "command lines", "files"],
     "random option sets, algorithm lists, passphrases by option or prompt; random, damaged, empty and missing files; usage errors",
     "The repository has no test of noise-keytool.",
     ["tools/keytool/generate.c", "tools/keytool/show.c", "tools/keytool/keytool.c", "tools/keytool/sign.c"],
     [("key generation", "tools/keytool/generate.c"), ("display of files", "tools/keytool/show.c")],
     "runtime monitor: the ASan/UBSan build run as a process; its files decoded and decrypted, and its output predicted, independently",
     "held on the commands executed; NewHope as algorithm, PBKDF2 counts above 40000 and ambiguous encodings are not judged; sign is a known finding")

prop("C30", "Echo client and server complete every protocol and echo exactly",
     "For every protocol the echo protocol can name and keys made by echo-keygen or any other means, echo-client and echo-server "
     "send exactly the identifier and handshake messages that the echo protocol and Noise define, and each line or message, however "
     "segmented or padded, comes back exactly and is shown exactly, for several clients at once and one after another, whatever "
     "other clients do. Unsupported names, missing or wrong keys, malformed identifiers, lengths, messages and key files end the "
     "session or command with a message and exit status 1, without a crash or hang; nothing unauthenticated is echoed or shown, and "
     "no answer is sent after a refused message. Public key files may contain white space; echo-keygen writes fresh, matching pairs.",
     ["inputs", "histories", "schedules"],
     "random protocols, keys, key file layouts, padding, message sizes and segmentation; hostile peers; idle and concurrent clients",
     "The repository has no test of the echo programs.",
     ["examples/echo/echo-server/echo-server.c", "examples/echo/echo-server/echo-common.c", "examples/echo/echo-client/echo-client.c",
      "examples/echo/echo-keygen/echo-keygen.c"],
     [("echo protocol identifiers", "examples/echo/echo-server/echo-common.c"), ("accept loop", "examples/echo/echo-server/echo-common.c"),
      ("client session", "examples/echo/echo-client/echo-client.c")],
     "runtime monitor: the ASan/UBSan builds run as processes over loopback; an executable Noise model plays the other end and judges every byte",
     "held on the sessions executed; the amount of padding, key lookup of unknown hosts and lines containing NUL are not judged",
     observe=["bytes on the socket", "standard output", "exit status"])

prop("C07", "No call touches memory it does not own or uses bytes nobody wrote",
     "Whatever calls are made on live objects with true buffer sizes, in whatever order, with whatever arguments, messages from "
     "the network and file contents, and whatever earlier calls failed: the library reads and writes only its own objects and "
     "the buffers it was given, uses nothing after it was released or before it was written, computes without undefined "
     "behaviour, writes every byte of every output it reports, never lets a decision depend on uninitialised memory, reports "
     "only documented error codes, and once everything is freed no memory is left allocated.",
     ["inputs", "histories"],
     "random and coverage-guided scripts of calls over pools of every kind of object, honest and hostile, plus the workloads of the other properties under memcheck",
     "Tests call each object alone with well formed arguments and are not run under sanitizers; memory errors need particular orders, sizes and failures.",
     ["src/protocol", "src/backend", "src/crypto", "src/keys/loader.c", CERT, PB],
     [("message reading and writing", "src/protocol/handshakestate.c"), ("buffers and sizes", "src/protocol/cipherstate.c"), ("key objects", "src/protocol/dhstate.c"), ("object allocation", "src/protocol/util.c")],
     "runtime monitor: ASan/UBSan and Valgrind memcheck over API scripts, outputs asked to be defined, libFuzzer, heap accounting",
     "held on the scripts executed; ABI misuse (freed objects, false sizes) and what libcrypto and libsodium do inside are not judged")
prop("C08", "Hostile certificate, chain and key data is handled safely and in bounds",
     "Whatever bytes are given to the certificate, chain and private key loaders, loading ends, touches nothing outside the "
     "data, uses heap in proportion to the size of the data, and gives exactly what an independent reading of the format gives: "
     "the object (for a certificate asked from a chain the first one, for a chain asked from a certificate a chain of one), or "
     "INVALID_FORMAT and no object, with every allocation released. An error already in the buffer is kept, null arguments are "
     "refused, and what was loaded can be saved again and reads back the same. Protocol names and protobuf skipping are as robust.",
     ["inputs"],
     "random, damaged and coverage-guided inputs up to 64 KiB for every loader, reader and name parser",
     "Tests load a few fixed files; hostile lengths, nesting and truncation are over all inputs.",
     ["src/keys/loader.c", CERT, PB, "src/protocol/names.c"],
     [("noise_load_*_from_buffer", "src/keys/loader.c"), ("generated readers", CERT), ("varint and length checks", PB)],
     "runtime monitor: independent decoder, heap meter and leak accounting under ASan/UBSan, plus coverage-guided libFuzzer with oracles",
     "held on the inputs executed; PBKDF2 iteration counts in hostile key files are not limited by the library and not judged")

prop("C25", "Saving and loading files reports every failure and loses nothing",
     "A certificate, chain or private key saved to a file and loaded again is equal; saving replaces the whole file. If opening, "
     "reading, writing or closing fails or comes short at any point, or the device is full, the call reports NOISE_ERROR_SYSTEM "
     "instead of success, and with every outcome all memory and file descriptors are released. Empty files and files longer than "
     "65535 bytes are refused as INVALID_FORMAT, files up to that length and files that cannot be positioned (pipes) load, objects "
     "too long to be loaded again are not saved, and hostile file contents give exactly what the same data in a buffer gives.",
     ["inputs", "crash_points"],
     "every file operation of a save or load failing in turn, short reads and writes, full device, directories, pipes, sizes around 65535",
     "Tests never make a file operation fail; each failing point is a separate path.",
     ["src/keys/loader.c"],
     [("noise_load_file, noise_save_to_file", "src/keys/loader.c"), ("noise_save_private_key_to_file", "src/keys/loader.c")],
     "runtime monitor: fault injection by link-time interposition of stdio, real full devices and pipes, leak and descriptor accounting, ASan/UBSan",
     "held on the fault points executed; errors when closing a file that was read are not judged")

prop("C17", "Random data and generated keys carry fresh entropy and never repeat",
     "Every random generator, generated private key and handshake ephemeral takes at least 32 bytes of fresh operating system "
     "entropy, all of whose bits influence the result (bar those that a curve fixes), fills every byte asked for, and never "
     "repeats output, keys or ephemerals. A generator reseeds itself within 1.6 million bytes and on request, and after each "
     "request keeps neither the output nor the key that produced it, so earlier output cannot be rolled back. An entropy read "
     "that fails or comes short never results in a key or data; an interrupted one is repeated, and no read leaves a descriptor open. Padding leaves the payload "
     "alone and is random (or zero, as asked or without a generator).",
     ["inputs", "histories", "crash_points"],
     "request sequences of 0..3.5 MB, every entropy read failing in 4 ways or interrupted, every key type and handshake kind, bit flips of the entropy",
     "Tests look at a few outputs for being different; freshness, rekeying and entropy failure are over all histories and faults.",
     ["src/protocol/randstate.c", "src/protocol/rand_os.c", DH, "src/protocol/signstate.c", HS],
     [("noise_randstate_generate, reseed, rekey", "src/protocol/randstate.c"), ("noise_rand_bytes", "src/protocol/rand_os.c"), ("generate_keypair", "src/backend")],
     "runtime monitor: entropy source interposed at link time, bits flipped and faults injected; online checks for repeats, bias, retained state and reseeding, under ASan/UBSan",
     "held on the histories executed; statistical quality beyond bias and repeats is ChaCha20's; libsodium's own entropy failures abort and are not exercised")

prop("C18", "Secrets are wiped from memory that is released, cleared or reused",
     "Every heap block that the library releases holds no secret: no private key, ephemeral, pre-shared key, shared secret, "
     "chaining key, cipher key, passphrase, random seed or HMAC key, whether a handshake completed, was abandoned, failed or fell "
     "back. A DHState or SignState whose key is cleared or replaced by a public key, and a CipherState given another key, keep "
     "nothing that depends on the old secret. Refused private key files leave no plaintext behind, and handshake, HKDF and key "
     "file code leaves none of its symmetric keys, curve shared secrets or passphrases on the stack.",
     ["inputs", "histories"],
     "all handshake patterns and outcomes, every key type and way of setting, using and clearing it, ciphers, HKDF, generators, key files",
     "Tests never look at released memory; wiping has to happen on every path, including the failing ones.",
     [HS, SY, DH, "src/protocol/util.c", "src/protocol/hashstate.c", "src/protocol/signstate.c", "src/keys/loader.c", CERT],
     [("noise_free, noise_clean", "src/protocol/util.c"), ("*_free", "src/protocol"), ("clear_key", DH), ("private key loader", "src/keys/loader.c")],
     "runtime monitor: freed blocks, cleared objects and a private call stack searched for the model's secrets; twin comparison of cleared objects",
     "held on the histories executed; stack residue of the curve, lattice and hash primitives themselves, registers, and libcrypto's and libsodium's own memory are not judged")

prop("C19", "Running out of memory is reported, leaks nothing and can be retried",
     "Whichever allocation fails, in creating or using any protocol object, handshake, fallback or split, or in building, reading, "
     "loading or saving certificates, chains, keys and arrays, the call reports NO_MEMORY (or null, for calls that return objects), "
     "gives no object and writes no file, and crashes or hangs never. Objects stay as they were or cleared, everything can be "
     "released with nothing leaked, and repeating the call once memory is there leads to exactly the result of an undisturbed run; "
     "so does carrying on where a call succeeds despite a failed allocation.",
     ["inputs", "crash_points"],
     "every allocation of generated scenarios failing alone (then retried or abandoned) or with all later ones, all handshake patterns, object types and loaders, three backends",
     "Tests never make an allocation fail; every failing point is a separate path.",
     [HS, SY, DH, "src/protocol/cipherstate.c", "src/protocol/randstate.c", "src/backend", "src/keys/loader.c", CERT, PB],
     [("*_new, split", "src/protocol"), ("array growth", PB), ("generated constructors and readers", CERT), ("loaders and savers", "src/keys/loader.c")],
     "runtime monitor: exhaustive allocation fault injection by link-time interposition, leak accounting and comparison with the undisturbed run, ASan/UBSan",
     "held on the scenarios executed, exhaustive over their allocations; allocations inside libcrypto, libsodium and libc are not failed")

prop("C21", "Separate objects, const keys and split halves can be used in parallel threads",
     "Threads that use different objects do not disturb each other: there is no data race inside the library and every result is "
     "the one the same calls give alone, whatever mixture of handshakes, ciphers, hashes, keys, New Hope, random numbers, names, "
     "fingerprints, certificates and key files runs at once. Functions taking a const key, certificate or object may run on one "
     "object in many threads. After a split the send and the receive CipherState and the HandshakeState can be used and freed in "
     "different threads. noise_init may be called concurrently, and the first use of any facility may happen in several threads.",
     ["inputs", "schedules"],
     "4-6 threads of mixed or identical work, shared const keys of three types, split halves in three threads, library untouched at process start",
     "Tests are single-threaded; a static buffer, cache or reference shared between objects passes them all.",
     [HS, SY, DH, "src/protocol/cipherstate.c", "src/protocol/hashstate.c", "src/protocol/util.c", "src/protocol/names.c", "src/backend", "src/keys/loader.c"],
     [("noise_init", "src/protocol/util.c"), ("split", SY), ("const operations", DH), ("back ends", "src/backend")],
     "runtime monitor: ThreadSanitizer over concurrent workloads, and comparison of every thread's results with the sequential run",
     "held on the interleavings executed; a mutable object shared by two threads is the caller's responsibility; libcrypto's and libsodium's own code is not instrumented")

prop("C26", "Secrets do not decide branches, addresses or how long a comparison runs",
     "With everything public the same (sizes, names, public keys, associated data, outcome), the library executes the same basic "
     "blocks, touches the same addresses, divides by the same numbers and allocates the same blocks whatever the private keys, "
     "pre-shared keys, payloads, shared secrets, passphrases, random bytes and key material are, and wherever in a message or tag "
     "a forgery lies; no comparison of secret data stops early. This covers curve25519, curve448, Ed25519 signing, New Hope, "
     "ChaChaPoly, hashes, HMAC, HKDF, PBKDF2, the generator, handshakes, key files and noise_is_equal/noise_is_zero/noise_clean.",
     ["inputs"],
     "private keys and payloads random and extreme, forged tags and bodies, all patterns; three back ends; ref also by data-flow tainting",
     "Timing is invisible to functional tests; an early exit or a secret-indexed table passes all of them.",
     ["src/protocol/util.c", "src/protocol/cipherstate.c", DH, "src/protocol/hashstate.c", "src/backend", "src/crypto", "src/keys/loader.c"],
     [("noise_is_equal, noise_is_zero", "src/protocol/util.c"), ("decrypt tag comparison", "src/backend"), ("scalar multiplications", "src/crypto")],
     "runtime monitor: differential execution traces (SanitizerCoverage blocks, loads, stores, divisions, libc calls) and Valgrind memcheck taint tracking of marked secrets",
     "held on the executions compared; reference AES is table based and not claimed; libcrypto's and libsodium's own code, and the processor, are not judged")
