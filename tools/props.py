PROPS = []
EX = "explicit-state enumeration of executions of the real code (stateless search over choices, reference-model oracle)"
def P(id, title, statement, over, q, why, files, mech, note, technique=EX, na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech, note=note, technique=technique, na=na))

SH = "/repo/ursa_sharing/src/"
def f(*a): return [x.replace("/repo/", "") for x in a]

P("H01", "Shamir sharing (ursa_sharing): any t shares recover, fewer reveal nothing",
  "For all valid parameters, secrets and random draws, every set of at least the threshold number of distinct shares, in any order, combines to exactly the shared secret, both in the field and in a group, and every set of fewer shares is refused and is distributed independently of the secret. Parameters that cannot work (threshold below the minimum or above the share limit), shares with a repeated or zero identifier and out-of-range values are refused with an error, never combined into a wrong secret and never a panic.",
  ["inputs", "configurations"], "every threshold, limit, secret, coefficient vector, subset and order of shares over the prime fields of order 5, 7, 11 (13)",
  "The unit tests split random 256-bit secrets with one or two parameter pairs; recovery for every subset and secrecy (a statement about the distribution over all random draws) quantify over every polynomial and every subset.",
  f(SH+"shamir.rs", SH+"lib.rs"), "Shamir::split_secret / combine_shares / combine_shares_in_group over the generic Field and Group traits",
  "Exhaustive within the bounds over small prime fields through the library's own generic traits; the curve-backed field adapters are not in the enumerated space.")
P("H02", "Verifiable sharing: shares verify exactly if on the committed polynomial",
  "Every share an honest dealer hands out verifies under Feldman and under Pedersen sharing, and a share verifies only if its identifier and value (and blinding value) lie on the committed polynomial, so every threshold-sized set of verified shares recovers the same secret. A dishonest dealer's commitment list of the wrong length, or a share with another identifier or value, is refused for every threshold.",
  ["inputs", "configurations"], "every secret, polynomial, generator, (identifier, value, blinding) triple and commitment list over a group of order 5",
  "The unit tests verify honest shares only, at one threshold; soundness is about every share and every commitment list a dishonest dealer may send.",
  f(SH+"feldman.rs", SH+"pedersen.rs", SH+"lib.rs"), "Feldman/Pedersen split_secret and the verifiers' verify",
  "Exhaustive within the bounds over a group of order 5 via the library's generic Group trait.")
P("H03", "Shares and share verifiers survive their byte form; malformed bytes are refused",
  "A share or share verifier written to bytes and read back is equal to the original and verifies exactly the same shares, for every identifier, value and number of commitments. Truncated or altered bytes, including wrong counts and lengths, give an error or a well-formed value, never a panic, an endless recursion or a verifier that accepts other shares.",
  ["inputs", "fault_sequences"], "share values of 0..34 bytes, all lists of 1..4 commitments over a group of order 5, every truncation, every single-byte substitution",
  "Byte forms are exercised by no test with more than one commitment, and malformed input by none.",
  f(SH+"lib.rs", SH+"feldman.rs", SH+"pedersen.rs"), "to_bytes / TryFrom<&[u8]> / From for Share, FeldmanVerifier, PedersenVerifier",
  "Exhaustive for single truncations and single-byte substitutions of the enumerated values.")

CL = "/repo/libursa/src/cl/"
P("C01", "CL issuance: an honest holder always gets a valid credential, else refused",
  "For every split of a schema into known, hidden and committed attributes, every attribute value up to 256 bits and with or without revocation, an honest issuer and holder end with a credential whose signature covers exactly the agreed values. Any single alteration of a message between them (issuer key and its proof, blinded secrets and their proof, signature and its proof, nonces, prover id) is refused by the party that receives it with an error, never accepted and never a panic, an issuer never signs an attribute that is known and blinded at once, a holder never takes a signature whose prime exponent is not a prime of the agreed range, and no two holders or indices of a registry share a credential context or the randomness of a signature.",
  ["inputs", "fault_sequences", "configurations"], "all splits of attributes over edge values, every single-element alteration of every protocol message; 18 exponents signed by a malicious issuer; attribute names that are empty, long, alike or not ASCII",
  "The tests run the honest protocol for a handful of schemas and never alter a message; refusal quantifies over every element of every message.",
  f(CL+"issuer.rs", CL+"prover.rs", CL+"mod.rs"), "Issuer::new_credential_def / sign_credential(_with_revoc), Prover::blind_credential_secrets / process_credential_signature",
  "Exhaustive over the listed alterations of messages of fixed 2048-bit keys; cryptographic soundness itself is assumed.")
P("C02", "CL presentations: honest proofs are accepted, any single deviation refused",
  "A proof made from valid credentials is accepted for every set of revealed attributes and satisfied predicates, for one or several credentials linked through equal common attributes. It is refused if any element of it is altered, or if the verifier's nonce, request, keys, schema, linked attributes, registry or the arrangement of sub-proofs differ from what it was made for. A verifier decides each proof on its own, whatever it has decided before, and no proof makes it panic.",
  ["inputs", "histories", "fault_sequences"], "all revealed subsets x predicate sets x links, every element of the proof altered, every deviation of the verifier's view, histories of proofs on one verifier",
  "The tests sample a few presentations and two or three deviations; the statement is about all of them and about sequences of proofs.",
  f(CL+"prover.rs", CL+"verifier.rs", CL+"helpers.rs", CL+"hash.rs", CL+"mod.rs"), "ProofBuilder::add_sub_proof_request / finalize, ProofVerifier::add_sub_proof_request / verify",
  "Exhaustive over single deviations; alterations that leave the represented value unchanged are not deviations.")
P("C03", "CL predicates: provable exactly when true, at every edge of the 32-bit range",
  "For every 32-bit attribute value, predicate type (>=, >, <=, <) and threshold, an honest holder can prove the predicate exactly when it is true of the integers, without overflow and in reasonable time, and the proof is accepted. Values outside the 32-bit range give an error, never a panic or a wrong proof, and every non-negative difference is decomposed into four squares that sum up to it.",
  ["inputs"], "edge values x types x edge thresholds, values beyond 32 bits, the honest prover asked for what is false, all differences up to a bound and around powers of two up to 2^32",
  "The tests use thresholds near 18; overflow, sign and decomposition faults sit at the edges of the range and at rare differences.",
  f(CL+"helpers.rs", CL+"prover.rs", CL+"mod.rs", CL+"verifier.rs"), "Predicate::get_delta, helpers::four_squares, calc_tne, ProofBuilder / ProofVerifier",
  "Exhaustive over the edge grid and over all differences below 262144 (4194304 thorough).")
P("C04", "CL revocation: non-revocation is accepted exactly while the credential is valid",
  "Along every history of issuance, revocation, recovery and bulk update of a registry, issued by default or on demand, a holder whose witness follows the published deltas (anew, delta by delta, or merged) proves non-revocation to a verifier with the current registry exactly while the credential is valid. A stale witness or registry, another credential's witness, another registry or a missing part is refused, and nothing borrowed from a valid credential makes a revoked one acceptable.",
  ["histories", "inputs"], "all histories of registry operations up to a depth x every point of witness creation x every way to follow the deltas; presentations of several credentials, each valid or revoked",
  "The tests run a few short fixed histories; staleness and re-issue faults need particular sequences.",
  f(CL+"issuer.rs", CL+"prover.rs", CL+"verifier.rs", CL+"mod.rs", CL+"helpers.rs"), "Issuer::{revoke,recovery}_credential, update_revocation_registry, sign_credential_with_revoc; Witness; NonRevocProof",
  "Exhaustive within depth over a registry of size 3; one recorded finding (the primary and the revocation part of a credential are not linked).")
P("C05", "CL accumulator: registry, deltas and witnesses agree along every history",
  "After every history of single and bulk operations the registry's accumulator, each delta (previous and new accumulator, issued and revoked sets), every merge of consecutive deltas and every witness, made at any point and updated over any segmentation, equal the values determined by the set of valid indexes and the registry's private key. Deltas that do not follow each other do not merge, and an index outside the registry or a failing tails file is an error that leaves registry and witness unchanged.",
  ["histories", "fault_sequences"], "all histories up to a depth x all segmentations x all indexes x fault at each tails access",
  "The tests merge two deltas in one order; agreement is a statement about every segmentation of every history.",
  f(CL+"issuer.rs", CL+"mod.rs", "/repo/libursa/src/pair/amcl.rs"), "RevocationRegistryDelta::merge, Witness::{new,update}, Issuer registry operations, RevocationTailsGenerator",
  "Exhaustive within depth for a registry of size 3 against an oracle computed from the private key.")
P("C06", "CL soundness: no proof is accepted that lies about what the credential says",
  "A prover that knows the protocol and deviates from it (an independent implementation that computes its own challenge) cannot make the verifier accept a false statement: a wrong revealed value, an unsatisfied predicate, a predicate about something other than the attribute, unequal linked attributes, commitments chosen after the challenge, a response out of range that makes up for a missing credential, a value shown that nobody asked for, or a missing part. The same implementation telling the truth is accepted.",
  ["inputs", "fault_sequences"], "an independent reference prover with every one of 15 lies, about any one of several predicates or shown attributes, in 18 request shapes",
  "The tests only ever verify proofs made by the library's own prover, which cannot lie; soundness is about every other prover.",
  f(CL+"verifier.rs", CL+"helpers.rs", CL+"hash.rs"), "ProofVerifier::verify, _verify_primary_proof, _verify_equality, _verify_ne_predicate",
  "Exhaustive over the listed lies x request shapes; not a proof of soundness against arbitrary adversaries.")
P("C07", "CL privacy: every message hides its secrets, and no two can be linked",
  "Every number that blinds a secret in a presentation, a request for a credential, an issuer's answer or its key proof is drawn anew, is longer than the secret and the challenge together by a statistical margin (or covers the whole group), and no two of them are equal, opposite or close, so that no response or pair of responses gives a secret away. Two presentations of one credential, two requests and two answers show nothing in common but what was asked to be revealed, and nothing of the credential itself. Nonces and master secrets have their full length and never repeat.",
  ["inputs", "histories"], "every shape of presentation (credentials, linked, revocation, all revealed subsets, predicates), every kind of request and answer, all pairs of responses and of shown values; the blinding numbers are found out exactly by rewinding",
  "Tests check that proofs verify; a proof that gives everything away verifies as well.",
  f(CL+"prover.rs", CL+"issuer.rs", CL+"constants.rs", CL+"helpers.rs"), "ProofBuilder::{add_sub_proof_request, finalize}, Prover::blind_credential_secrets, Issuer::sign_credential, new_credential_def; LARGE_* constants",
  "Exhaustive over shapes with fixed random seeds; the margin demanded is 40 bits. Hiding of the commitments themselves is assumed.")
P("C08", "CL objects keep their meaning in JSON and CBOR; malformed ones are errors",
  "Every CL object (schemas, keys, proofs about keys, values, blinded secrets and their proof, signatures, nonces, registries, deltas, witnesses, requests, presentations) can be written and read back at every step of the protocol, in any mix of JSON and CBOR, without any change to it or to the outcome. Documents written before, and those of version 1 with the master secret in fields of its own, are still read, written the same way and work. A malformed document is an error when it is read or when it is used, never a panic, and what is read can be written and read again without change.",
  ["inputs", "histories"], "the whole protocol with every object through 5 formats and one hop in another; every leaf and container of 20 documents replaced in 20 to 60 ways, read and used; stored documents of two versions",
  "The tests serialise a few objects once; malformed documents and stored ones are not tested.",
  f(CL+"mod.rs", "/repo/libursa/src/bn/openssl.rs", "/repo/libursa/src/pair/amcl.rs"), "Serialize/Deserialize of all CL types, BigNumber, PointG1, PointG2, GroupOrderElement, Pair",
  "Single replacements. An object's own secrets are trusted as far as their sizes go (a tails generator's size is not altered).")
BN = "/repo/libursa/src/bn/"
P("N01", "Big numbers: every operation agrees with the integers, or is a clean error",
  "Every operation of the big number adapter (OpenSSL backend) - arithmetic, modular arithmetic, powers, inverses, gcd, comparisons, bit operations, prime search, conversions to and from decimal, hexadecimal, bytes and JSON - gives exactly the result that the integers define, for positive, negative and zero operands, keeps equal values equal, leaves its operands alone, and gives an error, never a panic or a wrong value, where no result exists. Random draws stay within the range asked for.",
  ["inputs"], "every operation on all pairs (triples for modular operations) of edge values from -2^2048 to 2^2048",
  "The unit tests of the adapter check one value each and none is negative or zero; they are not run in the default suite.",
  f(BN+"openssl.rs"), "BigNumber's methods over an independent big integer library as oracle",
  "Exhaustive over all pairs/triples of a grid of edge values, not over all integers.")
P("N02", "The pure Rust big number backend computes the same, and CL works on it",
  "The pure Rust big number backend gives, for every operation and operand, the result the integers define - the same as the OpenSSL backend - and anonymous credentials built on it behave as on the other: issuance with every split of attributes, presentations with every revealed set and predicate, with every deviation of the verifier's view refused, and predicates at every edge of the 32-bit range.",
  ["inputs", "configurations"], "every operation on all pairs (triples) of edge values; the honest and deviating CL runs of C01-C03 on that backend",
  "The test suite never builds this backend: it is a configuration that users rely on and that no test exercises.",
  f(BN+"rust.rs", CL+"mod.rs", CL+"issuer.rs", CL+"prover.rs", CL+"verifier.rs", CL+"helpers.rs"), "BigNumber (num-bigint) and the cl module built with feature cl instead of cl_native",
  "Exhaustive over the grid; key generation (safe primes from a dependency) is replaced by fixed keys.")
P("N03", "Pairing adapter: a prime field, two groups and a bilinear map between them",
  "The scalar operations agree with arithmetic modulo the group order (and reduced operands give reduced results), both groups obey the group laws with scalar multiplication as the homomorphism, including the neutral element, inverses and doubling, and the pairing is bilinear, non-degenerate and one exactly for neutral arguments, alone, as a product of two and in powers. Each type survives its string, byte and JSON form; malformed bytes of any length are refused.",
  ["inputs"], "all pairs of edge scalars, all points that are edge multiples of a generator, all byte lengths",
  "The unit tests check bilinearity for one random pair and never use edge scalars, the neutral element or the wrong length.",
  f("/repo/libursa/src/pair/amcl.rs"), "GroupOrderElement, PointG1, PointG2, Pair",
  "Exhaustive over all pairs of a grid of edge scalars, not over the whole group.")
LU = "/repo/libursa/src/"
SY = LU+"encryption/symm/"
SE = "Every cipher, through the generic wrapper, the key's own type, the stream form and the boxed form, gives exactly the standard's ciphertext for every length of message and associated data, and gives the message back. Any alteration of ciphertext, nonce, associated data or key, any truncation or extension is refused, nothing is released from a refused input, keys and nonces of the wrong size are errors, never panics, and each encryption uses a new nonce."
P("E01", "Authenticated encryption: every message comes back, every altered one is refused",
  SE, ["inputs", "fault_sequences"], "6 ciphers x interfaces x all message lengths 0..66 (200) x associated data, streams of up to 16 MiB; every bit, prefix, suffix; failing readers and writers",
  "The unit tests encrypt one message of 18 bytes and are not even run in the default suite; the guarantee is about every length and every alteration.",
  f(SY+"mod.rs", SY+"aescbc.rs", SY+"aesgcm.rs", SY+"chacha20poly1305.rs", SY+"xchacha20poly1305.rs"), "Encryptor, SymmetricEncryptor, DynEncryptor, EncryptorType with the portable backends",
  "Exhaustive over lengths, single bits, prefixes and suffixes for fixed keys; OpenSSL is the oracle.")
P("E02", "Native cipher backends: the same guarantees with OpenSSL and libsodium",
  "With the native backends (OpenSSL, libsodium) in place of the portable ones: " + SE[0].lower() + SE[1:], ["inputs", "configurations"], "the check of E01 built with the native features",
  "The test suite never builds these backends; users on servers are told to prefer them.",
  f(SY+"mod.rs", SY+"aescbc_asm.rs", SY+"aesgcm_asm.rs", SY+"chacha20poly1305_asm.rs", SY+"xchacha20poly1305_asm.rs"), "the same traits with features aescbc_native, aesgcm_native, chacha20poly1305_native",
  "Exhaustive over lengths, single bits, prefixes and suffixes for fixed keys; the AES modes share their oracle's library.")
P("S01", "Ed25519 and ECDSA: only the signed message under the signer's key verifies",
  "A signature made with either scheme verifies for exactly its message and its signer's public key (in every encoding of that key), agrees with other implementations in both directions, and every single-bit alteration of signature, key or message, every wrong length, a high s and out-of-range values are refused with false or an error, never a panic. Seeds and secret keys give the same key pair each time and a different one for a different seed; a malformed or inconsistent secret key is an error; keys parse and print in both encodings.",
  ["inputs", "fault_sequences"], "keys x 140 message lengths x keys x messages; every bit and every length of signature, key, seed and message",
  "The unit tests check one message and are not run in the default suite; unforgeability against alteration is about every bit and length.",
  f(LU+"signatures/mod.rs", LU+"signatures/ed25519.rs", LU+"signatures/secp256k1.rs"), "SignatureScheme, Signer, EcdsaPublicKeyHandler, normalize_s",
  "Exhaustive over single-bit and length alterations for fixed keys; OpenSSL is the oracle.")
P("S03", "BLS multi-signatures (BN254): verify exactly for the signers and the message",
  "A signature, multi-signature or proof of possession verifies exactly if it is the sum of the signatures of exactly the listed keys on that message under that generator: other keys, messages, generators, a missing, extra or repeated signer are refused. Nothing verifies under the neutral element or an empty list of keys, altered or malformed bytes are refused without a panic, a key made to cancel another has no proof of possession, and seeds and byte forms reproduce the same keys.",
  ["inputs", "configurations"], "all sums of up to 3 (4) of 6 signatures x all lists of up to 3 keys; every bit and length of each part",
  "The tests verify sums of two signatures of the listed signers; exactness quantifies over every sum and every list.",
  f(LU+"bls/mod.rs", LU+"pair/amcl.rs"), "bls::{SignKey,VerKey,Signature,MultiSignature,ProofOfPossession,Bls}",
  "Exhaustive over formal sums of 3 signers x 2 messages; an algebraic-forgery resistance proof is out of scope.")
P("S04", "BLS signatures (BLS12-381): every aggregate verifies exactly for what was signed",
  "In both variants, single, combined, aggregated, multi-message and batch verification, with and without rogue-key mitigation, accept exactly if the signature is the formal sum of the listed (key, message) pairs in the listed group under that context and generator: all other keys, messages, contexts, orders with other multiplicities and groups, invalid members of a batch (even when they cancel each other), the neutral element as key, and altered or malformed bytes are refused, never with a panic.",
  ["inputs", "configurations"], "all sums of up to 3 (4) of 6 signatures x key lists; all groups of up to 3; all batches of up to 3; every context with every verification; neutral elements; crowds of 33 (129) with any member left out; every bit and length",
  "The unit tests (not run in the default suite) verify honest aggregates of ten; exactness quantifies over every sum, list and batch.",
  f(LU+"signatures/bls.rs"), "signatures::bls::{normal,small}",
  "Exhaustive over formal sums of 3 signers x 2 messages; an algebraic-forgery resistance proof is out of scope.")
P("K01", "Key exchange: both parties agree on a secret that no other pair gets",
  "For every pair of keys both parties compute the same session key, equal to what another implementation of X25519 or ECDH over secp256k1 computes, and different for any other pair; a peer key that is malformed or not on the curve is an error. Signing keys convert to exchange keys that belong together, key pairs follow from seeds and secret keys, keys of any wrong size are errors, never panics, and key types survive JSON and refuse malformed JSON.",
  ["inputs", "fault_sequences"], "8 x 8 and 6 x 6 key pairs in all encodings x every bit of the peer's key; keys and seeds of all lengths 0..130; 24 x 24 conversions",
  "The unit tests exchange one random pair and are not run in the default suite; agreement and refusal are about every pair and encoding.",
  f(LU+"kex/mod.rs", LU+"kex/x25519.rs", LU+"kex/secp256k1.rs", LU+"signatures/ed25519.rs", LU+"keys.rs"), "KeyExchangeScheme, ver_key_to_key_exchange, sign_key_to_key_exchange, PublicKey/PrivateKey/SessionKey",
  "Exhaustive over the listed pairs, bits and lengths; OpenSSL is the oracle.")
P("K02", "Secrets are wiped: freed memory holds no part of a key or seed",
  "No block of heap memory is given back while it holds part of a secret that ursa is responsible for: private, session and MAC keys and seeds, however they end (dropped, replaced, moved in lists or boxes, unwound by a panic, cloned, explicitly zeroized), keys held by ciphers, and the seeds, fresh keys and session keys that pass through key generation, signing, exchange, conversion, encryption and decryption, whether these succeed or fail. (The scalars of BLS keys belong to amcl_wrapper.)",
  ["inputs", "configurations"], "5 kinds of objects x 20 lengths x 10 ways to end x 3 capacities; every operation of 6 schemes and 6 ciphers; each freed block is searched for 8 bytes of the secret",
  "No test looks at memory after it is freed; a copy that is left behind changes no result.",
  f(LU+"keys.rs", LU+"encryption/mod.rs", LU+"encryption/symm/mod.rs", LU+"utils/macros.rs", LU+"signatures/ed25519.rs", LU+"signatures/secp256k1.rs", LU+"signatures/bls.rs", LU+"kex/secp256k1.rs", LU+"kex/x25519.rs"), "Drop and Zeroize of PrivateKey, SessionKey, MacKey, KeyGenOption and the encryptors",
  "A watching allocator sees every freed block of the real code. Stack, registers and libsecp256k1's own memory are not looked at.")
P("K03", "Generated keys and nonces hold all the randomness they need, and never repeat",
  "Every key, nonce, share blinding, master secret, group element and point that ursa generates depends on every bit of randomness it stands for: for each generator the result changes, to another value each time, with at least as many bits of the random source as the result should have (128 to 512 for keys, 96 to 192 for nonces of ciphers, 80 for nonces of proofs, 256 for blindings and master secrets); group elements take 256 bits or more. The same randomness gives the same result, and nothing repeats, in a row or across threads.",
  ["inputs", "fault_sequences"], "47 generators x every single bit of what the random source answers; rows of 40 (400) and 4 threads at once",
  "A test sees that two keys differ; it cannot see that half of their bits are constant.",
  f(LU+"encryption/mod.rs", LU+"encryption/symm/mod.rs", LU+"signatures/ed25519.rs", LU+"signatures/secp256k1.rs", LU+"signatures/bls.rs", LU+"kex/secp256k1.rs", LU+"kex/x25519.rs", LU+"pair/amcl.rs", LU+"bn/openssl.rs", LU+"cl/helpers.rs"), "random_vec, key_gen, nonce_gen, keypair(None), GroupOrderElement::new, new_nonce, new_master_secret",
  "The random source of the process is replaced and its answers enumerated; for what is made through rand::thread_rng the seed is varied and the amount taken is measured.")
P("H04", "Shamir sharing in libursa: any threshold of shares gives the secret, or an error",
  "For every field, threshold, total and secret that the scheme allows, any set of at least the threshold number of distinct shares in any order combines to the secret, shares carry the identifiers 1 to total and survive their byte form, no share is the secret itself, and fewer shares give the interpolated value, which is independent of the secret. Invalid parameters, repeated or zero identifiers, zero shares and empty bytes are errors, never a panic or a wrong secret.",
  ["inputs", "configurations"], "all polynomials over GF(5), GF(7), GF(11) x all subsets and orders of shares; 8 fields x thresholds x totals x secrets",
  "The unit tests split one secret in a 256-bit field and are not run in the default suite; recovery is about every polynomial, subset and order.",
  f(LU+"sharing/shamir.rs"), "split_secret, combine_shares, Share",
  "Exhaustive over small fields; a grid of secrets in one 256-bit field.")
FF = LU+"ffi/"
P("F01", "C API: anonymous credentials do what they do through the Rust API",
  "Every function of the C API for anonymous credentials and revocation has the outcome, error code, error message, outputs, changed objects and verdict of the Rust API from the same inputs, whether objects are passed as they are or through JSON: whole runs of the protocol with any one step wrong, histories of revocations with deltas and merges, failing tails callbacks. Every tail that is taken is put back once, a failing call sets no output, and nothing is freed twice, used after it is freed or left over.",
  ["call_sequences", "fault_sequences"], "whole protocol x 34 single deviations x kinds of issuers, values and registries x with and without JSON; all histories of 3 (4) operations x ways of callbacks to fail",
  "The unit tests of the C API run each function once and look at its return code; what it gives out, after any history and after failures, is not compared with anything.",
  f(FF+"cl/mod.rs", FF+"cl/issuer.rs", FF+"cl/prover.rs", FF+"cl/verifier.rs"), "ursa_cl_*, FFITailsAccessor",
  "Exhaustive over the deviations and histories; one set of values per kind; the allocator that watches is per execution.")
P("F02", "C API: short signatures, ed25519 and encryption do what they do in Rust",
  "Every function of the C API for BLS signatures, ed25519 and authenticated encryption gives the bytes, verdicts and error codes of the Rust API for the same inputs and random numbers: any signers, messages, seeds and bytes of objects, lengths of keys, nonces, seeds and signatures, names of algorithms, with altered or cut texts. Sizes are those in use, a failing call sets no output, and the error is always set, also to success.",
  ["inputs", "configurations"], "1 to 3 (4) signers x seeds x messages x deviations; every truncation and three bits of each byte of 6 kinds of objects; all lengths around the right ones; 5 algorithms",
  "The unit tests call each function with one right input; agreement is about every input.",
  f(FF+"bls.rs", FF+"signatures/ed25519.rs", FF+"encryption/mod.rs"), "ursa_bls_*, ursa_ed25519_*, ursa_encrypt, ursa_decrypt",
  "Exhaustive over the stated grids; input on which the Rust API panics is judged by other properties.")
P("F03", "C API: wrong arguments are refused with an error and do no harm",
  "Every C function refuses null pointers, empty or non-UTF-8 strings, empty arrays and null elements in any place with an error code, sets no output, sets the last error, and leaves all objects usable: the same call with right arguments then succeeds. It reads exactly the documents that the Rust API reads, to the same value. The last error stays until the next one, per thread. No such call ends the process.",
  ["inputs", "call_sequences"], "72 functions x all single and double wrong arguments; 16 kinds of documents x all cuts, omissions and replacements; all sequences of 3 (4) calls on two threads",
  "The unit tests pass right arguments only; null pointers for outputs were written to.",
  f(FF+"cl/mod.rs", FF+"cl/issuer.rs", FF+"cl/prover.rs", FF+"cl/verifier.rs", FF+"bls.rs", FF+"mod.rs", LU+"utils/ctypes.rs", LU+"errors/mod.rs"), "check_useful_* macros, ursa_get_current_error",
  "Exhaustive over pairs of wrong arguments; callbacks are never null.")
P("F04", "Nothing secret is written to the log of a release build",
  "With a logger that takes every level, a build without debug assertions never logs an issuer's private key, a revocation registry's private key, a BLS sign key or seed, a holder's master secret or the blinding factors of its blinded secrets, in any run of the credential protocol, right or with a wrong step, nor when private documents are read or written, whole or damaged.",
  ["call_sequences", "fault_sequences"], "whole protocol through both APIs x 34 single deviations x kinds of registries; private documents x cuts, omissions, replacements; all BLS functions",
  "No test looks at the log; a secret may be printed by any of hundreds of trace statements on any path.",
  f(LU+"utils/macros.rs", LU+"utils/logger.rs", LU+"cl/issuer.rs", LU+"cl/prover.rs", FF+"cl/issuer.rs", FF+"bls.rs", FF+"logger.rs"), "secret!, trace!, ursa_set_logger",
  "Exhaustive over the deviations; secrets are searched for in the forms in which the library prints them.")
BB = "/repo/libzmix/bbs/src/"
P("B01", "BBS+: a signature verifies exactly for the messages and key it was made for",
  "A BBS+ signature, made directly or by blind issuance with any split of the messages into hidden and known ones, with keys and generators derived either way, verifies for exactly its messages, in their order, under its key; any changed, swapped, missing or extra message, other key, changed generator or changed signature part is refused. Blind issuance accepts exactly the committed hidden messages with a valid proof under the issuer's nonce, and inputs of the wrong number, or indices without a generator, are errors, never a panic.",
  ["inputs", "fault_sequences"], "1 to 4 messages x edge values x all hidden subsets x single deviations of every part; 8 to 257 (1025) messages altered at every edge and power of two; proofs with excess responses",
  "The unit tests sign and blind-sign one list of messages each; the guarantee is about every split and every deviation.",
  f(BB+"lib.rs", BB+"keys.rs", BB+"signature.rs", BB+"issuer.rs", BB+"prover.rs", BB+"verifier.rs"), "bbs::{Signature, BlindSignature, Issuer, Prover, keys}",
  "Exhaustive over subsets and single deviations for up to 4 messages.")
P("B02", "BBS+ proofs: accepted exactly when they show what was signed and asked for",
  "A signature proof of knowledge is accepted exactly if it comes from a valid signature under the verifier's key, for its proof request and its nonce, and shows exactly the requested messages with their signed values, for every subset of revealed messages, and two proofs of equal hidden messages link exactly when their values are equal. Every altered, dropped, added or exchanged part of proof, request, revealed messages, challenge or key is refused, also proofs made from other signatures or messages, and malformed ones give an error, never a panic.",
  ["inputs", "fault_sequences"], "1 to 4 (5) messages x all revealed subsets x single deviations x forged proofs, also simulated ones with excess responses; two credentials for links; up to 257 (1025) messages; blindings taken out of two answers of each prover and compared",
  "The unit tests show one subset of one credential; soundness is about every subset and every deviation.",
  f(BB+"pok_sig.rs", BB+"pok_vc.rs", BB+"prover.rs", BB+"verifier.rs", BB+"signature.rs", BB+"lib.rs"), "bbs::{Prover, Verifier, pok_sig, pok_vc}",
  "Exhaustive over subsets and single deviations for up to 5 messages; no reduction to a hardness assumption.")
P("B03", "BBS+ types: every form gives the value back, malformed input is refused",
  "Every BBS+ type - keys, parameters, signatures, commitments, nonces, messages, blindings, proofs, requests - gives back an equal value from each of its forms: compressed and uncompressed bytes, slices and fixed arrays, JSON and CBOR. A changed byte never gives the same value, and bytes of every other length, bytes that are no element of the group, truncated, extended or altered JSON, give an error, never a panic and never an unbounded allocation.",
  ["inputs", "fault_sequences"], "17 types x 5 forms x every length, every byte, announced counts and every JSON edit",
  "The unit tests round-trip some types once; robustness against malformed input is about every byte and length.",
  f(BB+"lib.rs", BB+"keys.rs", BB+"signature.rs", BB+"pok_sig.rs", BB+"pok_vc.rs", BB+"messages.rs", BB+"macros.rs"), "ToVariableLengthBytes, From/TryFrom and serde of all public types",
  "Exhaustive over lengths and single bytes of one or a few values of each type.")

BP = "/repo/libzmix/bulletproofs_amcl/src/"
P("P01", "Bulletproofs: an inner product proof verifies exactly for its own statement",
  "For all vectors of 1 to 16 (32) elements, an honest inner product proof is accepted, and it is refused if any element of the proof, of the commitment, of the factors, of the generators or of the transcript is altered, removed, repeated or exchanged, or if the vectors do not have the claimed product. Proofs of the wrong length are errors, never panics.",
  ["inputs", "fault_sequences"], "lengths of every power of two up to 16 (32), edge values of the vectors, every element altered in every way listed; proofs with up to 129 rounds",
  "The unit tests make one honest proof with random vectors and never verify an altered one.",
  f(BP+"ipp.rs", BP+"transcript.rs", BP+"utils/vector_poly.rs", BP+"utils/mod.rs"), "IPP::create_ipp / verify_ipp / verification_scalars",
  "Exhaustive over single alterations and edge vectors.")
P("P02", "Bulletproofs R1CS: a proof is accepted exactly if the assignment satisfies",
  "For every small circuit and every assignment, the proof made by the library's prover is accepted by its verifier exactly if every constraint of the circuit holds - for circuits of one or two phases, with any number of multipliers, committed values and constraints, however they are added. An altered element of the proof, commitment, circuit, generators or label is refused; a size that does not fit is an error, never a panic.",
  ["inputs", "configurations", "fault_sequences"], "circuits of every shape up to 3 operations x all assignments over edge values x all alterations",
  "The unit tests prove a handful of fixed circuits with honest values; soundness and completeness are about all circuits and assignments.",
  f(BP+"r1cs/prover.rs", BP+"r1cs/verifier.rs", BP+"r1cs/proof.rs", BP+"r1cs/linear_combination.rs", BP+"r1cs/constraint_system.rs", BP+"transcript.rs"), "Prover / Verifier commit, multiply, allocate, constrain, specify_randomized_constraints, prove, verify",
  "Exhaustive over the enumerated circuits; cryptographic soundness of the transcript's challenges is assumed.")
P("P03", "Bulletproofs gadgets: bound, non-zero and set proofs hold exactly when true",
  "For each gadget - bits, numbers of n bits, bounds, non-zero, membership (two kinds) and non-membership in a set - an assignment of everything that a prover is free to choose satisfies the constraints only if the statement about the committed value is true, the honest one always does if it is true, and the library's proofs are accepted exactly then; also for 64-bit numbers at all their edges. A proof does not serve for another statement or altered commitment; missing commitments are errors.",
  ["inputs", "fault_sequences"], "25 (33) gadgets x all committed values and all free wires over 5 to 10 edge values; 64-bit edges of bounds and sets",
  "The unit tests prove one true statement per gadget; soundness is about every assignment a dishonest prover may choose.",
  f(BP+"r1cs/gadgets/bound_check.rs", BP+"r1cs/gadgets/non_zero.rs", BP+"r1cs/gadgets/set_membership.rs", BP+"r1cs/gadgets/set_membership_alt.rs", BP+"r1cs/gadgets/set_non_membership.rs", BP+"r1cs/gadgets/helper_constraints/mod.rs"), "prove_/verify_ and gen_/verify_proof_of_ functions of each gadget",
  "Exhaustive over assignments from edge values of the field, each satisfying one replayed through the library's prover and verifier; bounds of up to 64 bits.",
  "explicit-state enumeration of all assignments of a constraint-system model running the gadget's own code, each replayed against the real prover and verifier")
P("P04", "Bulletproofs hashes: MiMC and Poseidon agree with definition and constraints",
  "MiMC and Poseidon with 2, 4 and 8 inputs, each S-box and any number of rounds compute their definition over the published constants; as constraints they are satisfied by an image exactly if it is the hash of the inputs, whatever values a prover gives to free wires; proofs of a preimage are accepted exactly for their own hash, image and commitments; wrong numbers of inputs, blindings, commitments, rounds or widths are errors.",
  ["inputs", "configurations"], "all splits of up to 2 (4) rounds x 3 widths x 3 S-boxes x edge inputs x images x all free wires over edge values",
  "The unit tests prove one honest preimage per hash with fixed rounds; a prover who lies in a free wire appears in none.",
  f(BP+"r1cs/gadgets/helper_constraints/poseidon.rs", BP+"r1cs/gadgets/helper_constraints/mimc.rs", BP+"r1cs/gadgets/poseidon_hash.rs", BP+"r1cs/gadgets/mimc.rs", BP+"r1cs/gadgets/merkle_tree_hash.rs", BP+"r1cs/gadgets/poseidon_constants.rs"), "Poseidon_hash_2/4/8, their constraints and gadgets, mimc and mimc_gadget, proofs of knowledge of a preimage",
  "Exhaustive over the rounds, inputs and free-wire values listed, each satisfying assignment replayed through the real prover and verifier.",
  "explicit-state enumeration of all assignments of a constraint-system model running the gadget's own code, each replayed against the real prover and verifier")
P("P05", "Sparse Merkle trees: updates, proofs and leaf-inclusion circuits are exact",
  "After every sequence of updates a 4-ary or 8-ary sparse Merkle tree has the root of, and returns, exactly the leaves that were set last; trees with earlier roots stay readable. A Merkle proof verifies exactly for its own leaf, index and root and has as many nodes as the tree has levels. The leaf-inclusion circuit is satisfiable exactly if the leaf is at the committed index, for hidden and shown leaves, whatever a prover chooses, and the library's proofs are accepted exactly then.",
  ["histories", "inputs", "fault_sequences"], "all sequences of up to 3 updates of edge leaves at depths 0..2 (3), all proofs altered at every node, all circuits with every free wire over 4 values",
  "The unit tests set ten leaves in order in one tree and make one honest proof; they check no wrong leaf, index, length or earlier root.",
  f(BP+"r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs", BP+"r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs", BP+"r1cs/gadgets/sparse_merkle_tree_4_ary.rs", BP+"r1cs/gadgets/sparse_merkle_tree_8_ary.rs", BP+"utils/hash_db.rs"), "VanillaSparseMerkleTree4/8 new, update, get, verify_proof; vanilla_merkle_merkle_tree_4/8_verif_gadget; gen_/verify_proof_of_leaf_inclusion",
  "Exhaustive over histories of up to 3 updates at small depths and over free-wire values, each satisfying assignment replayed through the real prover and verifier.",
  "explicit-state enumeration of update histories against an array model, and of all assignments of a constraint-system model, replayed against the real prover and verifier")

WA = LU+"wasm/"
P("W01", "The WebAssembly API computes what the Rust API computes",
  "Every exported function for authenticated encryption, Ed25519, X25519 and BLS gives for every argument what the Rust function it stands for gives: the same keys, signatures, secrets and verdicts, ciphertexts either side can decrypt, and an error, never a trap, exactly where that fails: on keys, signatures, ciphertexts or array elements of any wrong length, form or content. What one side refuses or accepts the other does; generated keys are never repeated.",
  ["inputs", "configurations"], "5 ciphers x 70 key lengths, 65 message and data lengths, every bit and length of short ciphertexts; keys and messages of the signature and exchange schemes in all combinations, every bit and length; every subset of 4 BLS signers against every subset of 4 keys, 7 foreign values at every position",
  "The repository has no test of the WebAssembly API at all.",
  f(WA+"mod.rs", WA+"bls.rs", WA+"encryption.rs", WA+"ed25519.rs", WA+"x25519.rs"), "wasm::bls::*, wasm::encryption::UrsaEncryptor, wasm::ed25519::Ed25519Sha512, wasm::x25519::X25519Sha256",
  "The real ursa::wasm code is compiled natively; only wasm-bindgen is stood in for (a JsValue is JSON text). wasm/secp256k1.rs and wasm/cl.rs cannot be compiled at this commit and are out of scope.")

ZX = "/repo/libzmix/src/"
PS = ZX + "signatures/ps/"
DG = ZX + "signatures/delg_cred_cdd/"
P("Z01", "PS signatures verify for exactly what was signed, openly or blindly",
  "A Pointcheval-Sanders signature verifies exactly for the messages, in order and number, the verification key and the parameters it was made for. Blind issuance, for every number of hidden and known messages and both ways of keeping the key, yields after unblinding a signature on exactly those messages, and a key with more or fewer elements or messages than expected is refused with an error. Keys and parameters of the same label are equal, of different labels different, and secrets are never repeated.",
  ["inputs", "configurations"], "every signature, key and message list of up to 2 messages over small exponents; up to 3 (5) messages with every single alteration; every number hidden; up to 33 (257) messages altered at edges and powers of two",
  "The unit tests sign random messages once per size and alter nothing; exactness is about every message list, key and alteration.",
  f(PS+"signature.rs", PS+"blind_signature.rs", PS+"keys.rs"), "Signature::new/verify, BlindSignature::new/new_with..., unblind, keygen, Params::new",
  "The verification equation is decided exhaustively over small exponents against integer arithmetic; alterations of full-size values are enumerated.")
P("Z02", "PS proofs of knowledge show exactly the revealed messages",
  "A proof of knowledge of a PS signature made for any set of revealed messages is accepted exactly with that set, those values, the key, parameters and challenge it was made for; a prover without a valid signature, or with any part of the proof or of the revealed messages altered, is refused, and indices or responses out of range are an error and never a panic. Two proofs of one signature have nothing in common but the revealed messages; proofs that share a blinding show that two hidden messages are equal, and only then.",
  ["inputs", "fault_sequences"], "up to 3 (5) messages, every set revealed, every set asked for, every element replaced; up to 33 (257) messages; blindings taken out of two answers of each prover and compared",
  "The unit tests make one honest proof per kind and refuse none.",
  f(PS+"pok_sig.rs"), "PoKOfSignature::init, gen_proof; PoKOfSignatureProof::verify, get_resp_for_message",
  "Alterations are single (and the enumerated pairs); the soundness of Schnorr proofs themselves is assumed.")
P("Z03", "Proofs of knowledge of vector commitments are exact in all four groups",
  "A proof of knowledge of the openings of a vector commitment is accepted exactly if it was made with openings of that commitment under those bases and that challenge, for every number of elements, repeated and neutral bases included, in G1, G2 and both groups of PS signatures. Lists of unequal lengths are refused with an error. Proofs and commitments keep their meaning through bytes and JSON.",
  ["inputs", "configurations"], "all bases, openings, blindings, challenges and responses of up to 2 elements over small exponents in four groups; up to 3 (4) elements altered one by one; up to 33 (257) elements altered at edges and powers of two",
  "The unit tests make one honest proof per group of five elements.",
  f(ZX+"commitments/pok_vc.rs", PS+"pok_sig.rs"), "impl_PoK_VC: ProverCommitting, ProverCommitted, Proof (commit, finish, gen_proof, verify, from_bytes)",
  "The verification equation is decided exhaustively over small exponents against integer arithmetic.")
P("Z04", "Groth signatures and delegation chains are valid exactly link by link",
  "A Groth signature verifies, alone and in a batch, exactly if it satisfies its equations for the messages, key and parameters; a randomised one still verifies. A chain of delegations is accepted, one by one and in a batch, exactly if it alternates levels from the root, every link has the right level, carries the delegatee's key as its last attribute and is the delegator's signature on it, and the keys given are those; a link can only be added at the next level, truncation keeps validity, and chains, links, keys, levels or parameters of any other number are refused with an error and never panic.",
  ["inputs", "histories", "configurations"], "all signatures of up to 2 messages over small exponents; chains of up to 4 (5) links altered in every part, and every two equations of their signatures off by equal and opposite errors; every sequence of up to 4 (5) extensions over 8 levels; signatures of up to 33 (257) messages, also randomised",
  "The unit tests build one honest chain and check it; no signature or chain is altered.",
  f(DG+"groth_sig.rs", DG+"issuer.rs"), "Groth1Sig/Groth2Sig new, randomize, verify, verify_batch; Issuers' delegate; CredChain extend_with_*, verify_delegations(_batched), get_truncated",
  "A Groth signature is malleable to a prefix of its messages (as published); the chain's count checks are what excludes it and are in the enumerated space.")
P("Z05", "Attribute tokens reveal and prove exactly a valid chain's attributes",
  "For every chain and choice of revealed attributes, an attribute token by the holder of the last key is accepted, whichever of the precomputing or plain ways makes and checks it, also after (de)serialisation, and reveals exactly the chosen attributes. It is refused if any part, revealed value, key, link, parameter or message is altered, by a prover without the last key, if an attribute is revealed without proof or is not the one asked for, and if any list is longer or shorter; never a panic or an endless loop. Two tokens of one chain have nothing in common but what is revealed; the same token object can commit any number of times.",
  ["inputs", "fault_sequences", "histories"], "chains of up to 4 (5) links and every revealed set; every element replaced before and after the challenge; every list changed in length, two at a time; every sequence of up to 3 (4) calls; blindings taken out of two answers of each token and compared",
  "The unit tests make honest tokens with fixed revealed sets; the order in which a hash map is hashed, malformed tokens and repeated calls are sampled by none.",
  f(DG+"attribute_token.rs", DG+"issuer.rs"), "AttributeToken commitment*, response, gen_challenge, reconstruct_commitment(_with_precomputed_vals)",
  "Alterations use elements of other honest tokens and neutral elements.")
P("Z06", "Verifiable encryption decrypts to exactly what was encrypted and proved",
  "A Camenisch-Shoup ciphertext decrypts, under its label and key, to exactly the messages encrypted, in order; under any other label or key, or with any part altered, dropped or added, it is refused. A proof is accepted for exactly the messages, label, key and challenge it was made for, what a verifier accepts always decrypts to the messages shown, and the response does not give away the randomness of the ciphertext. Messages out of range and lists of other lengths are refused with an error, never a panic.",
  ["inputs", "configurations"], "every message below three tiny moduli, up to 3 at once; up to 4 messages with every part replaced in 12 ways; 32 crafted ciphertexts per proof; randomness measured at full size",
  "The unit tests encrypt and prove random messages at one size and alter only the label.",
  f(ZX+"verifiable_encryption/cs_verifiable_encryption.rs"), "CSKeypair::new, encrypt, decrypt, encrypt_and_prove_phase_1/2, reconstruct_blindings_ciphertext",
  "Known finding: the hash in the ciphertext does not separate the encrypted messages from the label. Moduli of 256 and 512 bits stand for 2048 in the altering scenarios.")
