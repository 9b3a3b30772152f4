#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property texts live here so that they are easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

FT = "includes/field_template.hpp"; ET = "includes/ecc_template.hpp"
prop("C01", "Field arithmetic is exact arithmetic modulo the field's prime",
 "For each of the four prime fields (secp256r1 and bn254, coordinate and scalar field), an element built from any integer, negative or arbitrarily large, is that integer's residue in [0, prime), and addition, subtraction, negation, multiplication by an element or by any integer, squaring, inversion and division of any elements (non-zero divisor) return exactly the corresponding residue in [0, prime). Two elements are equal exactly when their residues and their moduli are equal. The reported modulus is the curve's published prime, and the printed form is the value followed by the modulus.",
 ["inputs"], "all integers and all pairs of elements of each of the four fields, including 0, 1, p-1, p, operands whose sum or difference is exactly 0 or p, and multi-word or negative integers",
 "test_fields checks one operand pair in one of the four fields (13 fixed results); carries, boundary residues, negative or huge integers and three of the fields are never exercised.",
 [FT, "src/fields/field_bn254.cpp", "src/fields/field_secp256r1.cpp"],
 [("reduction after every operation", FT), ("prime constants", "src/fields/*.cpp")], ["value, modulus and printed form of every result"])
prop("C02", "Field update operators equal the binary ones over any history",
 "Over any sequence of assignments, copies and in-place updates (+=, -=, *=, /= by an element, *= by an integer) on a set of field elements, each in-place update leaves its target equal to the corresponding binary operation on the previous values, also when target and operand are the same element, and returns that target. No operation changes any element other than its target, and the modulus of every element stays the field's prime.",
 ["histories", "inputs"], "all operation sequences over several live elements, with self-aliasing, chained results, copies, and values at the edges of the field",
 "no test uses an in-place operator on a field element at all, nor checks that operands are left unchanged.",
 [FT], [("in-place operators reduce and return *this", FT), ("copy/assign copies value and modulus", FT)], ["all live elements after every step"])
prop("C03", "Point addition, subtraction and doubling form the curve's group law",
 "For both curves and any two points, including equal points, opposite points, the point at infinity and points bound to different but equal curve objects, addition, subtraction, doubling and their in-place forms return exactly the group-law result of the curve. The point at infinity is the neutral element on either side of addition and subtraction and doubles to itself, and a point minus itself is infinity.",
 ["inputs", "histories"], "all pairs of points of both curves and all short sequences of additions, subtractions and doublings, including identity operands, P+P, P+(-P), P-P and operands aliasing the target",
 "test_ecc checks one pair of points of one curve and three identity cases; bn254 point code is not even compiled by the test suite.",
 [ET, "src/ecc/ecc_bn254.cpp", "src/ecc/ecc_secp256r1.cpp"], [("operator+, operator-, pointDouble and compound forms", ET)], ["coordinates / infinity flag of the result, and continued usability of the result"])
prop("C04", "Scalar multiplication is exact for every integer scalar",
 "For both curves, multiplying any point, including infinity, by any integer (zero, negative, at or above the group order, or arbitrarily large) or by any scalar-field element gives exactly the group multiple by that integer modulo the order, for the plain and the in-place forms. It is therefore additive and multiplicative in the scalar, and the multiple by the order is infinity.",
 ["inputs"], "all points and all integer scalars of both curves, with dense coverage of scalars with special bit patterns, powers of two, values around 0 and around multiples of the order",
 "test_ecc checks the multiples 10, 99 and 90912389 of one point of one curve.",
 [ET], [("double-and-add over the scalar's bits", ET), ("integer scalars reduced modulo the order", FT)], ["coordinates of the multiple"])
prop("C05", "Points are valid exactly on the curve; equality is exact",
 "A point is reported valid exactly when it is infinity or its coordinates satisfy the curve equation over the curve's prime; the generator and every result the library computes from valid points are valid. Two points compare equal exactly when both are infinity or both are finite with the same coordinates, independently of how they were built (integers, field elements, strings in any base, copies) and of which equal curve object they refer to. The curve parameters are the published ones, curve objects with the same parameters compare equal, and points print as their decimal coordinates.",
 ["inputs", "histories"], "all coordinate pairs (on and off the curve, near misses of valid points, coordinates outside [0,p)), all ways of constructing a point, all pairs compared, both curves",
 "the tests only check that three known valid points are valid and never that an invalid one is rejected, nor inequality of points, other constructors or the bn254 curve.",
 [ET, "src/ecc/ecc_bn254.cpp", "src/ecc/ecc_secp256r1.cpp"], [("isValid, operator==, constructors, curve constants", ET)], ["isValid, ==, getX/getY, printed form, curve getters"])
prop("C06", "Point compression and x-evaluation are exact",
 "For every finite point of either curve, encoding it to a single integer and decoding that integer gives back the same point, a point and its negative have different encodings, and decoding overwrites whatever finite point was held before. Evaluating the curve at a coordinate x returns a valid point with that x when one exists (its two variants being opposite points) and infinity when none exists, and the right-hand side of the equation is evaluated exactly.",
 ["inputs"], "all finite points (both y roots, x of any size including 0 and tiny x) and all field elements x, residues and non-residues, of both curves",
 "test_ecc round-trips one random point and evaluates two x values that lie on the curve, always for the root the code picks first.",
 [ET], [("getEncodedX/setEncodedX", ET), ("evaluateP/evaluatePneg/evaluatePy2 with exponent (p+1)/4", ET)], ["decoded point, evaluated points"])
prop("C07", "Generated secrets are in range, fresh and spread over their whole range",
 "Random scalars lie in [0, order), random points are valid, random integers of b bits lie in [0, 2^b), and a generated key pair's public key is the generator times its secret key. Repeated draws, including every secret produced by key generation, setup and encryption, do not repeat and are spread over their full range rather than a small subset. Secrets drawn in one process must not be the ones drawn in another.",
 ["histories", "inputs", "configurations"], "all histories of draws in a process and all pairs of processes, for both curves and all bit lengths",
 "the tests consume random values but never look at their range, spread, repetition, or at a second process.",
 [ET, "src/utilities/utilities.cpp", "src/dme/dme.cpp", "src/puda/puda.cpp"],
 [("per-curve generator drawing in [0, order)", ET), ("getRandom", "src/utilities/utilities.cpp")], ["drawn scalars, points, integers, key pairs"])
prop("C08", "Dual-mode encryption decrypts on the branch the key was made for",
 "For any reference string (messy, decryption, random, or copied from another party's instance), either branch, and any message point including infinity, decrypting with a secret key a ciphertext made on its own branch under the matching public key returns exactly that point. The same holds for every non-negative integer message that fits the coordinate field less the 10 encoding bits.",
 ["inputs", "histories", "configurations"], "all reference strings, branches, keys and messages (points and integers up to the encoding limit), encryptor and decryptor on the same or different instances sharing the reference string, keys and instances reused in any order",
 "test_dme encrypts one random point per combination and one 128-bit integer, on instances used once.",
 ["src/dme/dme.cpp", "includes/dme.hpp"], [("KeyGen / Enc / Dec", "src/dme/dme.cpp"), ("CRS transport between instances", "src/dme/dme.cpp")], ["decrypted point or integer"])
prop("C09", "Dual-mode encryption hides messages on the other branch and is randomised",
 "A secret key made for one branch does not recover a message encrypted on the other branch under the same public key, in messy or any independent reference string, and neither does any key derived from the secret key by the known relations between the public parameters. Encrypting the same message again under the same key and branch gives a different ciphertext in both components, never containing the message itself.",
 ["inputs", "histories"], "all reference strings (with exponents known to the check), branches, messages and repeated encryptions; derived keys for all small linear relations between the two encryption randomisers",
 "test_dme checks that one wrong-branch decryption differs; it would still pass if one of the two randomisers were dropped, constant, or equal to the other.",
 ["src/dme/dme.cpp"], [("two fresh scalars per encryption", "src/dme/dme.cpp")], ["ciphertext components, attempted decryptions"])
prop("C10", "Dual-mode trapdoors and reference strings have the right structure",
 "In messy mode the trapdoor names exactly the branch on which a public key generated for one branch is messy, for every key and also for public keys sent by another party on the same reference string. In decryption mode trapdoor key generation returns a public key and two secret keys that each decrypt every message on their own branch. Decryption-mode reference strings are Diffie-Hellman tuples and messy ones are not, and all their points are valid, finite and distinct.",
 ["inputs", "histories"], "all instances of both modes, keys, branches and messages; repeated use of one instance",
 "test_dme calls each trapdoor operation once or twice per instance with one message.",
 ["src/dme/dme.cpp"], [("FindMessy", "src/dme/dme.cpp"), ("TrapKeyGen", "src/dme/dme.cpp"), ("mode-specific setup", "src/dme/dme.cpp")], ["branch named, decryptions under both trapdoor keys, CRS points"])
prop("C11", "Homomorphic evaluation decrypts to the sum of the messages",
 "Combining any number of ciphertexts made on the same branch under the same public key, in any order and any grouping, including a ciphertext with itself and results of earlier combinations, gives a ciphertext that decrypts under the branch's key to the sum of all the messages. The inputs are left unchanged.",
 ["inputs", "histories"], "all expression trees of combinations over any set of ciphertexts and messages, including opposite messages whose sum is infinity",
 "test_dme combines one pair of ciphertexts on one branch.",
 ["src/dme/dmhe.cpp", "includes/dmhe.hpp"], [("component-wise addition", "src/dme/dmhe.cpp")], ["decryption of the combined ciphertext, original ciphertexts"])
prop("C12", "Every integer message in range encodes to a valid point and decodes back",
 "Every non-negative integer below the coordinate prime divided by 2^10 (2^20 for ElGamal encryption) encodes to a valid finite curve point whose decoding is that integer, however many candidate coordinates must be tried first, and the encoding is deterministic. Distinct integers encode to distinct points.",
 ["inputs"], "all integers in range, including 0, the largest ones, and messages whose first dozens of candidate x coordinates are not on the curve",
 "test_dme encodes one random 128-bit number; messages needing many attempts are exponentially rare and never sampled.",
 ["src/dme/dme.cpp", "src/elgamal/elgamal.cpp"], [("encode/decode by shift and search", "src/dme/dme.cpp")], ["encoded point, decoded integer"])
prop("C13", "Reference strings, keys and ciphertexts are exact values",
 "Reference strings, public keys, key pairs, trapdoors and ciphertexts compare equal exactly when all of their components are equal; copying or assigning one yields an equal value and leaves the source unchanged. A reference string taken from one instance stays usable and equal when carried into any number of other instances, also after the instance it came from is gone.",
 ["inputs", "histories"], "all pairs of values differing in any subset of components, and all chains of copies between instances",
 "no test compares any of these values, and only one transports a reference string.",
 ["includes/dme.hpp", "src/dme/dme.cpp"], [("operator==, operator=, updateCurve", "src/dme/dme.cpp")], ["equality results, components, use of carried reference strings"])
prop("C14", "Oblivious transfer delivers exactly the chosen message",
 "In every transfer, for point messages (including infinity or two equal ones) and for integer messages within the encoding limit, the receiver obtains exactly the sender's message of the chosen branch. This holds in any history of transfers in which parties are reused, choices change, several receivers and senders on one reference string are interleaved, and a reply is opened more than once.",
 ["histories", "inputs"], "all sequences of select / send / open steps over several receivers and senders, choices and messages, where a reply is opened under the receiver's latest selection",
 "test_ot runs three transfers with fixed choices, one receiver and one sender.",
 ["src/ot/ot.cpp", "includes/ot.hpp"], [("selectMsg / encMsgs / decryptMsg", "src/ot/ot.cpp")], ["message obtained"], [("sk, b", "receiver's current selection", "includes/ot.hpp"), ("c", "sender's last reply", "includes/ot.hpp")])
prop("C15", "Oblivious transfer reveals nothing but the chosen message",
 "A receiver that applies its key to the ciphertext of the message it did not choose does not obtain that message, whatever the messages, the choice and the previous transfers, on messy or independent reference strings. The two ciphertexts of one reply, replies to repeated requests, and requests themselves never repeat any component, so neither equal messages nor equal choices show.",
 ["histories", "inputs"], "all transfers and histories of transfers, with equal, related and repeated messages and choices",
 "no test looks at the message that was not chosen, or compares two replies or two requests.",
 ["src/ot/ot.cpp", "src/dme/dme.cpp"], [("fresh key per selection, fresh randomisers per ciphertext", "src/ot/ot.cpp")], ["opening of the other ciphertext; components of replies and requests"])
prop("C16", "Distributed transfer delivers the sum of the chosen messages",
 "When any number (one or more) of senders answer the same request and a proxy aggregates their replies, the receiver opens exactly the sum of the messages the senders offered on the chosen branch, for either choice, any messages and any order of the replies (a reply given twice counts twice). The proxy can be reused for further aggregations, and does not alter the replies.",
 ["inputs", "histories"], "any number of senders, all messages (equal, opposite, infinity), both choices, repeated aggregations on one proxy",
 "test_ot aggregates once, for three senders, on branch 0.",
 ["src/ot/dot.cpp", "includes/dot.hpp"], [("aggregate", "src/ot/dot.cpp")], ["message opened from the aggregate"])
prop("C17", "OPPRF gives the programmed value whenever x is at most the threshold",
 "For every threshold and every 16-bit client input not exceeding it, a complete run of the protocol (sixteen transfer rounds and the mask step) ends without error with the client holding exactly the server's session key point plus x times the server's secret point. This holds for any secret point and any random choices of the parties.",
 ["inputs", "histories"], "all pairs (x, threshold) with x <= threshold, including equality, 0, 65535 and pairs that first differ at each of the 16 bit positions; all secret points; all random states",
 "test_opprf runs three inputs below one threshold (1000), from one random state.",
 ["src/opprf/opprf.cpp", "includes/opprf.hpp", "src/utilities/aes.cpp", "includes/crc.hpp"],
 [("per-bit lt/eq/gt key chain", "src/opprf/opprf.cpp"), ("masking with r*ok sums", "src/opprf/opprf.cpp")], ["client result against server key"])
prop("C18", "OPPRF yields nothing useful when x exceeds the threshold",
 "For every threshold and every client input above it, a complete protocol run ends without error but the client's result is not the programmed value: it differs from the session key point plus j times the secret point for every j from 0 to 65535 (x, the threshold and 0 among them). Results of such runs differ between sessions even with the same inputs.",
 ["inputs", "histories"], "all pairs (x, threshold) with x > threshold, including x = threshold+1, threshold 0, x = 65535 and pairs that first differ at each bit position",
 "test_opprf never runs an input above the threshold.",
 ["src/opprf/opprf.cpp"], [("gt key opens only a random mask", "src/opprf/opprf.cpp")], ["client result"])
prop("C19", "OPPRF sessions are independent and the parties reusable",
 "A server and its clients can run any number of sessions, with clean-up between sessions, any inputs and a changed or unchanged secret point; every session is as correct as the first, whatever the earlier ones were, also after one that exceeded the threshold, was abandoned midway and cleaned up, or used another client. Each session has a fresh session key point, and state or masks of one session do not open another.",
 ["histories", "inputs"], "all sequences of sessions over one server and several clients, with different inputs, secrets, abandoned sessions and clean-ups",
 "test_opprf runs three sessions in a row with the same secret and one client, all below the threshold and all completed.",
 ["src/opprf/opprf.cpp", "includes/opprf.hpp"], [("prepareKeysAndInputs / clean on both parties", "src/opprf/opprf.cpp")], ["result of every session, session keys"],
 [("k_lt,k_eq,k_gt,ok", "per-session key and mask vectors", "includes/opprf.hpp"), ("result,key", "client session state", "includes/opprf.hpp")])
prop("C20", "PUDA aggregation returns the exact sum of the users' values",
 "For any number of users, any timestamp (any int, including zero and negative ones) and any 16-bit values whose total fits in 16 bits (0 to 65535), aggregating all users' ciphertexts of that timestamp, in any order, with the aggregator's key returns exactly the total. This holds for repeated setups and timestamps on one instance, as long as ciphertexts and keys come from its latest setup.",
 ["inputs", "histories"], "all user counts, values, timestamps and orders, with totals over the whole range 0..65535 inclusive",
 "test_puda aggregates once: ten users, value 2 each, one timestamp.",
 ["src/puda/puda.cpp", "includes/puda.hpp"], [("keys summing to zero", "src/puda/puda.cpp"), ("exhaustive discrete logarithm", "src/puda/puda.cpp")], ["aggregated sum"])
prop("C21", "PUDA keys, ciphertexts and tags satisfy the verification relation",
 "The aggregator's key cancels the users' encryption keys, the verification key matches the users' tag keys and the shared tagging secret, and for any values and timestamp every ciphertext and tag, and the aggregated tag, are exactly the group elements the scheme prescribes for the keys, values and timestamp. Verification accepts every honestly aggregated sum and tag, and rejects a wrong sum, tag or timestamp.",
 ["inputs", "histories"], "all user counts, values, timestamps, orders, repeated setups; all tampered sums, tags and timestamps",
 "test_puda ignores the tags and the outcome of verification.",
 ["src/puda/puda.cpp"], [("Setup / Enc / Tag / Agg", "src/puda/puda.cpp"), ("Verify (a stub)", "src/puda/puda.cpp")], ["keys, ciphertexts, tags, verification outcome"])
prop("C22", "Any t of the n shares reconstruct the secret",
 "For every secret in the field, every threshold t >= 1 and every n >= t, sharing produces exactly n shares with distinct non-zero indices, and any selection of at least t of them, in any order, reconstructs exactly the secret. All shares of one sharing lie on a single polynomial of degree below t, so adding the shares of several sharings index by index shares the sum of the secrets. Reconstruction is exact interpolation at zero for shares of any such polynomial, whoever made it: any distinct non-zero indices and any values, zero included.",
 ["inputs", "histories"], "all secrets, thresholds, share counts and subsets and orders of shares; repeated sharings with one object",
 "test_shamirss reconstructs one secret from all ten shares of one 7-of-10 sharing; it never uses a proper subset.",
 ["src/shamirss/shamirss.cpp", "includes/shamirss.hpp"], [("polynomial evaluation and Lagrange interpolation at zero", "src/shamirss/shamirss.cpp")], ["shares, reconstructed secret"])
prop("C23", "Fewer than t shares reveal nothing about the secret",
 "Reconstructing from fewer than t shares (t >= 2) does not give the secret, and the sharing polynomial has degree exactly t-1 with every non-constant coefficient drawn freshly from the whole field. Consequently no share lies within a small offset of the secret, and sharing the same secret again gives unrelated shares.",
 ["inputs", "histories"], "all secrets, thresholds, share counts, subsets below the threshold, and repeated sharings",
 "no test reconstructs from too few shares or looks at the distribution of the shares.",
 ["src/shamirss/shamirss.cpp"], [("random coefficients", "src/shamirss/shamirss.cpp")], ["shares, coefficients interpolated from them"])
prop("C24", "Symmetric encryption round-trips for every key and message",
 "For every 128-bit key (leading zero bytes and zero included), every non-negative integer message of any length, and any configured initial vector, decrypting an encryption with the same key and vector returns the message, with and without the integrity check value. Encryption depends only on key, message and vector, the keystream being that of AES-128 in counter mode (short vectors zero-padded, the default one all zero), whatever was encrypted or configured before.",
 ["inputs", "histories"], "all keys, all messages from 0 to many blocks, all ciphertexts including those that happen to start with zero bytes, all sequences of vector changes and operations",
 "test_aes encrypts one random message under one random key; leading zero bytes in key or ciphertext occur once in 256 values and long messages never.",
 ["src/utilities/aes.cpp", "includes/aes.hpp"], [("AES-128-CTR through OpenSSL on big-endian exported integers", "src/utilities/aes.cpp")], ["ciphertext and decrypted integer"], [("iv", "process-wide initial vector", "src/utilities/aes.cpp")])
prop("C25", "Checked decryption rejects wrong keys and local tampering",
 "Checked decryption of a ciphertext under a different key, of a ciphertext changed within any four consecutive bytes, or of an arbitrary integer that is not a ciphertext of that key returns zero and never crashes. It never rejects an untouched ciphertext under its own key and vector.",
 ["inputs"], "all keys and messages, all bursts of at most 32 bits in the ciphertext body, all truncations and arbitrary integers as ciphertexts (accidental check-value collisions decided by a reference implementation)",
 "no test decrypts with a wrong key or a damaged ciphertext.",
 ["src/utilities/aes.cpp", "includes/crc.hpp"], [("validateCRC after decryption", "src/utilities/aes.cpp")], ["value returned"])
prop("C26", "The checksum is CRC-32C for every buffer, length and alignment",
 "The checksum of any byte buffer equals the bitwise CRC-32C (Castagnoli, reflected, no final inversion) continued from the given start value, whatever the buffer's length and memory alignment, and reads no byte outside the buffer. Hence the checksum of a concatenation equals continuing the first part's checksum over the second part, for every split.",
 ["inputs"], "all buffers, lengths from 0 to several kilobytes, all alignments, all start values and all split points",
 "test_crc checks a single random number against the same code; the eight lookup tables are never compared with a reference.",
 ["includes/crc.hpp"], [("single-table and slicing-by-8 routines", "includes/crc.hpp")], ["returned checksum"])
prop("C27", "Check values append, validate and strip losslessly",
 "For every non-negative integer of any size, appending the check value gives an integer that validates and from which stripping returns the original, and it equals the integer shifted by 32 bits with the CRC-32C of its bytes in the low bytes. Validation accepts an integer exactly when its low 32 bits are the check value of the rest, so any change confined to four consecutive bytes is rejected, and integers of any size, also shorter than a check value, are handled without touching foreign memory.",
 ["inputs"], "all non-negative integers from 0 to several thousand bits, and all bursts of at most 32 bits",
 "test_crc appends to one random 1024-bit number; it never validates a damaged or short one, and the write past the exported buffer goes unnoticed.",
 ["includes/crc.hpp"], [("appendCRC / validateCRC / removeCRC", "includes/crc.hpp")], ["resulting integers, validation outcome"])
prop("C28", "Integer and byte conversions are inverse and random integers well ranged",
 "Exporting any non-negative integer gives its minimal big-endian bytes (none for zero), importing any byte string gives the integer with those big-endian bytes, leading zeros included, and export followed by import is the identity. Importing reads exactly the given number of bytes and leaves them unchanged.",
 ["inputs"], "all non-negative integers and all byte strings of any length",
 "the conversions are only used incidentally by other tests on a handful of random values.",
 ["src/utilities/utilities.cpp", "includes/utilities.hpp"], [("mpz_export / mpz_import wrappers", "src/utilities/utilities.cpp")], ["bytes and integers"])
prop("C29", "ElGamal encryption decrypts to the encrypted message",
 "For every generated key pair and every non-negative integer below the coordinate prime divided by 2^20, decrypting an encryption under the public key with the secret key returns the integer, and for point messages it returns the integer the point encodes. Ciphertexts satisfy the ElGamal relation, repeated encryptions differ, a different secret key does not return the message, and the public key is the generator times the secret key.",
 ["inputs", "histories"], "all keys, messages in range, repeated encryptions and key pairs on one or several instances",
 "the ElGamal test is empty and the code is not compiled by the test suite.",
 ["includes/elgamal.hpp", "src/elgamal/elgamal.cpp", ET], [("keyGen / encrypt / decrypt", "src/elgamal/elgamal.cpp"), ("generateKeyPair", ET)], ["decrypted integer, ciphertext points, key pairs"])
prop("C30", "Repeated use does not accumulate memory",
 "Repeating any operation of the library (field and point arithmetic, encodings, checksums, symmetric and dual-mode encryption, transfers, secret sharing, aggregation, protocol sessions with clean-up, creating and destroying parties) does not make live heap memory grow with the number of repetitions, for any inputs. No repetition reads or writes memory outside its objects.",
 ["histories", "inputs"], "all operations and their inputs, repeated any number of times in one process",
 "tests run each operation a few times and never observe memory.",
 ["includes/crc.hpp", "src/utilities/aes.cpp", "src/dme/dme.cpp", "src/opprf/opprf.cpp", "src/puda/puda.cpp"], [("ownership of exported buffers and curve objects", "src/utilities/aes.cpp")], ["live heap bytes before and after repetitions, sanitizer reports"])
prop("C31", "An OPPRF session does not show the client the comparison",
 "In every round after the first, and among the masks, exactly one of the server's three ciphertexts opens under the key a client following the protocol holds, above the threshold as well as below it. Over repeated sessions its position takes all three values about equally often and is independent of how the input compares with the threshold, so that only the final result depends on the comparison.",
 ["histories", "inputs"], "all thresholds and inputs (below, equal, above), all rounds, over repeated sessions of one server",
 "test_opprf runs the protocol and looks at the final result only; a server sending its ciphertexts in a fixed order passes.",
 ["src/opprf/opprf.cpp"], [("shuffled replies and masks", "src/opprf/opprf.cpp")], ["which of the three ciphertexts opens, in every round and among the masks"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    n = p["statement"].count(". ") + 1
    assert n <= 3, (p["id"], n)
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
