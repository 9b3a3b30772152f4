#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
    "C01": ("property-based testing, differential against integer arithmetic", "Python integers are the oracle; edge-biased random integers up to 600 bits."),
    "C02": ("stateful property-based testing against a register model", "random histories over registers with aliasing; the model is Python integers."),
    "C03": ("stateful property-based testing, differential against a reference curve", "Jacobian-coordinate reference in Python, itself self-tested against published points."),
    "C04": ("property-based testing, differential against a reference curve", "edge-biased scalars; full scalar range sampled."),
    "C05": ("property-based testing, differential against the curve equation", "parameters compared with the published constants."),
    "C06": ("property-based testing, round trip and differential", "exact sampled round trips; sampled x values with and without a point."),
    "C07": ("property-based statistical testing of generators, metamorphic comparison of processes", "range, freshness and bit statistics with 8-sigma limits; it does not judge cryptographic unpredictability beyond that. The default-seeded generators are known findings."),
    "C08": ("stateful property-based testing, round trip and differential", "all branches and kinds of reference string; messages include precomputed hard-to-encode integers."),
    "C09": ("property-based testing with attack oracles", "checks listed attacks (own key, keys derived from linear relations), not indistinguishability."),
    "C10": ("property-based testing, differential with known exponents", "reference strings with exponents chosen by the harness make the oracle exact."),
    "C11": ("stateful property-based testing, metamorphic and differential", "random combination trees against the reference sum."),
    "C12": ("property-based testing, round trip, with an offline-searched corpus", "messages needing up to 28 further candidates (found offline, corpus/hard.json) are always included."),
    "C13": ("stateful property-based testing against a value model", "registers with copies and single-component changes."),
    "C14": ("stateful property-based testing against a model of transfers", "random histories, several parties, repeated openings."),
    "C15": ("stateful property-based testing with attack oracles", "no component repeats over a history; listed attacks on the other ciphertext."),
    "C16": ("stateful property-based testing, differential", "1-7 senders, any order, proxy reuse."),
    "C17": ("planned and random protocol runs against a closed formula", "every first-difference bit is covered in each run of the check."),
    "C18": ("planned and random protocol runs with a bounded search of programmed values", "the result is tested against all 65536 multiples of the secret."),
    "C19": ("stateful property-based testing of session histories", "abandoned, repeated and interleaved sessions; masks replayed."),
    "C20": ("property-based testing, differential", "totals of every magnitude; the costly large ones are few in the quick tier."),
    "C21": ("property-based testing against the scheme's equations", "keys and hash point are observed through the interface. The verification stub is a known finding."),
    "C22": ("property-based testing, round trip and differential", "Lagrange reference in Python."),
    "C23": ("property-based testing with interpolation and statistics", "coefficients recovered by interpolation; 8-sigma bit statistics."),
    "C24": ("stateful property-based testing, round trip and differential", "AES written from the standard in Python, self-tested against its vectors."),
    "C25": ("property-based mutation testing with a reference deciding collisions", "bursts within four bytes, related keys, arbitrary integers."),
    "C26": ("property-based testing, differential and metamorphic", "bitwise CRC; every small length and alignment each run."),
    "C27": ("property-based testing, round trip, differential and mutation", "bitwise CRC reference, address sanitizer for foreign memory."),
    "C28": ("property-based testing, round trip and differential", "Python integers as oracle, address sanitizer for bounds."),
    "C29": ("property-based testing, round trip and differential", "reference curve; wrong keys tried."),
    "C31": ("statistical property-based testing over repeated sessions", "60 sessions per case; chi-square limit of probability 2e-10 and every position taken."),
    "C30": ("repetition of generated histories under a counting allocator", "heap growth over repeated identical histories, under address and undefined-behaviour sanitizers."),
}
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3-vt run.py setup",
         checks=[dict(property=i, quick_cmd="python3-vt run.py check %s quick" % i, thorough_cmd="python3-vt run.py check %s thorough" % i, evidence_file="evidence/%s.json" % i,
                      technique=T[i][0], level="exploration",
                      level_note=T[i][1] + " Generated-input search: no violation among the explored cases, no proof. Trusts the Python references (self-tested), gcc's sanitizers and the drivers in harness/.") for i in ids],
         not_applicable=[],
         notes="No hooks in /repo: the drivers use the public interface only. Seeds come from VERIF_SEED; the same tree and seed explore the same cases. Replay a failure with: python3-vt run.py replay <file>.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
