#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json for the properties whose checks exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
T = {
 "C01": ("runtime monitoring of simulated networks; offline consistency checker against a math/big reference", "Held on every honest session run (evidence lists them); assumes the reference arithmetic and the sampled IDs, thresholds and schedules are representative."),
 "C02": ("runtime monitoring; offline interpolation checker over shares and transcripts", "Held on every sharing and sub-threshold session run; says nothing about the computational hardness behind secrecy."),
 "C03": ("runtime monitoring of simulated networks; crypto/ed25519 and a math/big reference as oracles", "Held on every honest signing session run, over sampled keys, subsets, messages and delivery orders."),
 "C04": ("runtime monitoring: online model of the message filter, metamorphic comparison with in-order delivery", "Held on every history run; return values are only judged where the statement is unambiguous."),
 "C05": ("runtime monitoring with fault injection by reference adversaries; online blame monitor", "Held on every adversarial session run, over a catalogue of deviations and their combinations."),
 "C06": ("runtime monitoring with fault injection by reference adversaries; online blame and signature-release monitor", "Held on every adversarial session run, over a catalogue of deviations and their combinations."),
 "C07": ("runtime monitoring of proofs against an independent implementation of the documented equation", "Held on every proof and mutation tried; soundness against arbitrary provers is not decided."),
 "C08": ("runtime monitoring: hostile-input generation with crash, hang and memory monitors", "No crash, stall or excessive allocation on the inputs tried."),
 "C09": ("runtime monitoring of codecs against an independent reference decoder, exhaustive single-byte mutations", "Held on the values, mutations, truncations and extensions tried."),
 "C10": ("runtime monitoring of codecs; reference predicate for key files; restored keys used in sessions", "Held on the values and corruptions tried."),
 "C11": ("runtime monitoring of group operations against an independent RFC 9496 implementation", "Held on the operands, representations, receivers and aliasings tried."),
 "C12": ("runtime monitoring: differential monitoring against crypto/ed25519 and a math/big reference", "Held on the keys, messages and signatures tried, degenerate ones included."),
 "C13": ("runtime monitoring of call histories: outcome-stability monitor", "Held on the histories tried."),
 "C14": ("sanitizer: Go race detector under concurrent stress; linearizability checking of recorded histories (porcupine)", "No race or non-linearizable history on the executions run; the scheduler decides the interleavings."),
 "C15": ("runtime monitoring under virtual time (testing/synctest) against a reference timer model", "Held on the timed histories tried."),
 "C16": ("runtime monitoring: memory monitor, walk of all memory reachable from a finished session, searching for known secrets", "Finds secrets reachable through Go pointers; does not see freed heap or stacks."),
 "C17": ("runtime monitoring: randomness monitor, recording, perturbing, shortening and failing crypto/rand.Reader", "Entropy is judged by bit-flip sensitivity of the commitments to the bytes consumed."),
 "C18": ("runtime monitoring: snapshots of inputs, messages and outputs; pointer delivery compared with wire delivery", "Held on the histories tried."),
 "C19": ("runtime monitoring: exhaustive small-domain enumeration of configurations with a reference predicate, plus random large ones", "Complete for the small domains named in the evidence, sampled beyond."),
 "C20": ("runtime monitoring of the algebra against math/big interpolation", "Held on the sets, polynomials and indices tried."),
 "C21": ("runtime monitoring of the built command-line tools in scratch directories", "Held on the invocations tried."),
 "C22": ("runtime monitoring: trace checking against reference participants in mixed sessions", "Held on every mixed session and transcript run."),
 "C23": ("runtime monitoring: online trace checker inside a monitoring Round implementation, with injected errors and timeouts", "Held on the histories tried."),
 "C25": ("runtime monitoring: differential trace checking of the batch driver against recorded runs, fault injection", "Held on the batches and faults tried."),
 "C24": ("runtime monitoring: exhaustive enumeration of IDs, reference set operations", "Complete for single IDs; sets and texts sampled."),
}
have = os.environ.get("CHECKS", "").split() or sorted(T)
checks = []
for p in props:
    if p["id"] in T and p["id"] in have:
        tech, note = T[p["id"]]
        checks.append(dict(property=p["id"], quick_cmd="./run.py " + p["id"],
            thorough_cmd="VERIF_TIER=thorough ./run.py " + p["id"],
            evidence_file="evidence/%s.json" % p["id"], technique=tech, level="exploration", level_note=note))
na = [dict(property="C90", reason="Unforgeability and secrecy quantify over all efficient adversaries under computational assumptions; no observation of executions can refute or support them. The mechanisms they rest on are covered by C02, C05-C07, C17 and C22.")]
for p in props:
    if p["id"] != "C90" and not any(c["property"] == p["id"] for c in checks):
        na.append(dict(property=p["id"], reason="check not finished yet"))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
     notes="All checks are run.py <id>: it builds /verif/harness against /repo's working tree (replace directive) and runs eight shards. No hooks in /repo are needed. Replays: run.py <id> --replay <file>."),
     open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
