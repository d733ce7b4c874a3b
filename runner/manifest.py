#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of claimed properties."""
import json, os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "runtime monitoring"
BASE = ("The real code of /repo's working tree is executed on workloads generated from VERIF_SEED, in an optimised build and in a "
        "build with overflow checks and debug assertions. ")
NOTES = {
    "C01": (T + " against reference field arithmetic",
            "Results compared with carry-less multiplication modulo an irreducible polynomial; every logarithm sum and difference "
            "of every width, fresh processes for initialisation histories. Trusts the reference arithmetic in refgf.rs."),
    "C02": (T + " with address, undefined-behaviour, thread and memory sanitizers",
            "Conversions, byte strings and operations of all widths in ordinary builds and in builds (including the standard library and the C "
            "code) with AddressSanitizer and UBSan, ThreadSanitizer and MemorySanitizer; a part of the workloads of ten other checks runs under "
            "the sanitizers too. Reads and races on paths the workloads do not execute are not seen."),
    "C03": (T + " against reference interpolation and rank", "Random point sets, shapes and row subsets; trusts reference Gaussian elimination."),
    "C04": (T + " of the loader and rank monitor on shipped matrices",
            "Matrices with at most 20 rows are decided for every adversarial set by enumerating row combinations; larger ones by random, "
            "structured and searched worst-case sets."),
    "C05": (T + " with codeword monitor", "Every share vector is judged by reference interpolation; up to 300 parties."),
    "C06": (T + " with codeword monitor on altered shares", "Acceptance compared with reference membership for random and structured alterations."),
    "C07": (T + ", distribution and rank monitors", "Chi-square (8 standard deviations) on joint distributions in narrow fields; rank of observed "
            "differences in the wide field. Assumes the random generator handed in is uniform."),
    "C08": (T + " against an independent parser and evaluator", "Generated circuits and the shipped circuits against own AES, SHA-256 and subtraction."),
    "C09": (T + " with structural monitor", "Blocks compared with the gates of the file, repeated in other threads and fresh processes."),
    "C10": (T + " of identifiers", "Announced numbers around powers of two, random trees, identifiers seen on the wire in protocol runs."),
    "C11": (T + " of real local and TCP networks with delivery monitor",
            "In-process networks on a paused clock (stalls are logical facts), threads, and TCP through relays that split, merge, delay and "
            "reorder connections; up to 263 parties over several processes. A stall on TCP counts only when a canary stays healthy, thrice."),
    "C12": (T + " of traffic counters against relayed bytes", "Counters compared with messages known to be sent and, on TCP, with the bytes on the wire."),
    "C13": (T + " of collection and synchronisation on real and controlled networks", "Histories of repeated collections under many arrival orders."),
    "C14": (T + " on a controlled network with codeword and masking monitors",
            "Products and degree reductions judged by reference interpolation; every opening on the wire must carry fresh full-rank masks. "
            "Protocol randomness drawn inside the code is not seeded; verdicts do not depend on it."),
    "C15": (T + " on a controlled network with codeword and masking monitors", "Transformations with repeated and permuted selections, positions and leaders."),
    "C16": (T + " on a controlled network", "All messages are observed and outputs must be the stated linear function of all parties' contributions."),
    "C17": (T + " on a controlled network with use-once accounting", "Material judged by reference interpolation; spent pieces reconstructed from the messages."),
    "C18": (T + " of garbled tables against reference encryption", "Every table entry explained by labels, masks, public matrix, code and one noise entry."),
    "C19": (T + " on a controlled network with use-once and rank monitors", "Random material spent in a garbling reconstructed from the messages; nothing spent twice."),
    "C20": (T + " of public matrices inferred from tables", "Matrices inferred by linear algebra from observed tables; compared within and across garblings."),
    "C21": (T + " of garbling with exact and short material, and of the size tool", "Real garbling runs with the announced amounts and one item fewer."),
    "C22": (T + " of serialisation", "All byte strings where feasible, all dimensions of material, garbling with original and deserialised material."),
    "C23": (T + " on a controlled network with deadlock and leftover monitors", "Ten delivery policies, all delivery orders of small runs, concurrent and successive instances."),
    "C24": (T + " of the real programs as processes",
            "One process per party in random start orders, some suspended and resumed; exit status, output, saved file and recorded traffic judged. "
            "A stall counts only without CPU progress beside a healthy canary process."),
    "C25": (T + " of message sizes against the estimation script", "Bytes of every message of real runs compared with what the script prints, up to its rounding."),
    "C26": (T + " with codeword monitor across parties", "Locally derived material of all parties judged by reference interpolation, also beyond the pool size."),
    "C27": (T + " of the search script against exact evaluation", "Failure probability in exact rational arithmetic, attack costs evaluated independently; "
            "tightness decided by trying shorter keys and blocks. Assumes the script's attack-cost model."),
    "C28": (T + " of both estimators against one ledger",
            "Both scripts are run on random configurations; every printed line is compared with a ledger of the steps of a protocol run. The "
            "ledger restates the cost model of the maliciously secure protocol, which the repository does not implement; for the "
            "semi-honest one C25 compares with real runs."),
    "C29": (T + " of the matrix generator",
            "The real generator is run with a stand-in for the galois package, which is not installed; matrices with up to 20 columns are decided "
            "by enumeration, larger ones by a search for light words. Trusts the stand-in where it agrees with the package's documentation."),
}


def main():
    props = [json.loads(l)["id"] for l in open(os.path.join(VERIF, "properties.jsonl"))]
    checks = [dict(property=p, quick_cmd="python3 run_check.py " + p, thorough_cmd="python3 run_check.py " + p, technique=NOTES[p][0],
                   level="exploration", level_note=BASE + NOTES[p][1]) for p in props if p in NOTES]
    na = [dict(property=p, reason="check not yet built") for p in props if p not in NOTES]
    m = dict(version=1, setup_cmd="python3 run_check.py setup", checks=checks)
    if na:
        m["not_applicable"] = na
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as fh:
        json.dump(m, fh, indent=1)
        fh.write("\n")


if __name__ == "__main__":
    main()
