#!/usr/bin/env python3
"""writes /verif/MANIFEST.json from properties.jsonl and the table below"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REF = "reference-model monitor over recorded calls and tool runs"
T = {
 "C01": ("oracle over runs of bwt (sorted-suffix reference and independent inversion), library and tool, debug and release", "texts exhaustive over small alphabets to a small length, else random/structured up to about a megabyte; trusts the reference suffix sorter, itself checked for sortedness on every case"),
 "C02": ("oracle over library calls and bwt --use-matrix runs (sorted-rotation reference)", "exhaustive for short texts, structured (primitive, powers, conjugates) and random beyond; trusts the rotation reference"),
 "C03": ("run-count oracle over count_runs/count_r/bwt runs fed in chunks over several channels", "counts compared with a direct count over the same bytes and over the bwt tool's own output"),
 "C04": ("factorization oracle (Duval-free definition check) over library calls and lyndonfactorization runs, its log and its output file", "uniqueness of the factorization makes the definition check complete per case; generic alphabets included"),
 "C05": ("bijection monitor: reference transform, inversion, image-collision set over exhaustive ranges", "injectivity observed by collecting all images over complete small domains; random beyond"),
 "C06": ("array-definition oracles over library calls", "each array compared with a definition-level reference on exhaustive small and structured/random large texts"),
 "C07": ("definition oracle over library calls on generated arrays", "exhaustive over short arrays, random/structured beyond, all element types in use"),
 "C08": ("definition oracle over library calls", "exhaustive over short texts, periodic/morphic/random beyond"),
 "C09": ("greedy-parse reference and decoder over count_z runs", "tool runs in debug and release builds with file and standard output"),
 "C10": ("lexparse reference and decoder over count_lexparse runs", "tool runs in debug and release builds with file and standard output"),
 "C11": ("minimal-unique-substring reference over mus runs and library-level arrays", "listing compared as a whole, for all text classes"),
 "C12": ("entropy reference with rounding tolerance over entropy and entropy_kmer runs", "both tools compared with a direct evaluation of the definition and with each other"),
 "C13": ("attractor decision reference and witness checker over is_stringattractor runs", "verdict, exit status and every printed witness are judged; exhaustive position sets for short texts"),
 "C14": ("encoder/decoder model over escape runs", "round trips and exact encodings over all byte values, symbol configurations, prefix lengths and channels"),
 "C15": ("move-to-front model and decoder over mtf runs", "all byte values, chunked delivery"),
 "C16": ("run-length model and expander over rle runs in all modes", "run lengths around 256 and its multiples, all byte values"),
 "C17": ("byte-level model over reverse and count_sigma runs", "all byte values; alphabet sizes 0..256"),
 "C18": ("morphism iteration model over library calls and word runs", "every order up to the size the memory budget allows"),
 "C19": ("definition oracle over library calls and word runs", "every order up to the size the memory budget allows"),
 "C20": ("de Bruijn property monitor and necklace-prefix reference", "every order within budget; all words over small alphabets for the prenecklace test"),
 "C21": ("exactly-once/order monitor over enumerator event streams", "whole streams recorded and compared with an independent enumeration"),
 "C22": ("output-constraint monitor over randomstring runs", "probabilistic clauses judged only where the failure probability of correct code is below 1e-9"),
 "C23": ("differential monitor over delivery channels (file, stdin, chunked pipe, FIFO, device) and prefix lengths", "same bytes, all channels and prefix lengths; results compared with the plain file run"),
 "C24": ("fault injection at recorded read/write calls (LD_PRELOAD shim) with a delivered-or-failed monitor", "EINTR, short transfers, EIO and ENOSPC placed at enumerated call positions of every tool"),
 "C25": ("RESULT-line parser over analytic tool runs", "every field judged against the input actually given"),
 "C26": ("AddressSanitizer+UBSan builds, Miri, valgrind memcheck and heap-balance monitor over library and tool workloads", "held on the executions driven; red-zone tools do not see every stray access"),
 "C27": ("determinism/interference digests, ThreadSanitizer, Miri data-race detection over concurrent library workloads", "held on the schedules observed"),
 "C28": ("end-to-end pipeline monitor: tools chained by real pipes, inverse steps by independent decoders", "arbitrary binary inputs incl. zero bytes and all byte values"),
 "C29": ("record-stream checker over enumerate_lexparse histories", "prefix of the stream observed until a byte/time budget; each record recomputed"),
 "C30": ("differential monitor: debug against release builds of every tool", "same inputs and options, outputs/files/status compared"),
 "C31": ("file-system snapshot monitor around tool runs", "scratch directory compared byte for byte before and after each run, log levels varied"),
 "C32": ("refusal monitor over out-of-domain invocations", "table of domain violations with generated parameters; status and output judged"),
 "C33": ("instruction-count monitor (callgrind) over tool runs and library calls at two sizes", "twenty text families at two sizes a factor of four apart; growth beyond the larger size is not observed"),
}
checks = []
for l in open(os.path.join(V, "properties.jsonl")):
    i = json.loads(l)["id"]
    t, n = T[i]
    checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
      "technique": "runtime monitoring: " + t, "level": "fault_enumeration" if i == "C24" else "exploration",
      "level_note": "Held on the executions observed, not proved: " + n + "."})
m = {"version": 1, "setup_cmd": "./check.sh setup", "checks": checks, "not_applicable": [],
  "notes": "No hooks were needed: the monitors observe the public library interface and the built tools. known_findings.txt lists the repaired defects."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
