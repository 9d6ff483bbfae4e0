#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
D = os.path.dirname(os.path.abspath(__file__))
T = {
    "S": ("run-time monitor: reference-model oracle over instrumented executions of generated histories",
          "every put and search of some ten thousand generated histories is compared with a reference that scans the documents; holds for the executions observed, not proved. Trusts the reference analyzers and the generator's reach (statement coverage and case counts are in the evidence)."),
    "A": ("run-time monitor: reference-model oracle over exhaustive small inputs and generated texts",
          "compared with a reference on every code point, byte pair or short word and on hundreds of thousands of generated inputs; holds for the executions observed. Trusts the reference."),
    "A04": ("race detector plus answer oracle over perturbed concurrent executions",
            "Go race detector and answer comparison over storms of goroutines with injected delays; finds races of the schedules that occurred (happens-before, so any overlap without ordering shows), not all."),
    "R": ("run-time monitor: sequential model compared after every operation of generated histories",
          "all observable state is compared with a model after the operations of several thousand generated sequences, goroutines inside an operation under a seeded scheduler; holds for the executions observed."),
    "R07": ("run-time monitor: repeated searches compared under controlled and perturbed schedules",
            "results of repeated searches compared across tens of thousands of seeded schedules of the goroutines behind an alias search and across free runs with delays."),
    "R08": ("run-time monitor: recording indices and builder, call log compared with the model",
            "every call the repository makes to a user-supplied builder or index is recorded and compared with the calls the model predicts, sequentially and under seeded concurrent schedules."),
    "X01": ("linearizability checking (porcupine) of recorded concurrent histories under controlled and perturbed schedules",
            "histories recorded at the caller, schedules switching before any statement or lock operation; each history decided exactly, the set of histories is sampled."),
    "X02": ("race detector over perturbed storms, crash monitor under a controlled scheduler",
            "Go race detector with injected delays (harness adds no ordering), and crash detection over tens of thousands of seeded statement-level schedules; a sample of schedules."),
    "X03": ("run-time monitor: exact blocked-forever detection under a controlled scheduler, plus free-running storms",
            "deadlock is seen exactly (no task can run) in each seeded schedule; every operation is probed after each run. A sample of schedules."),
    "X04": ("run-time monitor: conservation of puts under controlled and perturbed schedules",
            "documents stored are compared with documents put in tens of thousands of schedules, including the creation of indices. A sample of schedules."),
    "X05": ("run-time monitor: atomic-visibility checker on readers during alias puts, controlled and perturbed schedules",
            "each search during alias puts is checked for all-or-nothing visibility, monotonicity and word matching. A sample of schedules."),
    "X06": ("run-time monitor: service-continuity and linearizability checker on hot swaps, controlled and perturbed schedules",
            "each request through the alias during a swap is checked, small runs also for linearizability. A sample of schedules."),
    "R10": ("run-time monitor: reachability of dropped documents and indices observed through weak pointers, live-heap comparison",
            "what must have been released after generated operation sequences is looked for through weak pointers after forced collections; repeated neutral operations are compared in live heap. Holds for the executions observed."),
    "X07": ("run-time monitor: calls in progress and goroutines left when an operation returns, controlled and perturbed schedules",
            "indices record when they are called and for which operation; goroutines of the code under test are looked for after each run, in thousands of seeded schedules. A sample of schedules."),
    "X08": ("race detector plus answer oracle over perturbed concurrent executions",
            "Go race detector and comparison with the answer given alone, over storms of goroutines calling the same functions on shared values; sees the schedules that occurred."),
    "J": ("run-time monitor: differential oracle against encoding/json over generated values, texts and hostile bytes",
          "every code point and several hundred thousand generated values and inputs, across all entry points; holds for the executions observed."),
    "C": ("run-time monitor: cost accounting (statements executed, bytes allocated, thread processor time) over input families at growing sizes",
          "each family of calls and inputs is measured at sizes growing by a factor of sixteen and fails when its cost grows several times more; a sample of input shapes, growth seen up to inputs of some hundred kilobytes."),
    "J03": ("run-time monitor: round trip of generated indices with answer comparison",
            "dumped and loaded indices are compared with the original and the reference on queries, further puts and the dump's content; holds for the executions observed."),
}
checks = []
for line in open(D + "/properties.jsonl"):
    p = json.loads(line)["id"]
    t, n = T.get(p) or T[p[0]]
    checks.append(dict(property=p, quick_cmd="python3 check.py " + p, thorough_cmd="VERIF_TIER=thorough python3 check.py " + p,
                       evidence_file="evidence/%s.json" % p, technique=t, level="exploration", level_note=n))
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=[],
         notes="No hooks in /repo: instrumentation is injected at build time through a go build overlay generated from /repo's working tree. "
               "Repairs in /repo are the 'fix:' commits listed in KNOWN_FINDINGS.txt.")
json.dump(m, open(D + "/MANIFEST.json", "w"), indent=1)
