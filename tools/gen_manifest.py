#!/usr/bin/env python3
"""Write MANIFEST.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
NA = {
    "C19": "A pure, stateless function of its argument: no scheduling, time, I/O, storage or multi-party behaviour for a simulated schedule or fault to act on. Deciding it would mean enumerating or proving over characters, which is another technique.",
    "C20": "Pure, stateless codecs and renderers: nothing a schedule or an injected fault could influence. (How the library uses them on a disk is covered by C12, C13 and C14.)",
}
LEVEL = {"C04": "fault_enumeration", "C05": "fault_enumeration", "C07": "fault_enumeration"}
NOTE = {
    "C01": "Seeded search over histories of creations, appends, flushes, closes, renames, deletions, re-initialisations and reopens on all 8 image layouts, every read compared with the model. Sampled, not exhaustive.",
    "C02": "After every operation with no writer open, an independent checker parses the raw image and compares ownership, bitmap, counts, reported free space and entry sizes. Sampled histories.",
    "C03": "Histories on nearly full disks and directories; each disk-full report is judged against the model's free sectors and slots. Sampled.",
    "C04": "Power loss at any point of sampled histories; surviving images drawn from all subsets/versions of unsynchronised 32-byte units. Assumes a synchronous msync of a range makes that range durable and nothing else does.",
    "C05": "For sampled histories, kills after every sector write of an operation are examined in turn, and runs continue from such images. Assumes sector writes of a killed process all persist in order (page cache survives).",
    "C06": "Reopens (by extension, upper-case extension, size; read-only or writable), re-initialisations and drop orders at sampled points of sampled histories.",
    "C07": "Read, write and sync errors injected at sampled accesses, single and in bursts, of sampled histories, with retries on the same handles.",
    "C08": "Each refused request is bracketed by comparisons of the whole image, all open handles and all reports.",
    "C09": "Sampled histories on a file the process may only read, in lock step with a writable memory copy; the file's bytes are compared after every modifying attempt.",
    "C10": "Random and structure-aware damage before, between and inside operations; every call is bounded by a sector access budget (600 x sectors, 20000 x sectors for validation) and a CPU time limit.",
    "C11": "Validation of sampled consistent and damaged images against an independent checker, as multisets of reports.",
    "C12": "Sampled histories around relative and GEOS files built by the harness; every record, info block and sector list compared.",
    "C13": "Sampled read-size sequences interleaved with other operations; the whole stream compared with one built independently.",
    "C14": "Listings and lookups compared with the model after sampled histories, including full and growing directories.",
    "C15": "Formats of arbitrary images under device faults; result compared with a formatted blank image, an independent checker, and what would survive a power loss. File creation with failing ftruncate/mmap.",
    "C16": "Every allocation of sampled histories compared with an independent implementation of the drive's rule on the free map at that moment.",
    "C17": "Sampled sessions of cdisk processes running the real cdisk code against a model of the disk, including commands killed at a sector write or meeting device errors.",
    "C18": "Byte-exact frame check of every operation of sampled histories.",
}
checks = []
for p in props:
    i = p["id"]
    if i in NA:
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"./check.sh {i} quick",
        "thorough_cmd": f"./check.sh {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": "deterministic simulation with fault injection: seeded search over operation schedules and faults against a reference model",
        "level": LEVEL.get(i, "exploration"),
        "level_note": NOTE[i],
    })
m = {
    "version": 1,
    "setup_cmd": "./check.sh --build",
    "hooks": {
        "guard": "cbm_sim",
        "enable": "RUSTFLAGS=\"--cfg cbm_sim\" when building the simulator crate in /verif/sim, which depends on /repo by path (done by check.sh)",
        "source_commits": ["95a423f"],
    },
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
    "notes": "Replay a violation with ./check.sh --replay FILE. VERIF_SEED selects the seeds; known_findings.txt lists defects repaired in /repo.",
}
open(os.path.join(root, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
