#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json (run to regenerate it)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOOKS = ["0f58e09", "6b3e502"]
DIFF = "runtime monitoring: output of the real tool on random programs against a reference interpreter"
TECH = {
 "P01": DIFF, "P02": DIFF + " and against runs of each test alone", "P03": DIFF, "P04": DIFF, "P05": DIFF, "P06": DIFF, "P07": DIFF, "P08": DIFF, "P09": DIFF,
 "P10": DIFF, "P11": DIFF, "P12": DIFF, "P13": DIFF, "P14": DIFF,
 "P15": "runtime monitoring: lookups on random related data through the drive hook against a reference evaluation",
 "P16": "runtime monitoring: lookups over random relationship graphs through the drive hook against breadth-first search",
 "P17": "runtime monitoring: compiled models of random sources against their declarations",
 "P18": "runtime monitoring: compiled steps of random scripts against their source trees",
 "P19": "runtime monitoring: decompiled models of synthesized files against what was stored",
 "P20": "runtime monitoring: decompiled and executed stored scripts against what was stored",
 "P21": "runtime monitoring: metamorphic comparison of models of differently encoded files",
 "P22": "runtime monitoring under resource limits with fault injection into input files",
 "P23": "runtime monitoring: an offline checker (independent reader) over written files, and a decompiler round trip",
 "P24": "runtime monitoring: round trips of values through the encoders and decoders of the real tool",
 "P25": "sanitizers: AddressSanitizer with debug assertions, and the Miri undefined-behaviour interpreter, under valid and hostile workloads",
 "P26": "runtime monitoring: repeated runs compared byte by byte, file-system observation",
 "P27": "runtime monitoring: random command lines against a reference model of the runs",
 "P28": "runtime monitoring: decompiled calculations compared and executed against the stored token sequence",
 "P29": "runtime monitoring: invariant monitor over a state trace recorded before every step",
 "P31": "runtime monitoring under injected write faults, against the outputs of an undisturbed run",
 "P32": "runtime monitoring of commands with an unusable input, against the effects of the command that ends before it",
 "P30": "runtime monitoring: runs on sources with one planted structural error, observed through exit status, messages and file system",
}
BASE = "Exploration by seeded random workloads; a clean run says nothing was found on what was generated, not that nothing exists. "
NOTE = {
 "P15": "Needs the observation hook. Trusts the Python reference evaluation of relationship chains.",
 "P16": "Needs the observation hook. Graphs of up to 20 nodes.",
 "P22": "Hang is decided by CPU time, memory by address-space limit and peak size; files of at most some hundred KB.",
 "P23": "Trusts the independent reader (lib/reader.py) and a snapshot of the character code taken from files of the original software.",
 "P24": "Needs the observation hook. All path numbers, otherwise random values and edges.",
 "P25": "AddressSanitizer sees heap, stack and global accesses; Miri sees all undefined behaviour but only on few, small inputs. Where Miri cannot build, only the former.",
 "P29": "The state trace needs the observation hook; without it only output is compared.",
}
KNOWN = "The interpreter's files count as test files and cannot be repaired here: what its known findings change is either left out or has to be exactly what lib/asis.py predicts. "
for p in ["P%02d" % i for i in range(1, 16)] + ["P29"]: NOTE[p] = KNOWN + NOTE.get(p, "")
DEF = "Trusts the reference model in lib/, which was written from the documentation and the property, not from the code."
checks = []
for i in range(1, 33):
    p = "P%02d" % i
    if not os.path.exists(os.path.join(HERE, "props", p.lower() + ".py")): continue
    checks.append({"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
                   "evidence_file": "evidence/%s.json" % p, "technique": TECH[p], "level": "exploration", "level_note": BASE + (NOTE[p] if p in NOTE and NOTE[p] != KNOWN else NOTE.get(p, "") + DEF)})
full = [os.popen("git -C /repo rev-parse " + h).read().strip() for h in HOOKS]
m = {"version": 1, "setup_cmd": "python3 check.py setup",
     "hooks": {"guard": "cfg burn_verif", "enable": "cargo rustc --bin burn_fm -- --cfg burn_verif", "source_commits": full},
     "checks": checks, "not_applicable": [],
     "notes": "VERIF_SEED chooses the workload, VERIF_TIER its size. Everything is built into /verif/.build. See DESIGN.md."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f: json.dump(m, f, indent=1); f.write("\n")
