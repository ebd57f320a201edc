import json
checks = {
 "C01": ("seeded storage-fault injection on the loaders, simulated disk, memory and clock", "Seeded search: descriptions from a generator, damage and read faults from a fault plan; not exhaustive. Trusts the simulated disk and allocator; the work bound is a fixed number of bytes per byte of text and element."),
 "C02": ("simulated crashes at arbitrary points of a save, then reload on the surviving bytes", "Seeded search over crash points, torn and lost writes. Trusts the simulated disk's crash model (the file is truncated, then written from the start, writes reach the disk in order or lose whole blocks)."),
 "C03": ("simulated save, crash, restart, load cycles against an independent reader of the text", "Seeded search over descriptions, encoder options and histories. Trusts the independent reader and the comparison model."),
 "C04": ("simulated export/import with short, interrupted and failing transfers against a model", "Seeded search. Trusts serde_json/serde_yaml at the far end and the model of equality."),
 "C05": ("deterministic thread scheduling of concurrent calls, with panics, hash seeds and clocks injected", "Seeded search over interleavings with preemption at allocations, futex calls and I/O; each call's result is compared with its own baseline in a fresh process. Not exhaustive over interleavings."),
 "C06": ("seeded edit histories with rejected edits injected, compared with a reference model after every step", "Seeded search. Trusts the reference model of the builders and of the validation rules."),
 "C07": ("seeded histories of independent edits building reference graphs, resolved under limits on time, stack and memory", "Seeded search over reference graphs up to 20000 expanded elements. Termination is judged as a fixed work bound."),
 "C08": ("seeded edit, save and reload histories expanded under random hash seeds against a reference expansion", "Seeded search. Trusts the reference expansion; descriptions in which one name means two things are left out."),
 "C09": ("storage-fault injection that leaves well-formed markup, accepted loads compared with an independent reader", "Seeded search. Trusts the independent reader (on roxmltree, like the code itself)."),
 "C10": ("invalidating edits and storage damage, three ways to validate compared with a reference of the rules", "Seeded search. Trusts the reference of the rules."),
 "C11": ("single faults placed in stored documents, error text compared with an independent locator", "Seeded search over faults and layouts. Judged where the independent reader finds exactly one fault."),
 "C17": ("seeded edit histories with rejected edits injected, every lookup and traversal compared with a reference tree after every step", "Seeded search. Trusts the reference tree and the conversion to it."),
 "C12": ("seeded histories of edits, saves, crashes and reloads around the step, against a reference propagation", "Seeded search. Trusts the reference propagation."),
 "C13": ("simulated save, crash, restart, load cycles under case options against a reference of the renaming", "Seeded search. Trusts the reference of the renaming; names outside ASCII and names of separators alone are left out."),
 "C16": ("simulated program that reads its settings by name over crashes and restarts, compared with one that sets them directly", "Seeded search. The direct setting is the oracle for the text, the independent reader for its content."),
 "C14": ("invariant of every step of seeded edit histories with rejected edits, saves, exports and expansions: computed views equal those of a reference", "Seeded search. Arrays of more than 200 members, with another number of indexes than members, or that leave the address range are judged for bit masks alone."),
 "C15": ("invariant of every step of seeded edit histories with rejected edits, renames, saves, exports and expansions: the index equals the set of paths of a reference tree", "Seeded search. Names hold no full stop; at most 4000 paths; of elements that share a path any one may be found."),
 "C18": ("storage-fault injection that leaves well-formed data, imports over short and failing transfers compared with an independent reader", "Seeded search. Trusts the independent reader and serde_json/serde_yaml as parsers of the syntax."),
 "C19": ("seeded histories of edits that are refused, bent descriptions built, validated and loaded over faulty reads; every refusal compared with the reasons a reference finds", "Seeded search. Of several reasons any one may be given; loads with a fault of another kind beside it are left out."),
}
na = {
}
import re
src = open("/verif/sim/src/main.rs").read()
claimed = sorted(set(re.findall(r"::(C\d\d)\b", src)))
m = {"version": 1, "setup_cmd": "./check.sh build",
 "checks": [{"property": c, "quick_cmd": f"./check.sh {c} quick", "thorough_cmd": f"./check.sh {c} thorough",
   "technique": "deterministic simulation with fault injection: " + checks[c][0], "level": "exploration", "level_note": checks[c][1],
   "evidence_file": f"evidence/{c}.json"} for c in claimed],
 "not_applicable": [{"property": k, "reason": v} for k, v in na.items() if k not in claimed]
   + [{"property": k, "reason": "The check is being built."} for k in checks if k not in claimed]}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
open("/verif/MANIFEST.json", "a").write("\n")
