#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one check per property with a registered check in mon/."""
import json, os, re
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = {  # property: (technique, what the verdict rests on)
"C01": ("race detector; linearizability checking (porcupine) of recorded concurrent transaction histories", "Go race detector plus offline strict-serializability check of every recorded history; schedules come from goroutine stress with injected yields, not enumeration"),
"C02": ("runtime monitor: lock-step reference model over random transaction histories", "every table is re-read after each transaction and compared with a reference model kept in the worker"),
"C03": ("runtime monitor: lock-step reference model with open-scan snapshots", "every step of every open scan is compared with the model's snapshot"),
"C04": ("runtime monitor: scans compared with a reference filter-sort-project", "reference order and predicate evaluation are written independently of encode and types.Compare"),
"C05": ("runtime monitor: lock-step reference model, table re-read after every failing operation", "as C02, biased to collisions and bad values"),
"C06": ("runtime monitor: lock-step reference model over many tables and ids", "as C02, biased to ids, definitions, drop and re-create"),
"C07": ("runtime monitor: conformance monitor on every row read, reference conversion", "as C02, biased to foreign and out-of-range values"),
"C08": ("runtime monitor: lifecycle misuse sequences against a reference model, watchdog for a wedged store", "a leaked lock shows as a blocked worker"),
"C09": ("runtime monitor: pairwise order oracle on encoded keys", "reference row order independent of the encoder; short keys exhaustively"),
"C10": ("runtime monitor: round-trip and decode oracle with math/big reference", "boundary values exhaustively, short byte strings exhaustively, rest sampled"),
"C11": ("runtime monitor: order axioms and exact numeric reference on value pairs and triples", "all pairs and triples of a pool of hard values, plus random ones; math/big reference"),
"C12": ("runtime monitor: reference casts and conversions compared value by value", "reference written against the documented meaning; values sampled"),
"C13": ("runtime monitor: canonicity, bound and round-trip oracle on identifiers", "all keywords in several cases, rest sampled"),
"C14": ("race detector; consistency monitor over concurrent identifier use", "Go race detector plus a global name/identifier bijection monitor"),
"C15": ("runtime monitor: created definition compared with every later read-back", "definitions sampled, from one column to far too large"),
"C16": ("runtime monitor: lock-step catalog model over random histories", "lists and opens compared with the model after every transaction"),
"C17": ("race detector; uniqueness monitor over allocated table ids", "serial histories in lock step and concurrent histories under the race detector"),
"C18": ("runtime monitor: lock-step model of typed tables over generated struct types", "struct types built by reflection, own struct/row conversion as reference"),
"C19": ("runtime monitor: recording engine wrapper, fault injected at every engine call", "transaction automaton over the recorded calls; every call of every generated script is failed once"),
"C20": ("runtime monitor: recording engine wrapper compared with a reference resolver", "names seen by the engine compared with names completed by the model"),
"C21": ("runtime monitor: recorded engine calls compared with the expected calls per statement", "expected calls derived from the generated statement, with catalog contents and faults varied"),
"C22": ("race detector; serializability checking (porcupine) of concurrent session histories", "as C01, end to end through sessions and the engine"),
"C23": ("runtime monitor: fuzzing by grammar, mutation and raw bytes with a step-counting reader and watchdog", "inputs sampled up to 1 MiB; growth measured on repeated structures"),
"C24": ("runtime monitor: each statement of a random script compared with its parse alone", "scripts mix valid, invalid and empty statements and separators"),
"C25": ("runtime monitor: reference precedence parser compared with the parsed tree", "random token sequences and fully parenthesised renderings; all operator pairs and triples enumerated"),
"C26": ("runtime monitor: literals rendered from known values, in every spelling, and compared", "values sampled, all bytes and escapes enumerated"),
"C27": ("runtime monitor: metamorphic re-layout of generated statements", "several layouts of each statement compared with each other"),
"C28": ("runtime monitor: generated statements compared field by field with the parsed AST", "generator and renderer independent of the parser's printer"),
"C29": ("runtime monitor: print and re-parse oracle on generated statements", "restricted to the vocabulary named in the property"),
"C30": ("runtime monitor: reader failed at every position, error positions compared", "every byte position of each generated script is failed once"),
"C31": ("runtime monitor: data bytes left after COPY compared with the bytes written", "data contents and surrounding statements sampled"),
"C32": ("runtime monitor: definitions with planted faults against a reference validity judgement", "well-formed and faulty definitions sampled"),
"C33": ("runtime monitor: console process output compared with the parser's answers", "the real program, run as a process"),
"C34": ("runtime monitor: fault-injecting store wrapper, each store call failed in turn, catalog compared with a model", "every call of every generated operation is failed once, before and after it took effect; operations and catalogs sampled"),
"C35": ("runtime monitor: rendered values, rows and column lists compared with what they were rendered from", "notation and comparisons against references that share no code with them; texts sampled"),
"C36": ("runtime monitor: live heap, goroutines and open files compared before and after repeated cycles", "cycles that end where they began, of every part; growth per cycle above the noise of the collector is a violation"),
"C37": ("runtime monitor: wrappers which copy, compare and then overwrite every argument and result, under the model checkers", "the histories of the other checks run through the wrappers"),
"C38": ("race detector and runtime monitors: the other checks' cases run by several goroutines at once", "pairings of cases and schedules sampled"),
}
LEVEL = {"C34": "fault_enumeration", "C19": "fault_enumeration", "C30": "fault_enumeration"}
reg = set()
for fn in os.listdir(os.path.join(HERE, "mon")):
    if fn.endswith(".go"):
        reg |= set(re.findall(r'ID: "(C\d\d)"', open(os.path.join(HERE, "mon", fn)).read()))
NA = {}
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for p in props:
    if p in reg:
        checks.append({"property": p, "quick_cmd": "python3 run.py %s quick" % p,
            "thorough_cmd": "python3 run.py %s thorough" % p,
            "evidence_file": "evidence/%s.json" % p, "technique": T[p][0],
            "level": LEVEL.get(p, "exploration"),
            "level_note": T[p][1] + ". Holds on the executions counted in the evidence; trusts the reference model in mon/."})
    else:
        NA.setdefault(p, "no check built yet")
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks,
     "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NA.items())],
     "notes": "No hooks: every check observes the public API of the packages, or the console program."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
print(len(checks), "checks,", len(NA), "not applicable")
