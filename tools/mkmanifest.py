"""Writes MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
SIM = "deterministic simulation with fault injection: "
C = {
 "C01": ("seeded thread schedules of first import and first use", "Sampled interleavings of 2-4 threads at line, call, bytecode, read and lock granularity over generated data files; real package code under the simulator's scheduler and module locks."),
 "C02": ("failed loads (I/O faults, damage, interruption) followed by retries", "Sampled fault points and sequences of failing and successful first uses with the file replaced in between; the generated file is the oracle."),
 "C03": ("truncation points and short reads", "Sampled truncation points over generated data files, biased to structure boundaries; every answer is compared with the complete file's model."),
 "C04": ("interleaved iterators, lookups and reloads against a name model", "Sampled histories and schedules over generated name tables; the model is built from the same description as the table, not from the code."),
 "C05": ("generated data files, seeded load orders and threads against the stored values", "Sampled files (random formats, widths, positions), load orders and schedules; the encoder's input is the oracle."),
 "C06": ("interleaved, abandoned and failing enumerations against point lookup", "Sampled tries (random and built-in), spans, callbacks and schedules; the oracle is the trie's model, or point lookup for built-in tries."),
 "C07": ("seeded operation histories against the mathematical set", "Sampled histories of public operations on several sets; a small independent set model checked after every operation."),
 "C08": ("exceptions injected at any line of set updates", "Sampled histories with an exception at a sampled line, call or (some runs) bytecode; the set must be old or new and keep working."),
 "C09": ("seeded schedules of threads that read shared and update own sets", "Sampled schedules at line and bytecode granularity; every thread is compared with a lone-thread model."),
 "C10": ("histories, threads, interrupts and caller mutation against first-call answers", "Sampled histories and schedules; the reference is the answer of a process forked before any call, so values that are wrong from the start are out of scope."),
 "C11": ("builder run as a process under disk faults, judged against the source model", "Sampled fault points and kinds on every open, read, write, close, mkdir and chmod over generated ICU trees; the output is executed and compared with the tree's model. FontDocTools.ArgumentIterator is a stub."),
 "C12": ("crash at any line or disk operation, then rebuild", "Sampled crash and fault points, clocks, zones, earlier output and string hashing; the rebuild is compared with an undisturbed build. Process death, not power loss."),
 "C13": ("crash or fault at any point of an install, then reinstall; installs interleaved at every line and disk operation", "Sampled crash and fault points over sampled earlier states; each file must be old or new, success must mean identical. Process death, not power loss."),
 "C14": ("seeded threads, streams, interruptions and changes of elements against an attribute model", "Sampled documents, histories and schedules; every object is compared field by field with a table of attributes when it is built and again at the end."),
 "C15": ("installer replacing the data file while seeded threads import and use it", "Sampled interleavings of the real installer with 1-3 threads; the oracle is the set of generated versions that explain every answer so far, which must never become empty. POSIX rename on a shared file system is assumed."),
 "C16": ("histories of faulty and killed builds and installs, then fresh processes that answer from the result", "Sampled histories over synthetic ICU versions with a known meaning; builder, installer, the installed package and its bytecode cache are real. FontDocTools.ArgumentIterator is a stub. Process death, not power loss."),
}
PURE = "Pure function of its argument over constant tables: no schedule, clock, fault, I/O or history can change the answer (that part is C10), so a simulator has nothing to vary; "
NA = {
 "N01": PURE + "it needs enumeration against the Unicode Character Database, which is not available here.",
 "N02": PURE + "exhaustive enumeration over code points decides it.",
 "N03": PURE + "exhaustive enumeration over code points decides it.",
 "N04": PURE + "exhaustive enumeration over code points decides it.",
 "N05": PURE + "exhaustive enumeration over code points decides it.",
 "N06": "Pure arithmetic on its argument: no schedule, clock, fault, I/O or history for a simulator to vary.",
}
checks = []
for p, (t, note) in C.items():
    cmd = "cd /verif && %s -m sim.runner %s " % (PY, p)
    checks.append(dict(property=p, quick_cmd=cmd + "quick", thorough_cmd=cmd + "thorough", technique=SIM + t, level="exploration", level_note=note,
                       evidence_file="evidence/%s.json" % p))
na = []
for line in open(os.path.join(HERE, "properties.jsonl")):
    d = json.loads(line)
    if d["id"] not in C:
        na.append(dict(property=d["id"], reason=NA[d["id"]]))
m = dict(version=1, setup_cmd="cd /verif && /opt/venv/bin/python -c 'import sim.runner, sim.scenarios'", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the seams are sys.monitoring events, builtins.open and os, the import locks, threading locks, time and datetime, all replaced inside the simulated process. See DESIGN.md.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
