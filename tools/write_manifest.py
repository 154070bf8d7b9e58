"""Regenerate MANIFEST.json from properties.jsonl and the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = ("Seeded search, not exhaustive: a pass is evidence over the runs counted in the evidence file. Trusted: CPython, "
         "numpy, h5py/HDF5, the kernel's tmpfs and mmap, and the simulator's own encoders and reference definitions in /verif/sim.")

# property -> what the check compares with what
CHECKS = {}


def check(p, note):
    CHECKS[p] = note


check("P01", "Real LJH readers on a file a simulated DAQ grows byte by byte; every value compared with what the DAQ encoded.")
check("P02", "Real OFF reader on a growing file (torn appends, failing opens and maps) compared with the records encoded and "
      "with a freshly opened object.")
check("P03", "Real label attribution over random histories cut into random refreshes, compared with an independent definition "
      "and with loading the finished files at once.")
check("P04", "Real state-file parser on a file growing byte by byte with failing opens, compared with the complete lines on disk.")
check("P05", "Real ChannelGroup refreshed over random acquisition histories (torn writes, refreshes racing with writes, failing "
      "opens), compared with the definition and with a freshly opened group.")

check("P06", "Real trigger association (function, OFF group, LJH group) over random trigger/record histories, chunked refreshes and "
      "restarts, compared with brute force.")
check("P07", "Real LJH copy/append/truncate/modify/merge over random histories with full disks and failing opens, compared with a "
      "model of each file's records and header facts.")
check("P08", "Real LJH-to-OFF conversion over random acquisitions with full disks and failing opens, compared with an independent "
      "decoder and the linear-algebra definition, and byte for byte with an undisturbed conversion.")
check("P09", "Real TES pipeline over random histories of steps and restarts; what a reopened or read-only analysis presents is compared with "
      "what the session that made it presented, and later steps with those of one undisturbed session.")
check("P10", "Real TES pipeline with an interrupt, exception or failed cache write at any write to the HDF5 cache; the repeated step and "
      "everything after it compared with an undisturbed run.")
check("P11", "Real summarise/average/filter steps repeated with random segment sizes, channel orders, alone or together, compiled or plain, "
      "on random acquisitions with torn tails, compared with one segment per file.")

check("P12", "Real cut fields and categories over random register/apply/clear/restart histories with interrupted requests, compared with "
      "sets of pulses.")

check("P13", "Real TES pipeline steps with an exception injected into one channel's computation or cache writes; that channel's mark and "
      "everything of the other channels compared with an undisturbed run, and histories of bad marks with a model.")

check("P14", "Real OFF group operations with an exception injected while one channel is being processed; that channel's mark and the "
      "results of every other channel compared with each channel alone, and histories of bad marks with a model.")

check("P15", "Real calibrations, corrections and pulse models over random edits, saves interrupted at any cache write and loads; loaded objects "
      "compared bit for bit with what was saved, calibrations with a model of their points and with a new one having the same points.")

check("P16", "Real recipe books of real OFF channels over random histories of recipe definitions, cuts, evaluations with every index form, and saves "
      "and loads with full disk, failing opens, interruption and process death; values compared with a reference composition.")

check("P17", "Real groups, readers, converters and OFF groups over one scratch acquisition directory, with misdirected outputs, caches held by another "
      "session, growing files, I/O faults, full disk and interruption; every raw byte and the directory listing compared after each step.")

check("P19", "Real TESGroups with random channel maps, veto windows and arrival times; lists and flags set, forced anew, interrupted at any cache write (Ctrl-C, I/O error, "
      "process death), repeated and reopened; every list and flag compared with its definition by exhaustive comparison of integer times. Seeded search over "
      "maps, windows, histories and faults.")

check("P20", "Real OFF groups over growing files and real TESGroups with random cuts, states, categories and marks; every histogram and exported file compared with a "
      "reference that counts the encoded pulses one by one, exports hit by failing or interrupting writes or a full disk and repeated. Seeded search over histories "
      "and faults.")

check("P21", "Real groups opened in random directories of several runs (patterns, lists, choices of channels, failing opens), compared with the files "
      "the choice means.")

check("P22", "Real noise analysis over random noise files and histories of steps, failing cache writes and restarts, compared with numpy definitions of spectrum and"
      "autocorrelation.")

check("P18", "Real files, groups and tools opened, refreshed, used, closed and dropped in random histories, many with only k file descriptors left, "
      "failing opens or interruptions; every descriptor and map of the process counted after each step; failed steps repeated without the fault.")

PENDING = "not built yet"
NOT_APPLICABLE = {
    "P30": "A pure function of its arrays: no schedule, clock, I/O, fault or history for a simulator to decide.",
    "P31": "Pure numerical models and fits of one in-memory histogram: no schedule, clock, I/O, fault or history to simulate.",
    "P32": "The arithmetic of a curve is a pure function of its points; the history-dependent part (saving, loading, editing) is P15.",
    "P33": "Pure numerical helpers: no schedule, clock, I/O, fault or history to simulate.",
    "P34": "Pure functions of tabulated physics data: no schedule, clock, I/O, fault or history to simulate.",
}

props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        checks.append({
            "property": i, "quick_cmd": f"./check {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": "deterministic simulation with fault injection (seeded search over schedules and faults)",
            "level": "exploration", "level_note": CHECKS[i] + " " + TRUST})
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, PENDING)})
m = {"version": 1, "setup_cmd": "./setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every seam is at the boundary to the interpreter, h5py and the kernel (sim/faults.py). "
              "./check P01 --replay FILE re-executes a replay file. Known and repaired defects: known_findings.json, DESIGN.md."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
