"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
ORACLE = {
 "C01": "re-evaluation of every request on fresh objects in a pristine process, plus independent field formulas",
 "C02": "re-evaluation of every request on fresh objects in a pristine process (no threads, no sharing)",
 "C03": "fingerprints of everything the callers hold, checked after every operation and in part of the runs at every thread switch",
 "C04": "each integration repeated alone on fresh objects in a pristine process",
 "C05": "an independent float64 reference integrator",
 "C06": "an independent schedule model (step counts, saved times) and step-by-step integration",
 "C07": "the same experiment on another clock, and the reference schedule",
 "C08": "the uninterrupted integration, in the same and in a newly forked or started interpreter",
 "C09": "records computed from the dataset description, independent of the storage",
 "C10": "fields of the individual states in a pristine process, and the states themselves after the round trip",
 "C11": "the same operation on the individual elements in a pristine process",
 "C12": "re-evaluation on fresh terms, and independent formulas of every forcing term",
 "C13": "conservation laws, analytic Rossby-Haurwitz phase speed, and the mirrored or rotated experiment",
 "C14": "canonical content of the same figure drawn alone in a pristine process, plus the fields expected in it",
 "C15": "the same request on a fresh grid in a pristine process, plus independent formulas",
 "C17": "the same request under default settings in a pristine process or a newly started interpreter, and snapshots of all process-wide settings",
 "C18": "counts of live objects and of bytes allocated by the package, before and after rounds of the same requests, during runs and at the end",
 "C16": "the same request in a process with all packages; requests that need a missing package must fail",
}
NA = {
 "D01": "a pure function of its input arrays: no schedule, clock, fault or history enters, so there is nothing for a simulator to decide (C05, C09 and C13 use these operators and would notice gross errors)",
 "D02": "pure arithmetic on arrays; no schedule, clock, fault or history for the property to depend on",
 "D03": "pure function of one field; no schedule, clock, fault or history for the property to depend on",
 "D04": "pure function of the selection; no schedule, clock, fault or history for the property to depend on",
 "D05": "mathematical definitions of pure functions; no schedule, clock, fault or history for the property to depend on",
 "D06": "pure function of one profile; no schedule, clock, fault or history for the property to depend on",
 "D07": "pure functions of grid and parameters; no schedule, clock, fault or history for the property to depend on",
 "D08": "pure helper functions; no schedule, clock, fault or history for the property to depend on",
}
checks = []
for p in props:
    i = p["id"]
    if i in NA:
        continue
    checks.append(dict(property=i, quick_cmd=f"python3 sim/run.py check {i}", thorough_cmd=f"VERIF_TIER=thorough python3 sim/run.py check {i}",
        evidence_file=f"evidence/{i}.json",
        technique="deterministic simulation: seeded search over thread schedules, operation histories and injected faults",
        level="exploration",
        level_note=f"Seeded sample of simulated runs of the real package; oracle: {ORACLE[i]}. Evidence, not proof. Assumes switches and asynchronous faults "
                   "only at lines or bytecodes of the package and at calls into spharm, callbacks and storage; numpy, scipy and spharm run atomically and are trusted; "
                   "grids are small (7 to 19 latitudes)."))
m = dict(version=1, setup_cmd="python3 sim/run.py setup",
    hooks=dict(guard="none", enable="no hooks in /repo: the seams are sys.settrace, patched spharm, matplotlib and xarray backend entry points, patched locks and the import system, all installed by /verif/sim in its own processes", source_commits=[]),
    checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
    notes="Replay a violation with: python3 sim/run.py replay <file>. Determinism self-test: python3 sim/run.py selftest C01 C02 ... . Defects found and repaired are in known_findings.json.")
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
import subprocess
sys_ok = subprocess.run(["python3-vt", "-c", "import json,jsonschema;jsonschema.validate(json.load(open('%s/MANIFEST.json'%'" + V + "')),json.load(open('/root/.vp/MANIFEST.schema.json')));print('manifest valid')"])
