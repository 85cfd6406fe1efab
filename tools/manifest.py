"""Write MANIFEST.json: one entry for every property that has a check."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = " Trusted: Python, qiskit's circuit data structure, and the monitors in /verif/mon (checked against each other by mon/selftest.py at set-up)."
SIM = "Explores generated histories; every execution is observed completely, as stabilizer states are, but histories and sizes outside the generated ones are not seen."
GEN = "Explores generated inputs against an independent oracle; small instances exhaustively, larger ones by sampling."
T = {
 "C01": ("runtime monitor: stabilizer-state observer of the executing circuit against ideal plaquette projections", SIM),
 "C02": ("runtime monitor: fault injection into the executing circuit, observed signatures, lightest undetected error executed", SIM),
 "C03": ("runtime monitor: online checker of random operation histories against an ideal-qubit specification", SIM),
 "C04": ("runtime monitor: stabilizer-state observer of logical CX histories against ideal CNOTs", SIM),
 "C05": ("runtime monitor: differential event-stream monitor (shared circuit against stand-alone qubit) with footprint checks", SIM),
 "C06": ("generated readout strings with an independent parser as online oracle", GEN),
 "C07": ("runtime monitor: stabilizer-state observer and fault injection at lattice readouts", SIM),
 "C08": ("fault injection into the executing circuit; the observed fault graph is compared with the decoder's", GEN),
 "C09": ("fault injection campaigns through executing circuit and decoder, verdict on decoded value", SIM),
 "C10": ("generated syndromes decoded by the real decoder, exact minimum-weight oracle and matching-validity monitor", GEN),
 "C11": ("generated syndromes, shortest-path-counting oracle on edge weights, exact weighted-matching oracle on decodings", GEN),
 "C12": ("history monitor: repeated, interleaved, cross-process decodings compared, with deep snapshots of arguments and decoder", GEN),
 "C13": ("enumeration of error patterns through executing circuit and decoder against majority vote", GEN),
 "C14": ("history monitor: random table operations against a reference model with exact rational Bayes", GEN),
 "C15": ("generated counts, recording decoders, and recomputation oracle", GEN),
 "C16": ("history monitor of sweeps with recording decoder and deterministic noise", GEN),
 "C17": ("fault injection: process killed at every file-system event of a save, write limits for full disks, random save histories; offline checker of the files", "Enumerates every file-system event of the saves it runs as crash point, plus a series of write limits; histories of saves are sampled. A crash is a killed process: power loss with unflushed caches is not modelled."),
 "C18": ("enumeration of parameter specifications with accept/reject oracle and built-lattice observation", GEN),
 "C19": ("event-stream monitor counting identity gates, with noise injected at observed identities", SIM),
 "C20": ("circuit-level fault injection after every event of the executing circuit, lightest undetected logical fault set computed from observed signatures and executed", SIM),
 "C21": ("file and figure monitors: saved data against loaded data and drawn artists", GEN),
 "C22": ("matching and figure monitors on generated graphs", GEN),
 "C23": ("history monitor of registers against a reference model", GEN),
 "C25": ("runtime monitor: stabilizer-state observer of CX histories between logical and physical qubits against ideal CNOTs", SIM),
 "C26": ("runtime monitor of every shot: circuits run in many forms on the simulator, keys parsed and decoded, programs replayed on ideal qubits", GEN),
 "C24": ("statistical monitor of noisy end-to-end simulations against theory", "Statistical: sampled shots with margins of at least five standard deviations, so that false alarms are negligible; deviations below the margins are not seen."),
}
checks = []
for pid, (tech, note) in sorted(T.items()):
    if not os.path.exists(os.path.join(HERE, "mon", "checks", pid.lower() + ".py")):
        continue
    checks.append({
        "property": pid,
        "quick_cmd": f"bash run.sh {pid} --tier quick",
        "thorough_cmd": f"bash run.sh {pid} --tier thorough",
        "evidence_file": f"evidence/{pid}.json",
        "technique": tech,
        "level": "fault_enumeration" if pid == "C17" else "exploration",
        "level_note": note + TRUST,
    })
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
     "not_applicable": [],
     "notes": "No hooks in /repo: the monitors observe the library's live circuit objects, decoder graphs, files and figures through its interface."}
have = {c["property"] for c in checks}
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
for i in ids:
    if i not in have:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
