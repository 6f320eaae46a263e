"""writes MANIFEST.json from the properties and the check modules present"""
import json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
TECH = {
    "C01": "runtime monitoring: contraction oracle (einsum) over generated networks and over every ncon call of live library runs",
    "C02": "runtime monitoring: factorisation contracts checked on generated matrices, under injected LAPACK failures and on every call of live runs",
    "C03": "runtime monitoring: dense-state oracle over constructed states and histories of centre moves",
    "C04": "runtime monitoring: dense-state oracle and truncation-error contract over truncation histories",
    "C05": "runtime monitoring: linear-algebra oracle over random expression histories of MPS arithmetic",
    "C06": "runtime monitoring: dense inner-product oracle over generated pairs of states",
    "C07": "runtime monitoring: dense expectation-value oracle over generated states, operators and histories",
    "C08": "runtime monitoring: dense gate oracle over random circuits with online contracts on every gate",
    "C09": "runtime monitoring: dense operator oracle over generated MPOs and states",
    "C10": "runtime monitoring: canonical-form invariants and dense Schmidt oracle over generated states",
    "C11": "runtime monitoring: gauge invariants, fidelity and density-matrix oracle over histories of gauge changes of infinite states",
    "C12": "runtime monitoring: dense transfer-matrix oracle over generated tensors",
    "C13": "runtime monitoring: independently built many-body Hamiltonians as oracle over generated couplings",
    "C14": "runtime monitoring: dense exponential oracle over generated models, bonds and steps",
    "C15": "runtime monitoring: dense projection oracle over generated networks and histories of engine centre moves",
    "C16": "runtime monitoring: spectral oracle (full diagonalisation) and online residual contracts on every eigensolver call of live DMRG runs",
    "C17": "runtime monitoring: dense exponential oracle, conservation and composition checks over generated operators and steps",
    "C18": "runtime monitoring: exact-diagonalisation oracle and sweep-by-sweep invariants over generated DMRG histories",
    "C19": "runtime monitoring: exact evolution with rigorous Trotter/truncation budgets and gate monitors over generated TEBD histories",
    "C20": "runtime monitoring: exact evolution, conservation laws and reversal over generated TDVP histories",
    "C21": "runtime monitoring: independent energy density, stationarity and isometry oracles over runs of the infinite-system engines",
    "C22": "runtime monitoring: linear-equation residual oracle (dense transfer matrices) over generated infinite states",
    "C23": "runtime monitoring: fault injection (killed processes, torn writes) with state-equality oracles over save/load/checkpoint histories",
    "C24": "runtime monitoring: exact integer and combinatorial oracles over generated arguments",
    "C25": "runtime monitoring: bitwise snapshots and aliasing probes around every public call of generated workloads",
    "C26": "runtime monitoring: dense projected-gradient oracle and energy-balance checks over generated states and step histories",
    "C27": "runtime monitoring: dense reference oracles over generated tensors, states and periodic chains",
    "C28": "runtime monitoring: inadmissible-call injection with state-equality oracles over generated states and centre positions",
    "C29": "runtime monitoring: model-based random programs of public operations and engine runs, every pool state audited against its exact vector after each operation",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(here, "harness/props", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": "./check.sh %s" % i, "thorough_cmd": "VERIF_TIER=thorough ./check.sh %s" % i,
                       "technique": TECH[i], "level": "exploration",
                       "level_note": "observes executions of the real code on generated workloads; the oracle is exact (dense reference), reach is that of the workloads (see evidence)"})
    else:
        na.append({"property": i, "reason": "check under construction"})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
