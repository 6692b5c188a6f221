"""Writes MANIFEST.json from properties.jsonl and the check modules that exist (development helper)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl') if l.strip()]
NA = {'C18': 'Hamiltonian constructors are pure functions of their arguments: no schedule, fault, clock, history or randomness enters, so a simulator has nothing to decide (products of wrong Hamiltonians still surface through C10 and C11, whose reference is built independently from local terms).',
      'C19': 'Tensor-network contraction is a pure function of its arguments: no schedule, fault, clock or history enters; deciding it would be plain differential testing, another technique.',
      'C20': 'Pure functions of their arguments (combinatorics, encodings, interpolation); nothing for a scheduler or a fault injector to decide.'}
TECH = {
 'C01': 'deterministic simulation of engine runs on a simulated disk: crash at every journal position and inside writes, kill and power-loss models, disk errors; seeded search',
 'C02': 'deterministic simulation: crash at checkpoints, restart from surviving file in a new simulation, refinement against the uninterrupted run; seeded search',
 'C03': 'deterministic simulation: seeded divisions of evolutions against a dense state-vector reference model with exact counters',
 'C04': 'deterministic simulation on a simulated disk: directory model checked after every disk operation; seeded search',
 'C05': 'deterministic simulation: seeded save/load schedules with disk faults against a twin that was never saved',
 'C06': 'deterministic simulation: seeded observation schedules between steps, refinement against the unobserved run and the dense state vector',
 'C07': 'deterministic simulation of threads under a seeded line-level scheduler and of aliasing histories, against solo runs',
 'C08': 'deterministic simulation: seeded operation histories with injected decomposition failures against a dense reference model',
 'C09': 'deterministic simulation: seeded gate/truncation histories with injected decomposition failures against a dense reference model',
 'C10': 'deterministic simulation: seeded engine histories against exact evolution of the state vector, invariants after every call',
 'C11': 'deterministic simulation: seeded DMRG histories with injected solver failures against exact diagonalisation; progress bound',
 'C12': 'deterministic simulation: seeded transient failures of the numerical back ends, refinement against the failure-free run, bounded attempts',
 'C13': 'deterministic simulation: seeded arithmetic histories with injected decomposition failures against a dense reference model',
 'C14': 'deterministic simulation: seeded regauging histories of infinite states with injected eigensolver failures against a transfer-matrix reference',
 'C15': 'deterministic simulation: seeded starts and schedules of infinite-system optimisers with call budgets, against exact energy densities',
 'C16': 'deterministic simulation: seeded disk and solver faults mid-run, run continued, against the undisturbed run',
 'C17': 'deterministic simulation: the same seeded program executed under different process environments, event digests compared',
}
NOTE = 'Seeded search: holds on every explored run, not proved for all. Real library code runs; only the seams named in the evidence are simulated. Comparisons use documented tolerances (see DESIGN.md).'
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists('%s/sim/checks/%s.py' % (V, i.lower())):
        src = open('%s/sim/checks/%s.py' % (V, i.lower())).read()
        level = 'fault_enumeration' if "LEVEL = 'fault_enumeration'" in src else 'exploration'
        c = '/opt/pvenv/bin/python check.py %s --tier ' % i
        checks.append({'property': i, 'quick_cmd': c + 'quick', 'thorough_cmd': c + 'thorough', 'evidence_file': 'evidence/%s.json' % i, 'technique': TECH[i], 'level': level, 'level_note': NOTE})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'The check for this property is still being built.')})
json.dump({'version': 1, 'setup_cmd': '/opt/pvenv/bin/python -c "import sys; sys.path.insert(0, \'.\'); from sim import boot; boot.lib()"', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: the seams sit on module attributes (see DESIGN.md). Replay a violation with: /opt/pvenv/bin/python check.py replay <file>'}, open(V + '/MANIFEST.json', 'w'), indent=1)
