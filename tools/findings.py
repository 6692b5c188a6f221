"""Writes known_findings.txt from /repo's fix: commits (development helper, not used by checks)."""
import subprocess, re
P = {  # message prefix -> property
 'MPS.load restores': 'C05', 'the LinAlgError fallback': 'C08', 'overlap includes the phases': 'C13', 'MPS.copy carries': 'C08',
 'in-place addition': 'C13', 'negating an MPS': 'C13', 'MPS.conj and': 'C13', 'MPS.fromList': 'C08', 'adding MPS with a complex': 'C13',
 'measureMatrixElementList returns': 'C13', 'applyTwoSiteGate accepts': 'C09', 'measureMatrixElementList includes': 'C13',
 'MPS.applyMPO': 'C13', 'truncateMPS and update': 'C03', 'DMRG and TDVP runs start': 'C11', 'the simulated time': 'C03',
 'doTEBD with zero': 'C03', 'saving replaces': 'C01', 'time evolution removes': 'C01', 'a checkpointed time': 'C02',
 'TimeEvolutionEngine.TEBD': 'C03', 'getBoundaryHams': 'C11', 'IDMRG does not shift': 'C15', 'canonizing a finite': 'C08',
 'MPS.measure takes': 'C08', 'product states': 'C08', 'MPS.measure works': 'C08', 'MPS.conj does': 'C13', 'adding a complex': 'C13',
 'MPO.twoSiteGate': 'C10', 'TDVP evolves': 'C10', 'MPS.measure keeps': 'C08', 'MPS.dtype': 'C09', 'Lanczos time': 'C10',
 'SEXPMV': 'C10', 'one-site DMRG': 'C11', 'DMRG with the AR': 'C11', 'matrix elements of complex': 'C06',
 'infinite environments count': 'C15', 'canonizing an infinite MPS': 'C14', 'an MPO built': 'C15', 'Jordan-Wigner': 'C08', 'IDMRG runs the requested': 'C15', 'unit-cell environments repeat': 'C12'}
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout
out = []
for l in log.splitlines():
    h, m = l.split(' ', 1)
    if not m.startswith('fix: '): continue
    m = m[5:]
    p = [v for k, v in P.items() if m.startswith(k)]
    assert len(p) == 1, m
    out.append('fixed: property=%s %s before the fix it did not hold that: %s' % (p[0], h, m))
try: old = [l for l in open('/verif/known_findings.txt').read().splitlines() if l.startswith('known:')]
except OSError: old = []
open('/verif/known_findings.txt', 'w').write('\n'.join(old + out) + '\n')
