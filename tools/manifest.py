"""Writes /verif/MANIFEST.json from the check modules present."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
TECH = {
 'C01': 'runtime monitoring of fits against a directly computed Welch cross-spectral density',
 'C02': 'metamorphic runtime monitoring: laws relating several observed fits',
 'C03': 'runtime monitoring of MPI processes with injected delays against the serial fit',
 'C04': 'runtime monitoring of streaming fits against a direct evaluation of the recursion',
 'C05': 'metamorphic runtime monitoring over supply forms and splits, serial and MPI',
 'C06': 'runtime monitoring of save / interrupt / reuse histories with injected loss of block files',
 'C07': 'runtime monitoring of coefficients and reconstructions against weighted least squares',
 'C08': 'runtime monitoring of convolution coefficients against direct sums',
 'C09': 'runtime monitoring of POD fits, coefficients and reconstructions, serial and MPI',
 'C10': 'runtime monitoring of MPI processes running random sequences of parallel operations with injected delays',
 'C11': 'runtime monitoring of normalization and quadrature against direct formulas and invariances',
 'C12': 'history monitoring: digests of inputs and result files around every call of random call sequences',
 'C13': 'runtime monitoring: result files re-read in separate processes against reported values',
 'C14': 'runtime monitoring of fits of synthetic oscillations with known spectrum',
 'C15': 'runtime monitoring of invalid and limiting requests, serial and on all MPI processes',
 'C16': 'runtime monitoring of return values against direct formulas',
 'C17': 'runtime monitoring with recording stand-ins for the trained networks',
 'C18': 'write-read monitoring of configuration and data files',
 'C19': 'runtime monitoring of the calls made on the plotting library',
 'C20': 'runtime monitoring of MPI processes with injected delays against serial post-processing',
}
NOTE = ('Exploration of random realistic, hostile and limiting workloads on the real code; the verdict is that of an oracle written independently of the code '
        '(direct formulas, plain numpy re-reading of files). Trusts numpy/scipy, Open MPI and the harness; says nothing about inputs not run.')
EXTRA = {
 'C03': ' Interleavings are those the operating system and the injected delays produce on one host, not all.',
 'C10': ' Interleavings are those the operating system and the injected delays produce on one host, not all.',
 'C20': ' Interleavings are those the operating system and the injected delays produce on one host, not all.',
 'C04': ' The block schedule after the first pass is a known finding; values are judged against the schedule the code documents where both agree.',
 'C06': ' Losses of whole block files are enumerated at random; half-written files are not.',
}
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'vmon', 'checks', i.lower() + '.py')):
        checks.append(dict(property=i, quick_cmd=f'./check {i}', thorough_cmd=f'VERIF_TIER=thorough ./check {i}', technique=TECH[i], level='exploration', level_note=NOTE + EXTRA.get(i, '')))
    else: na.append(dict(property=i, reason='check not built yet'))
m = dict(version=1, setup_cmd='./setup', checks=checks, not_applicable=na,
         notes='No hooks in /repo: the checks import /repo as it is and observe results, files, communicator calls and plotting calls from outside. Known findings in known_findings.txt.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
