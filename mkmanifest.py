"""Write MANIFEST.json from properties.jsonl (run by hand)."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
NOTE = {
    'S': 'Random search plus exhaustive small scopes against Python ranges, brute force or exact'
         ' integer arithmetic; a clean run shows no counterexample among the cases counted in the'
         ' evidence, it is not a proof.',
    'F': 'Random and model-based search, shrunk on failure, against a dense reference model that'
         ' is indexed with Python ranges; no counterexample among the cases counted in the'
         ' evidence (small ranks and axis lengths, see assumptions there), not a proof.',
    'D': 'Random search over arrays, mappings, storage classes and index chains against a dense'
         ' reference model; no counterexample among the cases counted in the evidence, not a'
         ' proof.',
    'V': 'Random search over histories created with the real git in scratch directories, against'
         ' a model of the commit graph; trusts the git and setuptools of the sandbox; no'
         ' counterexample among the cases counted in the evidence, not a proof.',
}
TECHNIQUE = {
    'S01': 'property-based testing against range(); exhaustive small scope',
    'S02': 'property-based testing against a brute-force position table',
    'S03': 'property-based testing against brute-force enumeration of layouts',
    'S04': 'property-based testing against exact lattice arithmetic',
    'F06': 'stateful (model-based) property testing of assignment histories',
    'F07': 'stateful (model-based) property testing with an aliasing model',
    'F11': 'stateful (model-based) property testing of window chains and writes',
    'F12': 'property-based testing: round trip and differential',
    'F14': 'stateful (model-based) property testing of storages assembled from parts',
    'F15': 'property-based testing against a dictionary of elements',
    'D08': 'stateful (model-based) property testing of storages assembled from parts',
    'D01': 'property-based testing: bijection, documented formula, differential',
    'D04': 'stateful (model-based) property testing of assignment histories',
    'D05': 'stateful (model-based) property testing with an aliasing model',
    'D07': 'property-based testing with generated invalid mappings',
    'F09': 'property-based testing with generated invalid indices',
    'V01': 'model-based testing over generated git histories',
    'V02': 'property-based testing over generated ref decorations and git archives',
    'V03': 'differential and round-trip property testing over git histories',
    'V04': 'property-based testing with injected faults',
    'V05': 'metamorphic property testing of build and sdist over git histories',
    'V06': 'property-based testing of the installer over configurations and git histories',
}

checks = []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    pid = json.loads(line)['id']
    checks.append(dict(
        property=pid, quick_cmd=f'./check {pid}', thorough_cmd=f'VERIF_TIER=thorough ./check {pid}',
        evidence_file=f'evidence/{pid}.json',
        technique=TECHNIQUE.get(pid, 'property-based testing against a dense reference model'),
        level='exploration', level_note=NOTE[pid[0]]))
manifest = dict(
    version=1,
    setup_cmd='python3-vt -c "import hypothesis, packaging, setuptools" && git --version',
    checks=checks, not_applicable=[],
    notes='No hooks in /repo. ./check ID --replay FILE executes a replay file again.')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(manifest, f, indent=1)
    f.write('\n')
