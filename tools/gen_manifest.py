"""Writes MANIFEST.json from the property modules that exist."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
TECH = {
    'C01': 'property-based differential testing against an independent float64 reference cascade',
    'C02': 'property-based testing against closed-form filters and design invariants',
    'C03': 'property-based differential (reference) and metamorphic testing between averaging modes and strides',
    'C04': 'property-based testing of metadata against a reference model and against the labelled output',
    'C05': 'property-based differential testing between output formats',
    'C06': 'property-based differential testing against an independent float64 reference cascade',
    'C07': 'property-based testing against closed-form filters',
    'C08': 'property-based testing of labels against the reference, with plane-wave probes',
    'C09': 'property-based differential testing against an independent float64 reference',
    'C10': 'property-based testing against closed-form filters',
    'C11': 'property-based metamorphic testing (translations, signed permutations, scaling)',
    'C12': 'property-based differential testing against an independent float64 reference',
    'C13': 'property-based testing of metadata and formats against a reference model',
    'C14': 'property-based differential testing between frontends',
    'C15': 'property-based metamorphic testing (batch vs elements)',
    'C16': 'stateful property-based testing of operation histories over several live objects',
    'C17': 'stateful property-based testing of torch module operations',
    'C18': 'property-based testing of gradients against dual-number derivatives of the reference',
    'C19': 'property-based metamorphic testing (scaling, offset, contraction)',
    'C20': 'property-based metamorphic testing (reversal, shift, transposition)',
    'C21': 'generated invalid and valid arguments against a specification of accepted domains',
    'C22': 'property-based testing of backend primitives against NumPy models',
    'C23': 'property-based differential testing of scikit-learn and Keras wrappers',
    'C24': 'stateful property-based testing of the cache directory functions against a file system model',
    'C25': 'property-based differential testing of compiled against eager calls',
    'C26': 'property-based testing against the closed-form sum',
    'C27': 'property-based testing of the frontend selector against the frontend classes',
    'C29': 'stateful property-based testing: histories repeated under weak references and array censuses',
    'C30': 'stateful property-based testing of process-wide settings, and metamorphic testing under generated settings and processes',
    'C28': 'generated thread schedules and injected faults, compared with undisturbed runs',
}
checks, na = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    pid = json.loads(line)['id']
    if os.path.exists(os.path.join(HERE, 'kvp', 'props', pid.lower() + '.py')):
        cmd = '%s run_check.py %s' % (PY, pid)
        checks.append(dict(
            property=pid, quick_cmd=cmd + ' --tier quick', thorough_cmd=cmd + ' --tier thorough',
            evidence_file='evidence/%s.json' % pid, technique=TECH[pid], level='exploration',
            level_note='Generated inputs within the bounds given in DESIGN.md; seeds derive from VERIF_SEED, failures are '
                       'shrunk by Hypothesis and written as replay files.'))
    else:
        na.append(dict(property=pid, reason='check not built yet'))
m = dict(version=1, setup_cmd='%s run_check.py --selftest' % PY, checks=checks, not_applicable=na,
         notes='Checks import /repo directly (editable install); nothing is built. Known findings: KNOWN_FINDINGS.json.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', [x['property'] for x in na])
