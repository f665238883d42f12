"""Write MANIFEST.json from properties.jsonl and the check modules."""
import importlib
import json
import os
import sys
sys.path.insert(0, '/verif')
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import tempfile
from symx import patch
patch.boot(tempfile.mkdtemp())
NA = {
    'C35': 'repr/eval round trip goes through string formatting of live '
           'functions and eval of source text; there is no numeric or '
           'control-flow property left for a solver once the text is opaque.',
    'C36': 'the download path is network I/O in a third-party package '
           '(zenodo_get) that cannot run or be encoded offline.',
}
props = [json.loads(x) for x in open('/verif/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists('/verif/checks/%s.py' % i.lower()):
        m = importlib.import_module('checks.' + i.lower())
        checks.append(dict(
            property=i, quick_cmd='./run.py %s --tier quick' % i,
            thorough_cmd='./run.py %s --tier thorough' % i,
            technique=getattr(m, 'TECHNIQUE', 'symbolic execution of the real '
                              'Python functions with symbolic numpy values; '
                              'assertions decided by SMT (z3, cvc5) and '
                              'counterexamples replayed on the real code'),
            level='model_checking',
            level_note=m.BOUNDS))
    else:
        na.append(dict(property=i, reason=NA.get(
            i, 'check not built yet')))
man = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
           notes='run.py is the single entry point; see DESIGN.md.')
json.dump(man, open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
try:
    import jsonschema
    jsonschema.validate(man, json.load(open('/root/.vp/MANIFEST.schema.json')))
    ps = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for p in props:
        jsonschema.validate(p, ps)
except Exception as e:
    print('schema:', str(e)[:500])
