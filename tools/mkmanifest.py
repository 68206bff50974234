"""Writes MANIFEST.json from the list of checks that exist (lib/checks.py) and properties.jsonl."""
import json, sys
sys.path.insert(0, '/verif/lib'); sys.dont_write_bytecode = True
import checks
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
NOTE = dict(
  default="TLA+ specification explored by TLC; the real code (rebuilt from /repo with AddressSanitizer) is executed on the generated cases and every recorded execution is decided by TLC against the specification. Trusts the driver's stand-ins for system calls and TLC; bounded by the cases generated.")
ch = [dict(property=p['id'], quick_cmd='python3 bin/check ' + p['id'], thorough_cmd='VERIF_TIER=thorough python3 bin/check ' + p['id'], technique='TLA+ specification model-checked with TLC; recorded executions of the real code validated against it by TLC, model behaviours replayed in the code',
           level='model_checking', level_note=NOTE.get(p['id'], NOTE['default'])) for p in props if p['id'] in checks.CHECKS]
na = [dict(property=p['id'], reason=checks.NOT_APPLICABLE.get(p['id'], 'specified in properties.jsonl; its check is still being built')) for p in props if p['id'] not in checks.CHECKS]
json.dump(dict(version=1, setup_cmd='python3 -c "import sys; sys.path.insert(0, \'lib\'); import core" && java -version', hooks=dict(guard='none', enable='no hooks are needed: the driver is linked with --wrap stand-ins for the system calls'), checks=ch, not_applicable=na), open('/verif/MANIFEST.json', 'w'), indent=1)
