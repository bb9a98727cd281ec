#!/usr/bin/env python3
"""replay.py FILE: replays a recorded failure on the code of /repo, compiled natively."""
import json, os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
d = json.load(open(sys.argv[1]))
if d['config'] is None:
    print('the backend does not build here; failed obligations:', d['failed_obligations'])
    sys.exit(1)
r = check.Run(d['property'], 'quick')
r.work = os.path.join(check.HERE, 'build', 'replay')
shutil.rmtree(r.work, ignore_errors=True)
b = r.native(d['config'], d.get('crowd', False))
if not b:
    print('\n'.join(r.notes))
    sys.exit(2)
if 'random_seed' in d:
    rc, out = r.native_run(b, d['harness'], 'seed', d['random_seed'])
elif 'history' in d:
    rc, out = r.native_run(b, d['harness'], 'histories', '0', d['history'])
elif 'schedule' in d:
    rc, out = r.native_run(b, d['harness'], 'schedule', d['schedule'])
elif 'values' in d:
    rc, out = r.native_run(b, d['harness'], 'values', os.path.abspath(sys.argv[1]))
else:
    print('the verifier gave no failing input; failed obligations:', d['failed_obligations'])
    sys.exit(1)
print(out)
sys.exit(1 if rc in (101, -1) else 0)
