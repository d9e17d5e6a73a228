"""./check C08 quick with its slowest cases: python3-vt tools/slow.py C08 [quick]"""
import json, os, subprocess, sys
r = subprocess.run(['./check', sys.argv[1], *(sys.argv[2:] or ['quick'])], capture_output=True, text=True, env={**os.environ, 'SYMX_V': '1000000', 'SYMX_D': '1'})
rows = []
for l in r.stdout.splitlines() + r.stderr.splitlines():
    if l.startswith('{"case"'):
        try:
            rows.append(json.loads(l))
            continue
        except ValueError:
            pass
    print(l[:600])
key = next((k for k in ('wall', 'time', 'seconds', 't') if rows and k in rows[0]), None)
print('keys', list(rows[0])[:30] if rows else None)
rows.sort(key=lambda x: -(x.get(key) or x['paths']))
for x in rows[:12]:
    print(x.get(key), x['paths'], json.dumps(x['case']))
