#!/usr/bin/env python3
"""Development aid: run the native form of every contract on the current tree.
A failure here means the replay of a contract would blame code that is right."""
import os, sys, json, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
from concurrent.futures import ThreadPoolExecutor
cfg = json.load(open(os.path.join(check.VERIF, 'contracts', 'config.json')))
bad = 0
for pid in sys.argv[1:] or sorted(cfg):
    if cfg[pid].get('no_replay'):
        continue
    exe, errs = check.build_native(pid, cfg[pid])
    if not exe:
        print(pid, 'native form does not build', errs[0][1][:1500]); bad += 1; continue
    names = subprocess.run([exe, '--list'], capture_output=True, text=True).stdout.split()

    def one(n):
        of = f'/tmp/ns_{pid}_{n}.txt'
        r = subprocess.run([exe, '--model', '/dev/null', '--trials', '400', '--seed', '7', '--budget', '30', '--out', of, n], capture_output=True, text=True)
        return n, r.returncode, r.stdout[-200:], (open(of).read()[:400] if r.returncode and os.path.exists(of) else '')
    with ThreadPoolExecutor(8) as ex:
        for n, rc, out, txt in ex.map(one, names):
            if rc:
                bad += 1
                print(pid, n, 'rc', rc, out, txt)
    print(pid, len(names), 'native contracts run')
sys.exit(bad > 0)
