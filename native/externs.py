#!/usr/bin/env python3
"""print the rustc flags that link against the dependencies that /opt/vp/build.sh left compiled
usage: externs.py <member crate> [crate...]   (all direct dependencies of the member when none are named)"""
import glob, json, os, sys
T = '/opt/vp/ws/target/debug'
FP = T + '/.fingerprint'
def hexfile(p):
    h = open(p).read().strip()
    return int.from_bytes(bytes.fromhex(h), 'little')
def member(name):
    c = []
    for d in glob.glob(f'{FP}/{name}-*'):
        for j in glob.glob(d + '/lib-*.json') + glob.glob(d + '/test-lib-*.json'):
            c.append((os.path.getmtime(j), j))
    # prefer the plain library
    c.sort(key=lambda x: ('/test-lib-' in x[1], -x[0]))
    return c[0][1]
def table():
    t = {}
    for d in os.listdir(FP):
        for f in os.listdir(FP + '/' + d):
            if f.startswith('lib-') and '.' not in f:
                try: t[hexfile(f'{FP}/{d}/{f}')] = (d, f[4:])
                except Exception: pass
    return t
def main():
    want = set(sys.argv[2:])
    j = json.load(open(member(sys.argv[1]))); t = table(); out = []
    for pkg, name, pub, fp in j['deps']:
        if fp not in t or (want and name not in want): continue
        d, real = t[fp]; h = d.rsplit('-', 1)[1]
        for ext in ('.rlib', '.so'):
            p = f'{T}/deps/lib{real}-{h}{ext}'
            if os.path.exists(p): out.append(f'--extern {name}={p}'); break
    out.append(f'-L dependency={T}/deps')
    for b in glob.glob(T + '/build/*/out'):
        if any(x.endswith(('.a', '.so')) for x in os.listdir(b)): out.append(f'-L native={b}')
    print(' '.join(out))
main()
