#!/usr/bin/env python3
"""Writes contracts/internal/*/tables.go: one lemma per constant table, with a digest of its shape and values.

Run by hand when a table is corrected; the checks use the committed files. The digests are computed from /repo's
tables as they are when this runs, so a table has to be compared with the format first."""
import json, os, re, subprocess, tempfile

REPO, VERIF = '/repo', os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MOD = 'github.com/m4tthewde/gov1/internal/'
SKIP = {'WedgeMasks'}
HEAD = '''package %s

// Generated by gen/tables.py: the constant tables of the format, by a digest of their shape and values.

import vs "github.com/m4tthewde/gov1/internal/zzvs"

func zzStep(h, v int) int { return (h*16777619 + v + 1<<20) %% 2147483647 }
'''


def dims(t):
    n = 0
    while t.startswith('['):
        n, t = n + 1, t[t.index(']') + 1:]
    return n if t == 'int' else 0


def body(name, n):
    out, x = [], name
    for k in range(n):
        pad = '\t' * (k + 1)
        out.append('%sh = zzStep(h, -len(%s))' % (pad, x))
        out.append('%sfor %s := range %s {' % (pad, 'ijklmn'[k], x))
        x += '[%s]' % 'ijklmn'[k]
    out.append('%sh = zzStep(h, %s)' % ('\t' * (n + 1), x))
    for k in reversed(range(n)):
        out.append('\t' * (k + 1) + '}')
    return '\n'.join(out)


pkgs = {}
for root, _, files in os.walk(REPO + '/internal'):
    for f in sorted(files):
        if f.endswith('.go') and not f.endswith('_test.go'):
            for l in open(os.path.join(root, f)):
                m = re.match(r'var (\w+) = ((?:\[\w*\])+int)\{', l)
                if m and m[1] not in SKIP and dims(m[2]):
                    pkgs.setdefault(os.path.relpath(root, REPO + '/internal'), []).append((m[1], dims(m[2])))

for p, tabs in sorted(pkgs.items()):
    test = 'package %s\n\nimport (\n\t"fmt"\n\t"testing"\n)\n\nfunc zzStep(h, v int) int { return (h*16777619 + v + 1<<20) %% 2147483647 }\n\nfunc TestZZDigest(t *testing.T) {\n' % p
    for n, d in tabs:
        test += '\t{\n\th := 0\n%s\n\tfmt.Println("ZZ", "%s", h)\n\t}\n' % (body(n, d), n)
    test += '}\n'
    with tempfile.TemporaryDirectory() as td:
        open(td + '/t.go', 'w').write(test)
        json.dump({'Replace': {'%s/internal/%s/zz_digest_test.go' % (REPO, p): td + '/t.go'}}, open(td + '/o.json', 'w'))
        o = subprocess.run(['bash', '-c', '. /opt/vp/env.sh; cd %s && go test -overlay %s/o.json -run TestZZDigest -v ./internal/%s' % (REPO, td, p)], capture_output=True, text=True).stdout
    dig = dict(re.findall(r'ZZ (\w+) (\d+)', o))
    assert len(dig) == len(tabs), (p, o[-500:])
    src = HEAD % p
    for n, d in sorted(tabs):
        src += '\n//@ lemma: table %s\n//@ property: C24\nfunc zzTable_%s() {\n\th := 0\n%s\n\tvs.Ensures("the format\'s values", h == %s)\n}\n' % (n, n, body(n, d), dig[n])
    os.makedirs('%s/contracts/internal/%s' % (VERIF, p), exist_ok=True)
    open('%s/contracts/internal/%s/tables.go' % (VERIF, p), 'w').write(src)
    print(p, len(tabs))
