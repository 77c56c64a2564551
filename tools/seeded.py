#!/usr/bin/env python3
"""Validate planted bugs (seeded/<id>) in scratch copies of /repo and run the checks on them.

  seeded.py [--check] [--all-checks] [--doc] [id ...]

For each bug: the patch applies, changes only lines of the original repository, the tests pass with it, demo.sh
exits 0 without and non-zero with it; with --check the property's quick check must exit 1 with its VIOLATION line.
Results are kept in /tmp/sb/results.json; --doc rewrites the table at the end of DESIGN.md from them.
"""
import json, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = '/verif'
SB = '/tmp/sb'
PY = '/opt/venv/bin/python'
BASE = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H', '--invert-grep', '--grep=^fix:', '-1'],
                      capture_output=True, text=True).stdout.strip()


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', **(env or {}))
    p = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr


def original_lines_only(patch):
    """every removed line is blamed on the original commit"""
    cur = None
    bad = []
    removed = 0
    for ln in open(patch):
        if ln.startswith('--- '):
            cur = ln[4:].strip().split('/', 1)[1]
            blame = subprocess.run(['git', '-C', '/repo', 'blame', '-l', '-s', 'HEAD', '--', cur],
                                   capture_output=True, text=True).stdout.splitlines()
        elif ln.startswith('@@'):
            n = int(re.match(r'@@ -(\d+)', ln).group(1))
        elif ln.startswith('-'):
            removed += 1
            if not blame[n-1].lstrip('^').startswith(BASE[:30]):
                bad.append((cur, n))
            n += 1
        elif ln.startswith(' '):
            n += 1
    return (removed > 0 and not bad), bad


def one(bid, check, every):
    d = f'{V}/seeded/{bid}'
    meta = json.load(open(f'{d}/meta.json'))
    w = f'{SB}/{bid}'
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree('/repo', w, symlinks=True)
    dd = f'{SB}/demo-{bid}'
    shutil.rmtree(dd, ignore_errors=True)
    shutil.copytree(d, dd, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
    r = {'id': bid, 'property': meta['property']}
    try:
        ok, bad = original_lines_only(f'{d}/patch.diff')
        r['original'] = ok or str(bad)
        rc, out = sh(['bash', f'{dd}/demo.sh'], w, timeout=300)
        r['demo_clean'] = rc
        if rc:
            r['out'] = out[-600:]
        rc, out = sh(['git', 'apply', f'{d}/patch.diff'], w)
        if rc:
            r['apply'] = out
            return r
        rc, out = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'shipgrav/tests'], w)
        r['tests'] = re.findall(r'\d+ passed|\d+ failed', out)
        rc, out = sh(['bash', f'{dd}/demo.sh'], w, timeout=300)
        r['demo_bug'] = rc
        r['demo_says'] = out.strip().splitlines()[-1:] if out.strip() else ''
        if check:
            r['caught'] = []
            ids = [json.loads(l)['id'] for l in open(f'{V}/properties.jsonl')] if every else [meta['property']]
            for pid in ids:
                rc, out = sh(['bash', f'{V}/check.sh', pid, 'quick'], V, {'MC_REPO': w, 'VERIF_SEED': '1', 'VERIF_TIER': 'quick',
                                                                          'MC_OUT': f'{SB}/ev-{bid}'})
                m = re.search(rf'^VIOLATION property={pid} .*$', out, re.M)
                if rc == 1 and m:
                    r['caught'].append(pid)
                    why = [l for l in out.splitlines() if l.strip()]
                    r.setdefault('why', {})[pid] = why[-3:]
                elif rc:
                    r['caught'].append(f'{pid}?rc{rc}')
                    r['out'] = out[-800:]
    finally:
        shutil.rmtree(w, ignore_errors=True)
        shutil.rmtree(dd, ignore_errors=True)
        shutil.rmtree(f'{SB}/ev-{bid}', ignore_errors=True)
    return r


def main():
    os.makedirs(SB, exist_ok=True)
    a = sys.argv[1:]
    check, every, doc = ['--check' in a or '--all-checks' in a, '--all-checks' in a, '--doc' in a]
    ids = [x for x in a if not x.startswith('--')] or sorted(os.listdir(f'{V}/seeded'))
    store = f'{SB}/results.json'
    res = json.load(open(store)) if os.path.exists(store) else {}
    if not doc:
        with ThreadPoolExecutor(1 if check else 8) as ex:
            for r in ex.map(lambda b: one(b, check, every), ids):
                old = res.get(r['id'], {})
                if not check and 'caught' in old:
                    r['caught'] = old['caught']
                res[r['id']] = r
                good = r.get('original') is True and r.get('demo_clean') == 0 and r.get('demo_bug') and r.get('tests') == ['40 passed']
                print('ok ' if good else 'BAD', json.dumps(r), flush=True)
                json.dump(res, open(store, 'w'), indent=1)
    else:
        rows = []
        for bid in sorted(os.listdir(f'{V}/seeded')):
            m = json.load(open(f'{V}/seeded/{bid}/meta.json'))
            c = ', '.join(res.get(bid, {}).get('caught') or ['missed'])
            rows.append(f"| {bid} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {c} |")
        t = open(f'{V}/DESIGN.md').read()
        head = t[:t.index('## Planted bugs')]
        n = len(rows)
        k = sum(json.load(open(f'{V}/seeded/{b}/meta.json'))['property'] in (res.get(b, {}).get('caught') or [])
                for b in os.listdir(f'{V}/seeded'))
        open(f'{V}/DESIGN.md', 'w').write(head + f'''## Planted bugs

{n} planted bugs, each validated by `tools/seeded.py` (patch applies, original lines only, tests pass, demonstration fails with it and
passes without); {k} are caught by the quick check of their property.

| bug | property | breaks | needs | caught by |
|-----|----------|--------|-------|-----------|
''' + '\n'.join(rows) + '\n')


if __name__ == '__main__':
    main()
