#!/usr/bin/env python3
"""Look for gaps: small automatic edits of /repo's sources that pass its tests, judged by the quick checks of the
properties that speak about the edited function.  Not part of any check.

  mutants.py list                      number of edits per function
  mutants.py run OUT.jsonl [regex]     try all (those whose function matches), 2 at a time
  mutants.py left OUT.jsonl            the edits no check noticed
"""
import ast
import copy
import json
import os
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

V, SB, PY = os.environ.get('MUT_V', '/verif'), '/tmp/mut', '/opt/venv/bin/python'
NAV = ['C02', 'C01', 'C03', 'C04', 'C05', 'C06', 'C11']
MAP = [(r'_navdate|_clock_time|_match_logger', ['C01', 'C02', 'C06', 'C03', 'C11']), (r'_navcoords', ['C02', 'C01', 'C11', 'C03']),
       (r'_clean_180cross', ['C05', 'C02', 'C03']), (r'read_nav', NAV), (r'bgm|^count$|^dtime$', ['C07', 'C06', 'C11']), (r'laptop', ['C08', 'C06', 'C11']),
       (r'dgs_raw', ['C09', 'C06', 'C11']), (r'other_stuff|numeric', ['C10', 'C11']), (r'decode_dgs', ['C12']),
       (r'ini_to_toml', ['C13']), (r'gauss', ['C14']), (r'latlon_to|ENvel|rotate_acc', ['C15']),
       (r'eotvos|center_diff', ['C16']), (r'free_air|wgs_grav', ['C17']), (r'longman|tidetime', ['C18']),
       (r'up_vecs|tilt_filter', ['C19']), (r'cross_coupling', ['C20']), (r'grav1d|grav2d|_kvalue', ['C21']),
       (r'therm', ['C22']), (r'crustal', ['C23']),
       (r'Snapping|__init__|set_cross|on_mouse', ['C24']), (r'', ['C15', 'C20'])]
SWAP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot,
        ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult,
        ast.FloorDiv: ast.Div, ast.Mod: ast.Mult, ast.Pow: ast.Mult, ast.And: ast.Or, ast.Or: ast.And}


def edits(src):
    """(function, start, end, new text) of every edit"""
    tree = ast.parse(src)
    lines = src.splitlines(True)
    off = [0]
    for ln in lines:
        off.append(off[-1] + len(ln.encode()))

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset
    out = []

    def put(fn, node, new):
        a, b = span(node)
        out.append((fn, node.lineno, a, b, new))

    def expr(new):
        return '(' + ast.unparse(new) + ')'

    def walk(node, fn):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            fn = node.name
        if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
            return
        if isinstance(node, ast.Call) and ast.unparse(node.func) == 'print':
            return
        if isinstance(node, ast.Compare) and len(node.ops) == 1 and type(node.ops[0]) in SWAP:
            m = copy.deepcopy(node)
            m.ops[0] = SWAP[type(node.ops[0])]()
            put(fn, node, expr(m))
        if isinstance(node, ast.BinOp) and type(node.op) in SWAP:
            m = copy.deepcopy(node)
            m.op = SWAP[type(node.op)]()
            put(fn, node, expr(m))
        if isinstance(node, ast.BoolOp):
            m = copy.deepcopy(node)
            m.op = SWAP[type(node.op)]()
            put(fn, node, expr(m))
            for i in range(len(node.values)):
                put(fn, node, expr(node.values[i]))
        if isinstance(node, ast.UnaryOp):
            put(fn, node, expr(node.operand))
        if isinstance(node, ast.Constant):
            v = node.value
            if isinstance(v, bool):
                put(fn, node, repr(not v))
            elif isinstance(v, int):
                put(fn, node, repr(v + 1))
                if v:
                    put(fn, node, repr(v - 1))
            elif isinstance(v, float):
                put(fn, node, repr(v * 1.0001))
            elif isinstance(v, str) and v:
                put(fn, node, repr(v + 'X') if not v.endswith('\\') else repr('X' + v))
                if len(v) > 1:
                    put(fn, node, repr(v[1:]) if not v.startswith('\\') else repr(v[:-1]))
        if isinstance(node, (ast.If, ast.While)):
            put(fn, node.test, 'True' if isinstance(node, ast.If) else 'False')
            if isinstance(node, ast.If):
                put(fn, node.test, 'False')
        if isinstance(node, ast.Call):
            for i in range(len(node.keywords)):
                m = copy.deepcopy(node)
                del m.keywords[i]
                put(fn, node, expr(m))
            for i, x in enumerate(node.args):
                if len(node.args) == 1 and not isinstance(x, ast.Starred) and not node.keywords:
                    put(fn, node, expr(x))
        if isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Slice):
            for k in ('lower', 'upper', 'step'):
                if getattr(node.slice, k) is not None:
                    m = copy.deepcopy(node)
                    setattr(m.slice, k, None)
                    put(fn, node, expr(m) if isinstance(node.ctx, ast.Load) else ast.unparse(m))
        if isinstance(node, (ast.Assign, ast.AugAssign, ast.Continue, ast.Break)) or isinstance(node, ast.Expr):
            if fn:
                put(fn, node, 'pass')
        for c in ast.iter_child_nodes(node):
            walk(c, fn)
    for n in tree.body:
        if not isinstance(n, (ast.Import, ast.ImportFrom)):
            walk(n, '')
    return out


def all_edits():
    for f in ('io', 'nav', 'grav', 'utils'):
        src = open(f'/repo/shipgrav/{f}.py').read()
        for k, e in enumerate(edits(src)):
            yield f'{f}-{k}', f, src.encode(), e


def thin(j):
    """left out: one of the two edits of a string, texts of messages"""
    _, f, src, (fn, line, a, b, new) = j
    old = src[a:b].decode()
    return old[:1] in '"\'' and new[:1] in '"\'' and (not new.endswith("X'") or len(old) > 25 and ' ' in old)


def props(fn):
    for rx, ids in MAP:
        if re.search(rx, fn):
            return ids


def one(job):
    mid, f, src, (fn, line, a, b, new) = job
    r = {'id': mid, 'file': f, 'fn': fn, 'line': line, 'old': src[a:b].decode(), 'new': new}
    text = src[:a] + new.encode() + src[b:]
    try:
        compile(text, f, 'exec')
    except SyntaxError:
        r['how'] = 'syntax'
        return r
    w = f'{SB}/w-{mid}'
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree('/repo', w, symlinks=True, ignore=shutil.ignore_patterns('.git', 'docs', 'example-scripts'))
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MC_REPO=w, MC_OUT=f'{w}/out', VERIF_SEED='1', MC_PROCS=os.environ.get('MUT_W', '2'), OMP_NUM_THREADS='1')
    try:
        open(f'{w}/shipgrav/{f}.py', 'wb').write(text)
        p = subprocess.run(['timeout', '100', PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'shipgrav/tests'], cwd=w, env=env, capture_output=True,
                           text=True)
        if '40 passed' not in p.stdout:
            r['how'] = 'tests'
            return r
        for pid in props(fn):
            p = subprocess.run(['timeout', '600', 'bash', f'{V}/check.sh', pid, 'quick'], cwd=V, env=env, capture_output=True, text=True)
            if p.returncode == 1 and f'VIOLATION property={pid} ' in p.stdout:
                r['how'] = pid
                m = re.search(r'^what: (.*)$', p.stdout, re.M)
                r['what'] = m.group(1)[:200] if m else ''
                return r
            if p.returncode:
                r['how'] = f'{pid} rc {p.returncode}'
                r['what'] = (p.stdout + p.stderr)[-600:]
                return r
        r['how'] = 'left'
        return r
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    cmd = sys.argv[1]
    os.makedirs(SB, exist_ok=True)
    if cmd == 'list':
        n = {}
        for mid, f, src, e in all_edits():
            n[f, e[0]] = n.get((f, e[0]), 0) + 1
        for k, v in n.items():
            print(*k, v, props(k[1]))
        print(sum(n.values()))
    elif cmd == 'run':
        out = sys.argv[2]
        rx = sys.argv[3] if len(sys.argv) > 3 else ''
        done = {json.loads(x)['id'] for x in open(out)} if os.path.exists(out) else set()
        jobs = [j for j in all_edits() if j[0] not in done and re.search(rx, j[1] + '.' + j[3][0]) and not thin(j)]
        with ThreadPoolExecutor(int(os.environ.get('MUT_PAR', '3'))) as ex, open(out, 'a') as o:
            for r in ex.map(one, jobs):
                o.write(json.dumps(r) + '\n')
                o.flush()
    elif cmd == 'left':
        n = {}
        for x in open(sys.argv[2]):
            r = json.loads(x)
            n[r['how'].split()[0]] = n.get(r['how'].split()[0], 0) + 1
            if r['how'] == 'left' or ' rc ' in r['how']:
                print(r['id'], r['fn'], r['line'], '|', r['old'][:90].replace('\n', ' '), '=>', r['new'][:90].replace('\n', ' '), '' if r['how'] == 'left' else r['how'])
        print(n)


main()
