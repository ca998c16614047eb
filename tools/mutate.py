#!/usr/bin/env python3
"""Measure the checks: python3 tools/mutate.py OUT [--per N] [--seed S] [--only SUBSTR] [--cap K]
Small changes of the functions that the checks encode (comparison, boolean, constant, deleted statement, ...), each in a scratch copy of the
repository; the checks of the properties anchored at the file are run until one objects. Survivors are written to OUT."""
import argparse, ast, json, os, random, re, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('UDAPI_REPO', '/repo')


def sites(src, qual):
    """Mutants of the function with the qualified name: (line, start, end, replacement)."""
    tree = ast.parse(src)
    lines = src.split('\n')
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()) + 1)
    raw = src.encode()
    pos = lambda ln, col: offs[ln - 1] + col
    span = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))
    out = []

    def find(body, parts):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == parts[0]:
                if len(parts) == 1:
                    yield n
                else:
                    yield from find(n.body, parts[1:])

    def add(node, new):
        a, b = span(node)
        out.append((node.lineno, a, b, new))

    def skip(n):
        text = raw[slice(*span(n))].decode()
        return isinstance(n, ast.Raise) or re.match(r'(logging\.|warnings\.|import |from |assert |super\(\)\.__init__|raise )', text)

    def expr(n):
        for c in ast.walk(n):
            if isinstance(c, ast.Compare) and len(c.ops) == 1:
                l, r = c.left, c.comparators[0]
                a, b = span(l)[1], span(r)[0]
                mid = raw[a:b].decode()
                swaps = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
                ops = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!=', ast.Is: 'is', ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}
                o = type(c.ops[0])
                if ops[o] in mid:
                    out.append((c.lineno, a, b, mid.replace(ops[o], swaps[o], 1)))
            elif isinstance(c, ast.BoolOp):
                for v in c.values:
                    add(c, '(' + (' or ' if isinstance(c.op, ast.Or) else ' and ').join(raw[slice(*span(x))].decode() for x in c.values if x is not v) + ')')
            elif isinstance(c, ast.UnaryOp) and isinstance(c.op, ast.Not):
                add(c, '(' + raw[slice(*span(c.operand))].decode() + ')')
            elif isinstance(c, ast.Constant) and isinstance(c.value, bool):
                add(c, str(not c.value))
            elif isinstance(c, ast.Constant) and isinstance(c.value, int):
                add(c, str(c.value + 1))
            elif isinstance(c, ast.Constant) and isinstance(c.value, str) and c.value and raw[slice(*span(c))][:1] in b'\'"' and raw[slice(*span(c))][:3] != b'"""':
                add(c, "''")
            elif isinstance(c, ast.BinOp) and isinstance(c.op, (ast.Add, ast.Sub)) and not isinstance(c.left, ast.Constant):
                a, b = span(c.left)[1], span(c.right)[0]
                mid = raw[a:b].decode()
                x, y = ('+', '-') if isinstance(c.op, ast.Add) else ('-', '+')
                if not any(isinstance(k, (ast.Constant, ast.JoinedStr)) and isinstance(getattr(k, 'value', ''), str) for k in (c.left, c.right)):
                    out.append((c.lineno, a, b, mid.replace(x, y, 1)))
            elif isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in ('sorted', 'reversed', 'list', 'set') and len(c.args) == 1 and not c.keywords:
                add(c, 'list(' + raw[slice(*span(c.args[0]))].decode() + ')' if c.func.id in ('sorted', 'reversed') else raw[slice(*span(c.args[0]))].decode())
            elif isinstance(c, ast.IfExp):
                add(c, '(' + raw[slice(*span(c.body))].decode() + ')')
                add(c, '(' + raw[slice(*span(c.orelse))].decode() + ')')

    def walk(body):
        for n in body:
            if skip(n):
                continue
            if isinstance(n, (ast.If, ast.While)):
                expr(n.test)
                if isinstance(n, ast.If):
                    add(n.test, 'False')
                    add(n.test, 'True')
                walk(n.body), walk(n.orelse)
            elif isinstance(n, ast.For):
                expr(n.iter)
                walk(n.body), walk(n.orelse)
            elif isinstance(n, ast.Try):
                walk(n.body)
                for h in n.handlers:
                    walk(h.body)
                walk(n.orelse), walk(n.finalbody)
            elif isinstance(n, ast.With):
                walk(n.body)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                pass
            elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                pass
            else:
                if isinstance(n, ast.Break):
                    add(n, 'continue')
                elif isinstance(n, ast.Continue):
                    add(n, 'break')
                elif isinstance(n, (ast.Expr, ast.AugAssign, ast.Delete)) and not isinstance(getattr(n, 'value', None), (ast.Yield, ast.YieldFrom)):
                    add(n, 'pass')
                elif isinstance(n, ast.Assign) and not all(isinstance(t, ast.Name) for t in n.targets):
                    add(n, 'pass')
                elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
                    pass
                expr(n)
    for f in find(tree.body, [p for p in qual.split('.') if p != '<locals>']):
        walk(f.body)
    return sorted(set(out))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out')
    ap.add_argument('--per', type=int, default=4)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--only', default='')
    ap.add_argument('--prop', default='')
    ap.add_argument('--cap', type=int, default=3)
    a = ap.parse_args()
    rnd = random.Random(a.seed)
    props = {}
    for line in open(os.path.join(HERE, 'properties.jsonl')):
        p = json.loads(line)
        ev = os.path.join(HERE, 'evidence', p['id'] + '.json')
        if os.path.exists(ev):
            p['functions'] = json.load(open(ev))['coverage'].get('functions_encoded', [])
            props[p['id']] = p
    funcs = {}
    for i, p in props.items():
        files = {f for f in p['anchors']['files']}
        for f in p['functions']:
            mod, q = f.split(':')
            path = mod.replace('.', '/') + '.py'
            if path in files or (path.startswith('udapi/block') and int(i[1:]) >= 30):
                funcs.setdefault((path, q), []).append(i)
    todo = []
    for (path, q), ps in sorted(funcs.items()):
        if a.only and a.only not in path + ':' + q:
            continue
        if a.prop and a.prop not in ps:
            continue
        name = q.split('.')[-1].strip('_')
        key = lambda i: (i != a.prop, not any(re.search(r'\b%s\b' % re.escape(name), m['name'] + ' ' + m['where']) for m in props[i]['anchors']['mechanism']), len(props[i]['functions']))
        ps = sorted(ps, key=key)[:a.cap]
        try:
            ms = sites(open(os.path.join(REPO, path), encoding='utf-8').read(), q)
        except FileNotFoundError:
            continue
        rnd.shuffle(ms)
        for m in ms[:a.per]:
            todo.append((path, q, m, ps))
    rnd.shuffle(todo)
    print(len(todo), 'mutants', flush=True)
    tmp = tempfile.mkdtemp(prefix='mutate')
    copy = tmp + '/repo'
    shutil.copytree(REPO, copy, symlinks=True)
    log = open(a.out, 'a')
    killed = 0
    try:
        for k, (path, q, (line, s, e, new), ps) in enumerate(todo, 1):
            orig = open(copy + '/' + path, 'rb').read()
            changed = orig[:s] + new.encode() + orig[e:]
            if changed == orig:
                continue
            try:
                compile(changed, path, 'exec')
            except SyntaxError:
                continue
            open(copy + '/' + path, 'wb').write(changed)
            res = None
            t = time.time()
            for i in ps:
                try:
                    r = subprocess.run(['./check', i], cwd=HERE, env=dict(os.environ, UDAPI_REPO=copy), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
                except subprocess.TimeoutExpired:
                    res = i + ' timeout'
                    break
                if r.returncode == 1:
                    res = i
                    break
                if r.returncode:
                    res = i + ' rc=%d' % r.returncode
                    break
            open(copy + '/' + path, 'wb').write(orig)
            killed += bool(res)
            msg = '%s %s:%d %s [%s] %r -> %r  (%s, %d s)' % ('killed' if res else 'SURVIVED', path, line, q, ' '.join(ps), orig[s:e].decode()[:70], new[:70], res, time.time() - t)
            print(msg, file=log, flush=True)
        print('%d of %d killed' % (killed, k), file=log, flush=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


main()
