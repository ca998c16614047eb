"""Compares the models of str, re and containers with the real ones: every path is replayed."""
import re
from sx import api as sx

A = 'ab \n_'
OPS = {
    'strip': lambda s, t: [s.strip(), s.lstrip(), s.rstrip(), s.strip('ab'), s.rstrip('\n')],
    'split': lambda s, t: [s.split(), s.split(None, 1), s.rsplit(None, 1), s.splitlines(), s.splitlines(True)],
    'split2': lambda s, t: [s.split('a'), s.split('a', 1), s.rsplit('a', 1), s.partition('a'), s.rpartition('b')],
    'split3': lambda s, t: [s.split('ab'), s.partition('ab'), s.rpartition('ab')],
    'find': lambda s, t: [s.find('a'), s.rfind('a'), s.count('a'), s.count(''), s.find('ab'), s.count('aa')],
    'replace': lambda s, t: [s.replace('a', 'xy'), s.replace('ab', ''), s.replace('', '-'), s.replace('a', 'b', 1)],
    'start': lambda s, t: [s.startswith('a'), s.endswith(('a', 'b')), s.startswith('a', 1), s.endswith('')],
    'pred': lambda s, t: [s.isspace(), s.isalpha(), s.isdigit(), s.isalnum(), s.isupper(), s.islower()],
    'case': lambda s, t: [s.lower(), s.upper(), s.capitalize(), s.casefold()],
    'cmp': lambda s, t: [s == t, s != t, s < t, s <= t, s > t, s >= t, t in s, s + t],
    'fmt': lambda s, t: ['%s|%s' % (s, t), f'{s}-{t!r}', '{}{}'.format(s, t), s.join(['x', t, 'y']), '%5s' % s],
    'idx': lambda s, t: [s[:1], s[-1:], s[::-1], s[1:], s * 2, len(s), [c for c in s], str(s), s.ljust(3), s.center(4)],
    're1': lambda s, t: [g(re.match(r'(a*)(b?)\s*$', s)), g(re.search(r'a+', s)), g(re.search(r'(?<=a)b', s))],
    're2': lambda s, t: [re.split(r'\s+', s), re.split(r'(a)', s), re.findall(r'\w+', s), re.findall(r'a*', s)],
    're3': lambda s, t: [re.sub(r'a+', 'X', s), re.sub(r'(a)(b)', r'\2\1', s), re.sub(r'a*', '-', s), re.sub(r'^|$', '.', s)],
    're4': lambda s, t: [g(re.fullmatch(r'a|ab|b.*', s)), g(re.search(r'\ba\b', s)), g(re.search(r'[^ab]', s)),
                         g(re.match(r'(?:a|b)*?b', s)), g(re.search('A', s, re.I)), g(re.search(r'(a|b)\1', s))],
    'dict': lambda s, t: dct(s, t),
    'int': lambda s, t: num(s),
    'trans': lambda s, t: [s.translate({97: 'zz', 98: None}), s.expandtabs()],
}


def g(m):
    return None if m is None else [m.group(0), m.groups(), m.span()]


def num(s):
    try:
        return int(s)
    except ValueError:
        return 'err'


def dct(s, t):
    d = {s: 1}
    d[t] = 2
    d['a'] = d.get('a', 0) + 1
    x = {s, t, 'b'}
    c = {k: v for k, v in [(s, 1), (t, 2)]}
    return [len(d), d[s], d.get(t), 'ab' in d, s in d, len(x), t in x, sorted(x), sorted(d.items()), len(c),
            sorted([s, t, 'a']), s in ['a', 'b'], max([s, t]), (s, 1) in {(t, 1): 0}, d.pop(s), len(d)]


@sx.harness(quick=[dict(op=o, n=3 if o not in ('cmp', 'dict') else 2) for o in OPS], bounds='strings of up to 3 characters')
def strings(op, n):
    dom = {'int': '1-_ \u0663', 'case': '\u0130\u00dfaA1\u01c5', 'pred': 'aA1 \u01c5\u00b2'}.get(op, A)
    s = sx.str('s', 0, n, dom)
    t = sx.str('t', 0, 2, 'ab') if op in ('cmp', 'dict', 'fmt') else ''
    sx.observe(OPS[op](s, t))


@sx.harness(bounds='up to 2 arbitrary characters')
def anychar():
    s = sx.str('s', 0, 2, 'any')
    sx.observe([s.strip(), s.isalpha(), s.split(), s.splitlines(), s.isdigit()])


@sx.harness(bounds='up to 2 arbitrary characters')
def anycase():
    s = sx.str('s', 0, 2, 'any')
    sx.observe([s.lower(), s.upper()])


@sx.harness(bounds='small ints')
def ints():
    a, b = sx.int('a', -3, 4), sx.int('b', -2, 3)
    sx.observe([a + b, a - b, a * 2, a // 2, a % 3, abs(a), a < b, a == b, max(a, b), [10, 20, 30, 40, 50][a + 0 if a > 0 else 0],
                '%d' % b, sorted([a, b, 1]), a + 0.5, a / 2, -a, divmod(a, 2), a * b])
