"""Interval sets of Unicode code points (sorted tuples of disjoint inclusive ranges)."""
import functools

MAXC = 0x10FFFF


def norm(ranges):
    out = []
    for lo, hi in sorted(ranges):
        if out and lo <= out[-1][1] + 1:
            if hi > out[-1][1]:
                out[-1] = (out[-1][0], hi)
        else:
            out.append((lo, hi))
    return tuple(out)


def of_chars(chars):
    return norm([((c if isinstance(c, int) else ord(c)),) * 2 for c in chars])


@functools.lru_cache(maxsize=20000)
def inter(a, b):
    out, i, j = [], 0, 0
    while i < len(a) and j < len(b):
        lo, hi = max(a[i][0], b[j][0]), min(a[i][1], b[j][1])
        if lo <= hi:
            out.append((lo, hi))
        if a[i][1] < b[j][1]:
            i += 1
        else:
            j += 1
    return tuple(out)


@functools.lru_cache(maxsize=20000)
def diff(a, b):
    out = []
    for lo, hi in a:
        cur = lo
        for blo, bhi in b:
            if bhi < cur:
                continue
            if blo > hi:
                break
            if blo > cur:
                out.append((cur, blo - 1))
            cur = bhi + 1
            if cur > hi:
                break
        if cur <= hi:
            out.append((cur, hi))
    return tuple(out)


def union(a, b):
    return norm(list(a) + list(b))


def has(a, c):
    for lo, hi in a:
        if lo <= c <= hi:
            return True
    return False


def size(a):
    return sum(hi - lo + 1 for lo, hi in a)


def from_pred(pred):
    out, start = [], None
    for c in range(MAXC + 1):
        if pred(chr(c)):
            if start is None:
                start = c
        elif start is not None:
            out.append((start, c - 1))
            start = None
    if start is not None:
        out.append((start, MAXC))
    return tuple(out)


_preds = {
    'space': str.isspace, 'decimal': str.isdecimal, 'digit': str.isdigit, 'numeric': str.isnumeric,
    'alpha': str.isalpha, 'alnum': str.isalnum, 'upper': str.isupper, 'lower': str.islower,
    'printable': str.isprintable, 'identifier': str.isidentifier,
    'title': lambda c: c.istitle() and not c.isupper(),
    'word': lambda c: c.isalnum() or c == '_',
}


@functools.lru_cache(maxsize=None)
def named(name):
    if name == 'line':
        return of_chars('\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029')
    if name == 'ascii':
        return ((0, 127),)
    if name == 'asciidigit':
        return ((48, 57),)
    return from_pred(_preds[name])


ALL = ((0, MAXC),)
NOSURR = ((0, 0xD7FF), (0xE000, MAXC))


def casemap_groups(dom, method):
    """Split dom by the effect of str.lower/upper on single characters.

    Returns (identity_set, [(set, delta)], [(code point, result string)]).
    """
    return _casemap(dom, method)


@functools.lru_cache(maxsize=None)
def _changed(method):
    f = getattr(str, method)
    return [(c, r) for c, r in ((c, f(chr(c))) for c in range(MAXC + 1)) if r != chr(c)]


@functools.lru_cache(maxsize=500)
def _casemap(dom, method):
    deltas, special, changed = {}, [], []
    for c, r in _changed(method):
        if has(dom, c):
            changed.append((c, c))
            if len(r) == 1:
                deltas.setdefault(ord(r) - c, []).append((c, c))
            else:
                special.append((c, r))
    return diff(dom, norm(changed)), [(norm(v), d) for d, v in sorted(deltas.items())], special
