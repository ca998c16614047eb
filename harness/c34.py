from sx import api as sx


def parts(rel):
    """Universal and specific part of a relation as a pair."""
    if rel is None:
        return None, None
    u, _, s = rel.partition(':')
    return u, s


def node(rel=None):
    from udapi.core.document import Document
    return Document().create_bundle().create_tree().create_child(form='f', deprel=rel)


@sx.harness(quick=[dict(k=2, size=3)], thorough=[dict(k=3, size=3), dict(k=2, size=5)], reach=['unset', 'both', 'only universal', 'set universal', 'set specific', 'set whole'],
            bounds='any relation of up to size characters or unset, then k assignments of the whole or of one part with any value of up to 2 characters')
def relation(k, size):
    rel = sx.str('rel', 0, size, 'ab:_') if sx.bool('has') else None
    n = node(rel)
    u, s = parts(rel)

    def agree(msg):
        sx.check(sx.eq(n.udeprel, u) and sx.eq(n.sdeprel, s), msg + ': parts')
        whole = None if u is None else u + ':' + s if s != '' else u
        # a colon without anything behind it does not have to be kept
        sx.check(sx.eq(n.deprel, whole) or whole is not None and sx.eq(n.deprel, whole + ':'), msg + ': whole relation')
        sx.reach('unset' if u is None else 'both' if s != '' else 'only universal')

    agree('initially')
    for i in range(k):
        what = sx.choice('what%d' % i, ['universal', 'specific', 'whole', 'unset', 'no specific'])
        if what == 'universal':
            u = sx.str('v%d' % i, 1, 2, 'ab_')
            if s is None:
                s = ''
            n.udeprel = u
        elif what == 'specific':
            sx.assume(u is not None)
            s = sx.str('v%d' % i, 0, 2, 'ab:_')
            n.sdeprel = s
        elif what == 'no specific':
            sx.assume(u is not None)
            s = ''
            n.sdeprel = None
        elif what == 'whole':
            rel = sx.str('v%d' % i, 0, 3 if k < 3 else 2, 'ab:_')
            u, s = parts(rel)
            n.deprel = rel
        else:
            u = s = None
            n.deprel = None
        if what in ('universal', 'specific'):
            sx.reach('set ' + what)
        if what == 'whole':
            sx.reach('set whole')
        agree('after setting ' + what)


@sx.harness(quick=[dict(k=2)], thorough=[dict(k=3)], reach=['gloss', 'space', 'tight'],
            bounds='k assignments of gloss or of MISC entries with any values of up to 3 characters, for words and for the space flag of multi-word tokens')
def shortcuts(k):
    n = node()
    m = None
    if sx.bool('mwt'):
        m = n.root.create_multiword_token([n, n.root.create_child(form='g')], form='fg')
    who = m if m is not None else n
    misc = {}
    for i in range(k):
        what = sx.choice('what%d' % i, ['gloss', 'misc', 'space', 'del', 'text'])
        v = sx.str('v%d' % i, 0 if what != 'text' else 1, 3, 'Noxy')
        if what == 'gloss':
            sx.assume(m is None)
            n.gloss = v
            misc['Gloss'] = v
        elif what == 'misc':
            who.misc['Gloss'] = v
            misc['Gloss'] = v
        elif what == 'space':
            who.misc['SpaceAfter'] = v
            misc['SpaceAfter'] = v
        elif what == 'del':
            del who.misc['SpaceAfter']
            misc['SpaceAfter'] = ''
        else:
            who.misc = 'Gloss=' + v + '|SpaceAfter=' + v
            misc = {'Gloss': v, 'SpaceAfter': v}
        if m is None:
            sx.check(n.gloss == misc.get('Gloss', ''), 'gloss')
            sx.reach('gloss')
        sx.check(who.misc['Gloss'] == misc.get('Gloss', ''), 'Gloss in MISC')
        tight = misc.get('SpaceAfter', '') == 'No'
        sx.check(who.no_space_after is tight or bool(who.no_space_after) == tight, 'no_space_after')
        sx.reach('tight' if tight else 'space')
