"""C49: annotation of multiword expressions in MISC (blocks mwe.*)."""
from udapi.core.document import Document
from sx import api as sx
from harness.common import check_tree

TYPES = ['VID', 'LVC.cause.x', None]


NUMBERS = [[1, 2], [9, 10], [100, 7], [2024, 2025]]


def annotate(nodes, memberships, numbers=(1, 2)):
    """memberships: [(nodes, type, index of the word that has the type)] for the expressions 1, 2..."""
    for x in nodes:
        parts = []
        for number, (members, kind, where) in zip(numbers, memberships):
            if any(x is y for y in members):
                parts.append('%d:%s' % (number, kind) if kind and members[where] is x else str(number))
        x.misc['Mwe'] = ';'.join(parts)


def expressions(n, nodes, second=True):
    out = []
    for e in range(2 if second else 1):
        members = [x for k, x in enumerate(nodes) if sx.bool('e%d.%d' % (e, k))]
        kind = sx.choice('type%d' % e, TYPES if e == 0 else TYPES[1:])
        out.append((members, kind, len(members) - 1 if e and members else sx.choice('at%d' % e, range(len(members))) if members and kind else 0))
    return out


@sx.harness(quick=[dict(n=3)], thorough=[dict(n=4)], reach=['moved', 'overlap', 'untyped', 'none', 'twice'],
            bounds='n words, any two sets of which are expressions with numbers of up to four digits and a type at any of their words or none')
def normalize(n):
    from udapi.block.mwe.normalize import Normalize
    doc = Document()
    root = doc.create_bundle().create_tree()
    nodes = [root.create_child(form='w') for _ in range(n)]
    mwes = expressions(n, nodes)
    numbers = sx.choice('numbers', NUMBERS)
    annotate(nodes, mwes, numbers)
    nodes[0].misc['Other'] = 'x'
    for i in range(2):
        Normalize().process_document(doc)
        for x in nodes:
            want = []
            for number, (members, kind, where) in zip(numbers, mwes):
                if any(x is y for y in members):
                    want.append('%d:%s' % (number, kind) if kind and members[0] is x else str(number))
                    if kind is None:
                        sx.reach('untyped')
            sx.check(x.misc['Mwe'] == ';'.join(want), 'the type is at the first word, members and types stay')
            if len(want) > 1:
                sx.reach('overlap')
            if not want:
                sx.reach('none')
        if i:
            sx.reach('twice')
    if any(w for m, k, w in mwes if k):
        sx.reach('moved')
    sx.check(nodes[0].misc['Other'] == 'x', 'other attributes stay')


@sx.harness(quick=[dict(n=3)], thorough=[dict(n=4)], reach=['inside', 'both', 'untyped', 'head', 'outside'],
            bounds='every tree of n words, any two sets of which are expressions with a type at any of their words or none')
def subdeprels(n):
    from udapi.block.mwe.tosubdeprels import ToSubDeprels
    t = sx.tree('t', n)
    nodes = t.nodes[1:]
    mwes = expressions(n, nodes, n < 4)
    annotate(nodes, mwes, sx.choice('numbers', NUMBERS))
    for k, x in enumerate(nodes, 1):
        x.deprel = 'd%d' % k
    before = [x.misc['Mwe'] for x in nodes]
    ToSubDeprels().process_document(t.doc)
    check_tree(t, 'ToSubDeprels')
    for k, x in enumerate(nodes, 1):
        want, h = 'd%d' % k, sx.fix(t.head(k))
        for members, kind, _ in mwes:
            if any(x is y for y in members) and any(t.nodes[h] is y for y in members):
                if kind:
                    want += ':' + kind.lower().replace('.', '')
                    sx.reach('inside')
                else:
                    sx.reach('untyped')
            elif any(x is y for y in members):
                sx.reach('head')
        if want.count(':') == 2:
            sx.reach('both')
        if want == 'd%d' % k:
            sx.reach('outside')
        sx.check(x.deprel == want, 'the types are subtypes of the relations inside')
    sx.check([x.misc['Mwe'] for x in nodes] == before, 'the annotation stays')
