from sx import api as sx

def valid_zone(z):
    """Lower-case letters and dashes, then possibly an underscore with letters, digits and dashes; not the word all."""
    i = 0
    while i < len(z) and is_lower(z[i]):
        i += 1
    if i == len(z):
        return z != 'all'
    if z[i] != '_' or i + 1 == len(z):
        return False
    return all(is_alnum(c) for c in z[i + 1:])


def is_lower(c):
    return c == '-' or ('a' <= c and c <= 'z')


def is_alnum(c):
    return is_lower(c) or ('A' <= c and c <= 'Z') or ('0' <= c and c <= '9')


class Model:
    def __init__(self):
        self.bundles = []       # [bundle, id, [[tree, zone], ...]]


def tid(bid, zone):
    return bid + '/' + zone if zone else bid


def agree(doc, m, msg):
    sx.check([id(b) for b in doc.bundles] == [id(b) for b, _, _ in m.bundles], msg + ': bundles of the document')
    sx.check([id(b) for b in doc] == [id(b) for b, _, _ in m.bundles] and len(doc) == len(m.bundles), msg + ': iteration over bundles')
    trees = [t for _, _, ts in m.bundles for t, _ in ts]
    sx.check([id(x) for x in doc.trees] == [id(x) for x in trees], msg + ': iteration over trees')
    sx.check([id(x) for x in doc.nodes] == [id(n) for t in trees for n in t.descendants], msg + ': iteration over nodes')
    for i, (b, bid, ts) in enumerate(m.bundles):
        sx.check(b.bundle_id == bid and b.address() == bid, msg + ': id of a bundle')
        sx.check(b.document is doc, msg + ': document of a bundle')
        sx.check(b.number == i + 1, msg + ': number of a bundle')
        sx.check([id(t) for t in b] == [id(t) for t, _ in ts], msg + ': trees of a bundle')
        sx.check([id(n) for n in b.nodes] == [id(n) for t, _ in ts for n in t.descendants], msg + ': nodes of a bundle')
        for z in ['', 'a', 'zz']:
            found = [t for t, y in ts if y == z]
            sx.check(b.has_tree(z) == bool(found), msg + ': has_tree')
            if found:
                sx.check(b.get_tree(z) is found[0], msg + ': get_tree')
            else:
                sx.check(sx.raises(Exception, lambda: b.get_tree(z)) is not None, msg + ': get_tree of a missing zone')
        for t, z in ts:
            sx.check(t.bundle is b and t.zone == z, msg + ': bundle and zone of a tree')
            want = tid(bid, z)
            sx.check(t.sent_id == want, msg + ': id of a tree')
            sx.check(t.address() == want, msg + ': address of a tree')
            for n in t.descendants:
                sx.check(n.address() == want + '#%d' % n.ord, msg + ': address of a node')


def add_tree(m, i, zone):
    b, bid, ts = m.bundles[i]
    t = b.create_tree(zone) if zone is not None else b.create_tree()
    ts.append([t, zone or ''])
    t.create_child(form='a')
    t.create_child(form='b')
    return t


def step(doc, m, s, ops, size):
    op = sx.choice('op%d' % s, ops)
    if op == 'create':
        b = doc.create_bundle()
        m.bundles.append([b, b.bundle_id, []])
        sx.reach(op)
        return op
    i = sx.choice('bundle%d' % s, range(len(m.bundles)))
    b, bid, ts = m.bundles[i]
    if op == 'remove':
        b.remove()
        del m.bundles[i]
    elif op == 'rename':
        new = sx.str('id%d' % s, 1, size, 'key')
        sx.assume('/' not in new)
        b.bundle_id = new
        m.bundles[i][1] = new
    elif op == 'tree':
        zone = sx.str('zone%d' % s, 0, size + 1, ZONE)
        ok = valid_zone(zone) and not any(z == zone for _, z in ts)
        old = list(b.trees)
        e = sx.raises(Exception, lambda: ts.append([b.create_tree(zone), zone]))
        sx.check((e is None) == ok, 'a new zone is accepted exactly if it is valid and new')
        if e is not None:
            sx.check(b.trees == old, 'a refused tree was added')
            op = 'refused'
    else:
        sx.assume(ts)
        j = sx.choice('tree%d' % s, range(len(ts)))
        t, z = ts[j]
        if op == 'remove tree':
            t.remove()
            del ts[j]
        elif op == 'zone':
            zone = sx.str('zone%d' % s, 0, size + 1, ZONE)
            ok = valid_zone(zone) and not any(y == zone for k, (_, y) in enumerate(ts) if k != j)
            e = sx.raises(Exception, lambda: setattr(t, 'zone', zone))
            sx.check((e is None) == ok, 'a zone is accepted exactly if it is valid and new')
            if e is None:
                ts[j][1] = zone
            else:
                op = 'refused'
        elif op == 'sent_id':
            new = sx.str('id%d' % s, 1, size, 'key')
            sx.assume('/' not in new)
            how = sx.choice('how%d' % s, ['same zone', 'new zone', 'no zone'])
            if how == 'same zone':
                t.sent_id = tid(new, z)
            elif how == 'new zone':
                zone = sx.str('zone%d' % s, 1, 1, 'lower')
                sx.assume(all(y != zone for _, y in ts))
                t.sent_id = new + '/' + zone
                ts[j][1] = zone
            else:
                t.sent_id = new
            m.bundles[i][1] = new
    sx.reach(op)
    return op


ZONE = 'az-_AZ09./\n'


@sx.harness(quick=[dict(k=1, size=2), dict(k=2, size=1)], thorough=[dict(k=2, size=2), dict(k=3, size=1)],
            reach=['create', 'remove', 'rename', 'tree', 'remove tree', 'zone', 'sent_id', 'refused'],
            bounds='a document of up to two bundles with up to two trees, then k operations; ids of 1..size characters, '
                   'zones of 0..size+1 characters of az-_AZ09./ and newline')
def history(k, size):
    from udapi.core.document import Document
    doc = Document()
    m = Model()
    shape = sx.choice('shape', ['one', 'two trees', 'two bundles'])
    for i in range(2 if shape == 'two bundles' else 1):
        b = doc.create_bundle()
        sx.check(b.bundle_id == str(i + 1), 'id of a new bundle')
        m.bundles.append([b, b.bundle_id, []])
        add_tree(m, i, None)
        if shape == 'two trees':
            add_tree(m, i, 'a')
    agree(doc, m, 'at the beginning')
    for s in range(k):
        sx.assume(m.bundles)
        op = step(doc, m, s, ['create', 'remove', 'rename', 'tree', 'remove tree', 'zone', 'sent_id'], size if k == 1 else 1)
        agree(doc, m, 'after ' + op)


@sx.harness(quick=[dict(size=5)], thorough=[dict(size=7)], reach=['valid', 'invalid', 'all'],
            bounds='zone names of 0..size characters over letters, digits, -_./ and newline, set on a new and on an existing tree')
def zones(size):
    from udapi.core.bundle import Bundle
    from udapi.core.document import Document
    b = Document().create_bundle()
    zone = sx.str('zone', 0, size, 'lazAL-_05./\n')
    ok = valid_zone(zone)
    if sx.bool('existing'):
        t = b.create_tree('x')
        e = sx.raises(Exception, lambda: setattr(t, 'zone', zone))
        got = t.zone
        if e is not None:
            sx.check(got == 'x' and t.sent_id == '1/x', 'a refused zone changed the tree')
    else:
        e = sx.raises(Exception, lambda: b.create_tree(zone))
        got = b.trees[0].zone if e is None else None
    sx.check((e is None) == ok, 'exactly the valid zone names are accepted')
    if ok:
        sx.check(got == zone and b.trees[0].sent_id == tid('1', zone), 'zone of the tree')
        sx.check(b.has_tree(zone) and b.get_tree(zone) is b.trees[0], 'get_tree')
        sx.check(sx.raises(Exception, lambda: b.create_tree(zone)) is not None and len(b.trees) == 1, 'equal zones in one bundle')
    sx.reach('valid' if ok else 'all' if zone == 'all' else 'invalid')


@sx.harness(quick=[dict()], reach=['loaded'],
            bounds='a tree with any id of up to 3 characters and zone added to a bundle; the bundle or its id is added later')
def loading():
    from udapi.core.bundle import Bundle
    from udapi.core.document import Document
    from udapi.core.root import Root
    root = Root()
    zone = sx.str('zone', 0, 2, 'lower')
    node = root.create_child(form='a')
    sx.check(root.address() == '?' and node.address() == '?#1', 'address outside of a bundle')
    own = sx.bool('own')
    if own:
        root.sent_id = sx.str('own_id', 1, 3, 'key')
    if sx.bool('zone_first'):
        root.zone = zone
    else:
        root._zone = zone
    doc = Document()
    b = doc.create_bundle()
    b.bundle_id = bid = sx.str('id', 1, 2, 'ident')
    b.add_tree(root)
    sx.check(root.sent_id == tid(bid, zone) and node.address() == tid(bid, zone) + '#1', 'id of an added tree')
    sx.reach('loaded')


@sx.harness(quick=[dict(k=3)], thorough=[dict(k=4)], reach=['named', 'unnamed'],
            bounds='a bundle with k trees of different zones (one possibly without a zone, in any order), its id changed to any name of one or two characters')
def rename_bundle(k):
    from udapi.core.document import Document
    b = Document().create_bundle()
    zones = ['a', 'b_X', 'c', 'd'][:k]
    at = sx.choice('unnamed', range(k + 1))
    if at < k:
        zones[at] = ''
    sx.reach('unnamed' if at < k else 'named')
    trees = [b.create_tree(z) if z or sx.bool('given') else b.create_tree() for z in zones]
    for t in trees:
        t.create_child(form='a')
    new = sx.str('id', 1, 2, 'ident')
    b.bundle_id = new
    sx.check(b.address() == new, 'id of the bundle')
    for t, z in zip(trees, zones):
        sx.check(t.zone == z, 'zone of a tree')
        sx.check(t.sent_id == tid(new, z) and t.address() == tid(new, z), 'id of a tree')
        sx.check(t.descendants[0].address() == tid(new, z) + '#1', 'address of a node')
