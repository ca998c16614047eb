"""Trees of arbitrary shape.

PlainTree builds a concrete tree through the public API.  SymTree builds the same words but leaves
the heads symbolic: head(k) is a z3 Int p_k in 0..n, the p_k are only constrained to form a tree
(depth variables exclude cycles).  The slots Node._parent and Node._children are then read lazily:
the first read of one decides just the p_k it depends on, everything that the code does not look at
stays symbolic.
"""
try:
    import z3
    from .core import CTX, SymInt, SymBool, ival, eqv, cached, and_, or_, not_
except ImportError:         # a replay: only PlainTree is used
    z3 = None


class _TreeBase:
    def _make(self, name, n, forms, doc=None):
        from udapi.core.document import Document
        self.doc = Document() if doc is None else doc
        self.bundle = self.doc.create_bundle()
        self.root = self.bundle.create_tree()
        self.nodes = [self.root]
        for k in range(1, n + 1):
            node = self.root.create_child(form=forms[k - 1] if forms else 'w%d' % k)
            self.nodes.append(node)
        self.n = n
        self.index = {id(x): i for i, x in enumerate(self.nodes)}
        self.alive = set(range(n + 1))

    def add(self, node):
        """Register a node created by the code under test; returns its number."""
        k = len(self.nodes)
        self.nodes.append(node)
        self.index[id(node)] = k
        self.alive.add(k)
        return k

    def order(self):
        """Word order of the tree as numbers of nodes."""
        return [self.index.get(id(x), -1) for x in self.root.descendants]

    def wf(self):
        """Full check of the current tree through the public API (decides everything)."""
        from harness.common import wellformed
        return wellformed(self.root)


class PlainTree(_TreeBase):
    def __init__(self, name, n, forms=None, doc=None, **kw):
        from . import api
        self._make(name, n, forms, doc)
        self.p = [None] + [api.B.values.get('%s.p%d' % (name, k), 0) for k in range(1, n + 1)]
        depth = {0: 0}

        def d(k):
            if k not in depth:
                depth[k] = d(self.p[k]) + 1
            return depth[k]
        for k in sorted(range(1, n + 1), key=d):
            if self.p[k]:
                self.nodes[k].parent = self.nodes[self.p[k]]
        self.eager = True

    def head(self, k):
        """Initial head of word k."""
        return self.p[k]

    def depth(self, k):
        return 0 if k == 0 else self.depth(self.p[k]) + 1

    def anc(self, j, k):
        """Is j an ancestor of k in the initial tree?"""
        while k:
            k = self.p[k]
            if k == j:
                return True
        return False

    def current(self, k):
        """Current head of word k as an index."""
        return self.index.get(id(self.nodes[k].parent), -1)

    def lists_ok(self):
        """Children lists agree with the current heads."""
        for j in self.alive:
            node = self.nodes[j]
            exp = sorted((self.nodes[k] for k in self.alive if k and self.nodes[k].parent is node),
                         key=lambda x: x.ord)
            if [id(x) for x in node.children] != [id(x) for x in exp]:
                return False
        return True


class _Pending:
    __slots__ = ('tree', 'k')

    def __init__(self, tree, k):
        self.tree, self.k = tree, k


class _LazyParent:
    def __init__(self, slot):
        self.slot = slot

    def __get__(self, obj, cls=None):
        if obj is None:
            return self
        v = self.slot.__get__(obj, cls)
        if type(v) is _Pending:
            t = v.tree
            v = t.nodes[t.decide_head(v.k)]
            self.slot.__set__(obj, v)
        return v

    def __set__(self, obj, v):
        self.slot.__set__(obj, v)

    def __delete__(self, obj):
        self.slot.__delete__(obj)


class _LazyChildren(_LazyParent):
    def __get__(self, obj, cls=None):
        if obj is None:
            return self
        v = self.slot.__get__(obj, cls)
        if type(v) is _Pending:
            t = v.tree
            v = t.make_list([t.nodes[k] for k in range(1, t.n + 1) if k != v.k and t.decide_is(k, v.k)])
            self.slot.__set__(obj, v)
        return v


def _install():
    from udapi.core.node import Node
    if isinstance(Node.__dict__.get('_parent'), _LazyParent):
        return True
    p, c = Node.__dict__.get('_parent'), Node.__dict__.get('_children')
    if type(p).__name__ != 'member_descriptor' or type(c).__name__ != 'member_descriptor':
        return False
    Node._parent = _LazyParent(p)
    Node._children = _LazyChildren(c)
    return True


class SymTree(_TreeBase):
    def __init__(self, name, n, forms=None, doc=None, eager=False, **kw):
        self._make(name, n, forms, doc)
        self.name = name
        self.p, self.d, c = cached(('tree', name, n), lambda: _topology(name, n))
        for k in range(1, n + 1):
            CTX.inputs['%s.p%d' % (name, k)] = self.p[k]
        if n:
            CTX.assume_fresh(c)
        self._anc = None
        self._sym = {}
        self.materialised = [None] * (n + 1)
        self.eager = eager or not _install()
        if n and type(self.root._children) is not list:
            self.make_list = type(self.root._children)
        else:
            self.make_list = list
        if self.eager:
            heads = [0] + [self.decide_head(k) for k in range(1, n + 1)]
            depth = {0: 0}

            def dp(k):
                if k not in depth:
                    depth[k] = dp(heads[k]) + 1
                return depth[k]
            for k in sorted(range(1, n + 1), key=dp):
                if heads[k]:
                    self.nodes[k].parent = self.nodes[heads[k]]
        else:
            from udapi.core.node import Node
            for k, node in enumerate(self.nodes):
                if k:
                    Node._parent.slot.__set__(node, _Pending(self, k))
                Node._children.slot.__set__(node, _Pending(self, k))

    # ---- deciding parts of the topology
    def decide_head(self, k):
        v = self.materialised[k]
        if v is None:
            v = self.materialised[k] = CTX.concretize(self.p[k])
        return v

    def decide_is(self, k, j):
        v = self.materialised[k]
        if v is not None:
            return v == j
        if CTX.branch(eqv(self.p[k], j)):
            self.materialised[k] = j
            return True
        return False

    # ---- terms over the initial topology
    def head(self, k):
        v = self.materialised[k]
        if v is None:
            v = self._sym.get(k)
            if v is None:
                v = self._sym[k] = SymInt(self.p[k])
        return v

    def depth(self, k):
        return SymInt(self.d[k]) if k else 0

    def anc(self, j, k):
        if k == 0 or j == k:
            return False
        if j == 0:
            return True
        if self._anc is None:
            self._anc, c = cached(('anc', self.name, self.n), self._closure)
            if c is not None:
                CTX.assume_fresh(c)
        return SymBool(self._anc[j, k])

    def _closure(self):
        anc, cs = {}, []
        for a in range(1, self.n + 1):
            for b in range(1, self.n + 1):
                if a != b:
                    anc[a, b] = z3.Bool('%s.a%d_%d' % (self.name, a, b))
        for (a, b), v in anc.items():
            ors = [self.p[b] == a]
            for m in range(1, self.n + 1):
                if m not in (a, b):
                    ors.append(z3.And(self.p[b] == m, anc[a, m]))
            cs.append(v == z3.Or(ors))
        return anc, z3.And(cs) if cs else None

    # ---- the current state, without deciding anything more
    def current(self, k):
        from udapi.core.node import Node
        if self.eager:
            return self.index.get(id(self.nodes[k].parent), -1)
        v = Node._parent.slot.__get__(self.nodes[k])
        if type(v) is _Pending:
            return self.head(k)
        return self.index.get(id(v), -1)

    def lists_ok(self):
        from udapi.core.node import Node
        if self.eager:
            return PlainTree.lists_ok(self)
        conds = []
        for j in sorted(self.alive):
            lst = Node._children.slot.__get__(self.nodes[j])
            if type(lst) is _Pending:
                # not read: it holds the initial children, which must still be the current ones
                for k in range(1, len(self.nodes)):
                    if k == j:
                        continue
                    h = self.head(k) if k <= self.n else -1
                    c = self.current(k) if k in self.alive else -1
                    if h is not c:
                        conds.append(_iff(h == j, c == j))
                continue
            ids = [id(x) for x in lst]
            if len(set(ids)) != len(ids) or any(self.index.get(i) not in self.alive for i in ids):
                return False
            ords = [x.ord for x in lst]
            for a, b in zip(ords, ords[1:]):
                conds.append(a < b)
            members = {self.index[i] for i in ids}
            for k in sorted(self.alive):
                if k:
                    c = self.current(k)
                    conds.append(c == j if k in members else not_(c == j))
        return and_(*conds)


def _topology(name, n):
    p = [None] + [z3.Int('%s.p%d' % (name, k)) for k in range(1, n + 1)]
    d = [ival(0)] + [z3.Int('%s.d%d' % (name, k)) for k in range(1, n + 1)]
    cs = []
    for k in range(1, n + 1):
        cs += [p[k] >= 0, p[k] <= n, p[k] != k, d[k] >= 1, d[k] <= n]
        for j in range(0, n + 1):
            if j != k:
                cs.append(z3.Implies(p[k] == j, d[k] == d[j] + 1))
    return p, d, z3.And(cs) if cs else None


def _iff(a, b):
    return or_(and_(a, b), and_(not_(a), not_(b)))
