from sx import api as sx


@sx.harness(quick=[dict(k=3, size=3), dict(k=2, size=5)], thorough=[dict(k=4, size=4), dict(k=2, size=8)], reach=['block', 'parameter', 'number', 'refused', 'two blocks'],
            bounds='k tokens of up to size characters over two letters, digits, signs and the equal sign, parsed as a command line')
def parse(k, size):
    from udapi.core.run import _parse_command_line_arguments as parse
    tokens = [sx.str('tok%d' % i, 1, size, 'a.=17\u00b2_-+') for i in range(k)]
    names, args, bad = [], [], False
    for t in tokens:
        if '=' not in t:
            names.append(t)
            args.append([])
            sx.reach('block')
        elif not names:
            bad = True
            break
        else:
            key, _, value = t.partition('=')
            args[-1] = [(a, b) for a, b in args[-1] if a != key] + [(key, value)]
            sx.reach('parameter')
    if bad:
        sx.check(sx.raises(RuntimeError, lambda: parse(tokens)) is not None, 'a parameter before any block is accepted')
        sx.reach('refused')
        return
    if len(names) > 1:
        sx.reach('two blocks')
    got_names, got_args = parse(tokens)
    sx.check(sx.eq(list(got_names), names), 'block names')
    sx.check(len(got_args) == len(names), 'one parameter set per block')
    for g, want in zip(got_args, args):
        sx.check(len(g) == len(want), 'number of parameters')
        for key, value in want:
            sx.check(key in g, 'name of a parameter')
            v = g[key]
            digits = len(value) > 0 and value.isdecimal()
            if digits:
                sx.reach('number')
                sx.check(not isinstance(v, str) and v == int(value), 'digits become a number')
            else:
                sx.check(v == value, 'value of a parameter')


@sx.harness(quick=[dict(size=4)], thorough=[dict(size=6)], reach=['path', 'plain', 'private'],
            bounds='any block name of up to size characters over letters and dots')
def names(size):
    from udapi.core.run import _parse_block_name
    name = sx.str('name', 1, size, 'aB.')
    path, cls = _parse_block_name(name)
    i = name.rfind('.')
    sx.check(cls == name[i + 1:], 'class name')
    sx.check(path == (name[:i] if i >= 0 else ''), 'path')
    sx.reach('private' if i == 0 else 'path' if i > 0 else 'plain')


@sx.harness(quick=[dict(n=3, docs=3)], thorough=[dict(n=3, docs=5)], reach=['default reader', 'two readers', 'several documents'],
            bounds='n blocks, each a reader that delivers 1..docs documents or an ordinary block, run in order')
def run_blocks(n, docs):
    import argparse
    from udapi.core.run import Run
    from udapi.core.block import Block
    import udapi.core.run as run
    log = []

    class Recorder(Block):
        def __init__(self, name, limit=None):
            super().__init__()
            self.name, self.seen = name, 0
            if limit is not None:
                self.finished = False
                self.limit = limit

        def process_start(self):
            log.append(('start', self.name))

        def process_end(self):
            log.append(('end', self.name))

        def before_process_document(self, document):
            log.append(('before', self.name, id(document)))

        def process_document(self, document):
            log.append(('doc', self.name, id(document)))
            keep.append(document)
            self.seen += 1
            if hasattr(self, 'limit'):
                self.finished = self.seen >= self.limit

        def after_process_document(self, document):
            log.append(('after', self.name, id(document)))

    keep = []
    kinds = []
    blocks = []
    for i in range(n):
        lim = sx.choice('kind%d' % i, [None] + list(range(1, docs + 1)))
        kinds.append(lim)
        blocks.append(('b%d' % i, Recorder(i, lim), ''))
    readers = [k for k in kinds if k is not None]
    names = list(range(n))
    if not readers:
        run.Conllu = lambda: Recorder('default', 2)
        names = ['default'] + names
        rounds = 2
        sx.reach('default reader')
    else:
        rounds = max(readers)
        if len(readers) > 1:
            sx.reach('two readers')
    if rounds > 1:
        sx.reach('several documents')
    result = Run(argparse.Namespace(scenario=['x'])).run_blocks(blocks)
    starts = [e[1] for e in log if e[0] == 'start']
    ends = [e[1] for e in log if e[0] == 'end']
    sx.check([x for x in starts if x != 'default'] == list(range(n)), 'every block is started once, in order')
    sx.check([x for x in ends if x != 'default'] == list(range(n)), 'every block is finished once, in order')
    calls = [e for e in log if e[0] == 'doc']
    sx.check([e[1] for e in calls] == names * rounds, 'blocks are applied to every document in order')
    ids = [e[2] for e in calls]
    for r in range(rounds):
        sx.check(len(set(ids[r * len(names):(r + 1) * len(names)])) == 1, 'blocks of one round share the document')
    sx.check(len(set(ids)) == rounds, 'each round has a new document')
    for i, e in enumerate(log):
        if e[0] == 'doc':
            sx.check(log[i - 1] == ('before',) + e[1:] and log[i + 1] == ('after',) + e[1:], 'hooks around a document')
    last_start = max(i for i, e in enumerate(log) if e[0] == 'start')
    first_end = min(i for i, e in enumerate(log) if e[0] == 'end')
    sx.check(all(last_start < i < first_end for i, e in enumerate(log) if e[0] in ('before', 'doc', 'after')), 'all blocks start before the first document and end after the last')
    sx.check([b[1] for b in result if b[1] in [x[1] for x in blocks]] == [b[1] for b in blocks], 'the blocks are returned')


@sx.harness(quick=[dict()], reach=['ok', 'unknown block', 'unknown parameter'],
            bounds='command lines with real blocks (reader, util.Eval, write.Conllu) in any of the listed orders with any value of a parameter of 1..3 characters')
def real_blocks():
    import argparse
    from udapi.core.run import Run, create_block, _import_blocks, _parse_command_line_arguments
    v = sx.str('v', 1, 3, 'ab=_')
    kind = sx.choice('kind', ['ok', 'unknown block', 'unknown parameter'])
    sx.reach(kind)
    if kind == 'ok':
        scen = ['util.Eval', 'node=node.misc["x"] = ' + v, 'zones=' + v, 'read.Conllu', 'zone=' + v, 'util.Eval', 'tree=' + v]
        blocks = _import_blocks(*_parse_command_line_arguments(scen))
        sx.check([type(b[1]).__name__ for b in blocks] == ['Eval', 'Conllu', 'Eval'], 'classes')
        sx.check([b[0] for b in blocks] == ['util.Eval', 'read.Conllu', 'util.Eval'], 'names')
        sx.check(blocks[0][1].node == 'node.misc["x"] = ' + v and blocks[0][1].zones == v and blocks[1][1].zone == v
                 and blocks[2][1].tree == v and blocks[2][1].node is None and blocks[2][1].zones == 'all', 'parameters')
        twins = _import_blocks(*_parse_command_line_arguments(['util.Eval', 'tree=' + v, 'read.Conllu', 'util.Eval', 'tree=' + v]))
        sx.check(twins[0][1] is not twins[2][1] and twins[0][1].tree == twins[2][1].tree == v, 'the same block twice gives two blocks')
        b = create_block('util.Eval', node=v)
        sx.check(type(b).__name__ == 'Eval' and b.node == v, 'create_block')
    elif kind == 'unknown block':
        sx.check(sx.raises(ModuleNotFoundError, lambda: create_block('util.NoSuchBlock')) is not None, 'unknown block accepted')
    else:
        sx.check(sx.raises(TypeError, lambda: create_block('util.Eval', nosuch=1)) is not None, 'unknown parameter accepted')


@sx.harness(quick=[dict()], reach=['empty', 'not a list'], bounds='an empty scenario or one that is not a list')
def refused():
    import argparse
    from udapi.core.run import Run
    if sx.bool('empty'):
        sx.check(sx.raises(ValueError, lambda: Run(argparse.Namespace(scenario=[]))) is not None, 'empty scenario accepted')
        sx.reach('empty')
    else:
        sx.check(sx.raises(TypeError, lambda: Run(argparse.Namespace(scenario='read.Conllu'))) is not None, 'a string accepted')
        sx.reach('not a list')
