"""C50: the UDPipe wrappers (the model itself is replaced by a stand-in with any output)."""
import os
import sys
import types
from udapi.core.document import Document
from sx import api as sx
from harness.common import check_tree, check_wf

ATTRS = ('form', 'lemma', 'upos', 'xpos', 'feats', 'deprel', 'misc')


class Word:
    def __init__(self, id, row, head=0):
        self.id, self.head = id, head
        self.form, self.misc = row[0], row[6]
        self.lemma = self.upostag = self.xpostag = self.feats = self.deprel = ''
        self.row = row


class Words:
    """A C++ vector."""
    def __init__(self):
        self.items = []

    def size(self):
        return len(self.items)

    def append(self, word):
        self.items.append(word)

    def __getitem__(self, i):
        return self.items[i]


class Sentence:
    def __init__(self):
        self.words, self.text = Words(), ''

    def getText(self):
        return self.text


class Tokenizer:
    """Returns the sentences prepared in Model.sentences: pairs (text, rows)."""
    def setText(self, text):
        self.asked = text
        self.left = list(Model.sentences) if Model.sentences is not None else default(text)
        Model.texts.append(text)

    def nextSentence(self, sentence):
        if not self.left:
            return False
        sentence.text, rows = self.left.pop(0)
        sentence.words.append(Word(0, ('<root>', '', '', '', '', '', '')))
        for i, row in enumerate(rows, 1):
            sentence.words.append(Word(i, row))
        return True


def default(text):
    """Sentences end with full stops, words are separated by spaces, the first word is the head."""
    out = []
    for p in text.split('.')[:-1]:
        p = p.strip() + '.'
        out.append((p, [(f, 'l' + f, 'U', '', '', 'dep', '', lambda i: 0 if i == 1 else 1) for f in p.replace('.', ' .').split()]))
    return out


class Model:
    DEFAULT = ''
    sentences, heads, texts = [], [], []

    @staticmethod
    def load(path):
        return Model()

    def newTokenizer(self, options):
        return Tokenizer()

    def tag(self, sentence, options):
        for w in sentence.words.items[1:]:
            w.lemma, w.upostag, w.xpostag, w.feats = w.row[1:5]

    def parse(self, sentence, options):
        # the stand-in parser knows the heads of the words of the whole text
        ids = [w.id for w in sentence.words.items]
        sx.check(ids == list(range(len(ids))), 'the parser gets words numbered from one')
        for w in sentence.words.items[1:]:
            sx.check(w.upostag == w.row[2], 'the parser gets tagged words')
            w.head, w.deprel = w.row[7](w.id) if callable(w.row[7]) else w.row[7][len(ids) - 2], w.row[5]


class ProcessingError:
    message = ''

    def occurred(self):
        return False


class Pipeline:
    DEFAULT = 'default'

    def __init__(self, model, input, tagger, parser, output):
        sx.check(input == 'horizontal' and output == 'conllu', 'the formats of the pipeline')

    def process(self, data, error):
        return Pipeline.answer(data)


def install():
    mod = types.ModuleType('ufal.udpipe')
    for cls in (Model, Pipeline, ProcessingError, Sentence):
        setattr(mod, cls.__name__, cls)
    sys.modules.setdefault('ufal', types.ModuleType('ufal'))
    sys.modules['ufal.udpipe'] = mod


install()


def conllu(sentences):
    """The answer of UDPipe: rows (id, form, lemma, upos, xpos, feats, head, deprel, misc)."""
    out = ['# generator = UDPipe\n# newdoc\n# newpar\n']
    for i, (text, rows) in enumerate(sentences, 1):
        out.append('# sent_id = %d\n' % i)
        if text is not None:
            out.append('# text = ' + text + '\n')
        for r in rows:
            out.append('\t'.join([r[0], r[1], r[2], r[3], r[4], r[5], r[6], r[7], '_', r[8]]) + '\n')
        out.append('\n')
    return ''.join(out)


def heads(name, n, k=None):
    """Heads of a tree over n words (k: only those with one word attached to the root and fixed shapes)."""
    hs = [sx.choice('%s%d' % (name, i), [h for h in range(n + 1) if h != i]) for i in range(1, n + 1)]
    for i in range(1, n + 1):
        j, steps = i, 0
        while j and steps <= n:
            j, steps = hs[j - 1], steps + 1
        sx.assume(j == 0)
    return hs


def tool(online):
    if online:
        from udapi.tool.udpipeonline import UDPipeOnline
        return UDPipeOnline(model='m')
    from udapi.tool.udpipe import UDPipe
    return UDPipe(os.path.abspath(__file__))


# ------------------------------------------------------------ tag_parse_tree
@sx.harness(quick=[dict(n=3, size=1)], thorough=[dict(n=3, size=2), dict(n=4, size=1)], reach=['tag', 'parse', 'both', 'online', 'offline', 'mwt'],
            bounds='every tree of n words, tagged and parsed to any tree of n words with any lemmas of up to size characters, with the local model or the online service')
def tag_parse(n, size):
    online = sx.bool('online')
    t = sx.tree('t', n)
    for k in range(1, n + 1):
        x = t.nodes[k]
        x.form, x.lemma, x.upos, x.xpos, x.feats, x.deprel, x.misc = 'w%d' % k, 'L%d' % k, 'U%d' % k, 'X%d' % k, 'F=%d' % k, 'd%d' % k, 'M=%d' % k
    if sx.bool('mwt'):
        t.root.create_multiword_token(t.nodes[1:3], form='w12')
        sx.reach('mwt')
    t.root.text, t.root.comment = 'the text', ' a comment'
    tag, parse = sx.choice('what', [(True, True), (True, False), (False, True)])
    sx.reach('both' if tag and parse else 'tag' if tag else 'parse')
    sx.reach('online' if online else 'offline')
    hs = heads('new', n) if parse else [0] + [1] * (n - 1)
    lemmas = [sx.str('lemma%d' % k, 1, size, 'ident') if k == 2 else 'l%d' % k for k in range(1, n + 1)]
    feats = ['_', 'G=1', 'G=2|H=1', 'G=3']
    rows = [(str(k), 'w%d' % k, lemmas[k - 1], 'u%d' % k, ['x%d' % k, '_'][k % 2], feats[k - 1], str(hs[k - 1]), 'r%d' % k, '_') for k in range(1, n + 1)]
    asked = []

    def answer(data):
        asked.append(data)
        return conllu([(None, rows)])

    def request(params, method='process'):
        sx.check(method == 'process' and params['model'] == 'm' and params['input'] == 'horizontal' and 'tokenizer' not in params, 'the input is tokenized')
        sx.check(('tagger' in params or not tag) and ('parser' in params) == parse, 'what is asked for')
        return answer(params['data'])

    Pipeline.answer = staticmethod(answer)
    model = tool(online)
    if online:
        model.perform_request = request
    before = [t.current(k) for k in range(n + 1)]
    model.tag_parse_tree(t.root, tag=tag, parse=parse)
    sx.check(asked == [' '.join('w%d' % k for k in range(1, n + 1))], 'the words are sent in the order of the sentence')
    sx.check(t.order() == list(range(1, n + 1)), 'the same words')
    check_tree(t, 'parsed')
    for k in range(1, n + 1):
        x = t.nodes[k]
        sx.check(x.form == 'w%d' % k and str(x.misc) == 'M=%d' % k, 'forms and MISC stay')
        if tag:
            sx.check(sx.eq(x.lemma, lemmas[k - 1]), 'lemma of the model')
            sx.check(x.upos == 'u%d' % k and x.xpos in [['x%d' % k, None, '_'], [None, '_']][0 if not k % 2 else 1] and str(x.feats) == feats[k - 1], 'tags of the model')
        else:
            sx.check(x.lemma == 'L%d' % k and x.upos == 'U%d' % k and x.xpos == 'X%d' % k and str(x.feats) == 'F=%d' % k, 'tags stay')
        if parse:
            sx.check(t.current(k) == hs[k - 1] and x.deprel == 'r%d' % k, 'head and relation of the model')
        else:
            sx.check(t.current(k) == before[k] and x.deprel == 'd%d' % k, 'head and relation stay')
    sx.check(t.root.text == 'the text' and t.root.comment == ' a comment', 'text and comments stay')


# ------------------------------------------------------------ tokenization
def model_output(name, counts, symbolic):
    """Sentences of the model: lists of (form, lemma, upos, xpos, feats, deprel, misc, heads by sentence length)."""
    out, total = [], sum(counts)
    k = 0
    for s, n in enumerate(counts):
        rows = []
        for i in range(1, n + 1):
            k += 1
            form = sx.str(name + 'form%d' % k, 1, 2, 'ident') if k == symbolic else 'w%d' % k
            rows.append((form, 'l%d' % k, 'u%d' % k, ['x%d' % k, ''][k % 2], ['', 'G=%d' % k][k % 2], 'r%d' % k, ['', 'SpaceAfter=No'][k % 2]))
        out.append(rows)
    return out


@sx.harness(quick=[dict(n=3)], thorough=[dict(n=4)], reach=['tokens', 'tag', 'parse', 'one', 'split', 'joined'],
            bounds='any text segmented by the local model to one or two sentences of together n words with any trees')
def tokenize(n):
    first = sx.choice('first', range(1, n + 1))
    counts = [first, n - first] if first < n else [n]
    split = sx.bool('resegment')
    text = sx.str('text', 1, 2, 'text')
    output = model_output('', counts, 1)
    tag, parse = sx.choice('what', [(False, False), (True, False), (True, True)])
    parts = counts if split else [n]
    hs = [heads('h%d-' % s, c) for s, c in enumerate(parts)] if parse else [[0] * c for c in parts]
    flat = [h for x in hs for h in x]
    rows, k = [], 0
    for x in output:
        rows.append([])
        for r in x:
            rows[-1].append(r + ([flat[k]] * n,))
            k += 1
    Model.sentences = [('s%d' % i, x) for i, x in enumerate(rows)]
    Model.texts = []
    root = Document().create_bundle().create_tree()
    root.text = text
    model = tool(False)
    trees = model.tokenize_tag_parse_tree(root, resegment=split, tag=tag, parse=parse)
    sx.check(len(Model.texts) == 1 and sx.eq(Model.texts[0], text), 'the text of the sentence is tokenized')
    sx.check(len(trees) == len(parts) and trees[0] is root, 'the first tree is the given one')
    sx.reach('parse' if parse else 'tag' if tag else 'tokens')
    sx.reach('one' if len(counts) == 1 else 'split' if split else 'joined')
    allrows = [r for x in rows for r in x]
    start = 0
    for s, tree in enumerate(trees):
        check_wf(tree, 'tokenized')
        words = tree.descendants
        sx.check(len(words) == parts[s], 'the words of the model')
        sx.check(tree.text == 's%d' % s if split else sx.eq(tree.text, text), 'the text of the tree')
        for i, x in enumerate(words):
            r = allrows[start + i]
            sx.check(sx.eq(x.form, r[0]) and x.misc['SpaceAfter'] == ('No' if r[6] else ''), 'form and SpaceAfter of the model')
            if tag:
                sx.check(x.lemma == r[1] and x.upos == r[2] and x.xpos in (r[3], r[3] or '_', r[3] or None) and str(x.feats) == (r[4] or '_'), 'tags of the model')
            head = x.parent.ord
            sx.check(head == (hs[s][i] if parse else 0), 'the head')
            if parse:
                sx.check(x.deprel == r[5], 'the relation')
            sx.check('' not in (x.lemma, x.upos, x.xpos, x.deprel), 'no attribute is an empty string, which CoNLL-U does not allow')
        start += parts[s]


def lines(words, hs=None, tag=True):
    return [(str(i), w, 'l' + w if tag else '_', 'U' if tag else '_', '_', '_', str(hs[i - 1]) if hs else '_', 'dep' if hs else '_', '_') for i, w in enumerate(words, 1)]


class Service:
    """The REST service: splits plain text to sentences after full stops unless it is presegmented (one sentence per line)."""
    def __init__(self, mwt=False):
        self.asked, self.mwt = [], mwt

    def __call__(self, params, method='process'):
        self.asked.append(params)
        options = params['tokenizer'].split(';')
        sx.check(all(o in ('', 'presegmented', 'ranges') for o in options), 'known options of the tokenizer')
        data, pieces = params['data'], []
        for line in data.split('\n'):
            if 'presegmented' in options:
                pieces.append(line)
            else:
                pieces += [p + '.' for p in line.split('.') if p.strip()]
        pieces = [p.strip() for p in pieces if p.strip()]
        if params.get('output'):
            return '\n'.join(pieces) + '\n'
        out, pos = [], 0
        for p in pieces:
            words = p.replace('.', ' .').split()
            hs = [0] + [1] * (len(words) - 1) if 'parser' in params else None
            rows = lines(words, hs, 'tagger' in params)
            if 'ranges' in options:
                rows = [r[:8] + ('TokenRange=%s' % r[0],) for r in rows]
            if self.mwt:
                rows.insert(0, ('1-2', words[0] + words[1], '_', '_', '_', '_', '_', '_', 'M=1'))
            out.append((p, rows))
        return conllu(out)


TEXTS = ['ab cd. ef.', 'gh ij kl.', 'mn. op. qr.']


def flags():
    return sx.choice('what', [(False, False), (True, False), (True, True)])


@sx.harness(quick=[dict(n=3)], thorough=[dict(n=3)], reach=['one', 'split', 'ranges', 'mwt', 'no tags'],
            bounds='texts of one to n sentences, tokenized by the online service (stand-in) with any of its options, with multi-word tokens or not')
def online_tokenize(n):
    text = sx.choice('text', TEXTS[:n])
    split, ranges = sx.bool('resegment'), sx.bool('ranges')
    tag, parse = flags()
    mwt = sx.bool('mwt')
    doc = Document()
    bundle = doc.create_bundle()
    bundle.bundle_id = 'b'
    root = bundle.create_tree()
    root.text = text
    model = tool(True)
    model.perform_request = Service(mwt)
    trees = model.tokenize_tag_parse_tree(root, resegment=split, tag=tag, parse=parse, ranges=ranges)
    pieces = [p.strip() + '.' for p in text.split('.')[:-1]] if split else [text]
    sx.check(len(trees) == len(pieces) and trees[0] is root and root.bundle is bundle and bundle.trees == [root] and root.sent_id == 'b', 'the trees, the given one first')
    sx.reach('split' if len(pieces) > 1 else 'one')
    for tree, p in zip(trees, pieces):
        check_wf(tree, 'tokenized')
        words = p.replace('.', ' .').split()
        sx.check([x.form for x in tree.descendants] == words and tree.text == p, 'the words')
        sx.check([x.misc['TokenRange'] for x in tree.descendants] == [str(i) if ranges else '' for i in range(1, len(words) + 1)], 'the ranges')
        sx.check([x.lemma for x in tree.descendants] == ['l' + w if tag else '_' for w in words], 'the tags')
        sx.check([x.parent.ord for x in tree.descendants] == [0] + [1 if parse else 0] * (len(words) - 1), 'the heads')
        sx.check(all(x.root is tree for x in tree.descendants), 'the words belong to their tree')
        if mwt:
            m = tree.multiword_tokens
            sx.check(len(m) == 1 and m[0].words == tree.descendants[:2] and m[0].root is tree and str(m[0].misc) == 'M=1', 'the multi-word token')
            m[0].remove()
            sx.check(tree.multiword_tokens == [] and tree.descendants[0].multiword_token is None, 'the multi-word token can be removed')
            sx.reach('mwt')
        if ranges:
            sx.reach('ranges')
        if not tag:
            sx.reach('no tags')


# ------------------------------------------------------------ udpipe.Base
@sx.harness(quick=[dict(b=2)], thorough=[dict(b=3)], reach=['split', 'one', 'two zones', 'skipped', 'online', 'offline', 'segments', 'whole document', 'delete'],
            bounds='documents of b bundles with one or two zones and texts of one to three sentences, processed by the online service or the local model (stand-ins), all zones or one')
def base(b):
    from udapi.block.udpipe.base import Base
    what = sx.choice('block', ['tokenize', 'segment', 'document'])
    zones = sx.choice('zones', ['all', 'b'] if what != 'document' else ['all'])
    split = sx.bool('resegment') if what != 'segment' else True
    tag, parse = sx.choice('what', [(False, False), (True, True)]) if what != 'segment' else (False, False)
    old = sx.bool('delete') if what == 'tokenize' else False
    doc = Document()
    kinds, texts = [], {}
    for i in range(b):
        bundle = doc.create_bundle()
        bundle.bundle_id = 's%d' % i
        kind = sx.choice('zones%d' % i, ['a', 'b', 'ab']) if what != 'document' else ' '
        kinds.append(kind)
        for z in kind:
            tree = bundle.create_tree(z.strip())
            tree.text = TEXTS[(i + (z == 'b')) % 3]
            texts[tree.sent_id] = tree.text
            if old:
                tree.create_child(form='old').create_child(form='older')
    online = what == 'document' or sx.bool('online')
    sx.reach('online' if online else 'offline')
    Model.sentences = None
    model = tool(online)
    service = Service()
    if online:
        model.perform_request = service
    block = Base(model_alias='m', online=True, zones=zones, tokenize=what != 'segment', tag=tag, parse=parse, resegment=split, delete_nodes=old)
    block._tool = model
    if what != 'document' and zones == 'all':
        # the local model processes tree by tree
        block.online = False
    bundles = list(doc.bundles)
    mine = lambda z: zones == 'all' or z == zones
    block.apply_on_document(doc)
    for i, bundle in enumerate(doc.bundles, 1):
        sx.check(bundle.number == i and bundle.document is doc, 'bundles are numbered by position')
        sx.check(len(bundle.trees) > 0 and all(t.bundle is bundle for t in bundle.trees), 'each bundle has its trees')
        for t in bundle.trees:
            check_wf(t, 'processed')
    ids = [t.sent_id for t in doc.trees]
    sx.check(len(set(ids)) == len(ids), 'sentence ids are unique')
    if old:
        sx.reach('delete')
    if what == 'document':
        pieces = [p for i in range(b) for p in ([q.strip() + '.' for q in TEXTS[i % 3].split('.')[:-1]] if split else [TEXTS[i % 3]])]
        sx.check([t.text for t in doc.trees] == pieces, 'the sentences of the document in their order')
        sx.check(all([x.form for x in t.descendants] == t.text.replace('.', ' .').split() for t in doc.trees), 'the words')
        sx.check(len(service.asked) == 1, 'one request')
        sx.check([id(x) for x in doc.bundles[:b]] == [id(x) for x in bundles], 'the bundles are reused')
        sx.reach('whole document')
        return
    # the original bundles, each followed by its new bundles
    where = [[j for j, x in enumerate(doc.bundles) if x is y] for y in bundles]
    sx.check(all(len(w) == 1 for w in where), 'each bundle occurs once')
    where = [w[0] for w in where] + [len(doc.bundles)]
    sx.check(where[0] == 0 and where == sorted(where), 'in the original order')
    for i in range(b):
        group = doc.bundles[where[i]:where[i + 1]]
        extra = []
        for z in kinds[i]:
            text = TEXTS[(i + (z == 'b')) % 3]
            pieces = [q.strip() + '.' for q in text.split('.')[:-1]] if split and mine(z) else [text]
            tree = group[0].get_tree(z)
            sx.check(tree.text == pieces[0], 'the first sentence stays in its bundle')
            forms = [x.form for x in tree.descendants]
            if what == 'segment':
                sx.check(forms == [], 'segmented only')
                sx.reach('segments')
            elif mine(z):
                sx.check(forms == pieces[0].replace('.', ' .').split(), 'the words of the first sentence')
            else:
                sx.check(forms == (['old', 'older'] if old else []), 'other zones stay')
                sx.reach('skipped')
            extra += [(z, p) for p in pieces[1:]]
            sx.reach('split' if len(pieces) > 1 else 'one')
        sx.check([(t.zone, t.text) for x in group[1:] for t in x.trees] == extra, 'further sentences follow in their order')
        if what != 'segment':
            sx.check(all([x.form for x in t.descendants] == t.text.replace('.', ' .').split() for y in group[1:] for t in y.trees), 'words of further sentences')
        if len(kinds[i]) == 2:
            sx.reach('two zones')
        if len(group) == 1:
            sx.check(group[0].bundle_id == 's%d' % i, 'the id of a bundle which is not split stays')
