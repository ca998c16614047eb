"""C18: file specifications, iteration over files, names of written files."""
from sx import api as sx


class NS:
    def __init__(self, **kw):
        self.__dict__.update(kw)


def same_list(a, b):
    return len(a) == len(b) and all(x == y for x, y in zip(a, b))


@sx.harness(quick=[dict(n=7)], thorough=[dict(n=9)], reach=['two names', 'nothing'],
            bounds='any specification of n characters out of "a, .*?[-/~$" and the backslash, that contains no ! and no @')
def plain_spec(n):
    import udapi.core.files as F
    Files = F.Files
    spec = sx.str('spec', 1, n, 'a, .*?[-/~$\\')
    F.glob = F.open = None      # a plain name is neither a pattern nor a list
    want, cur = [], ''
    for i in range(len(spec)):
        c = spec[i]
        if c == ' ' or c == ',':
            if cur != '':
                want.append(cur)
            cur = ''
        else:
            cur = cur + c
    if cur != '':
        want.append(cur)
    got = Files(spec)
    if len(want) == 2:
        sx.reach('two names')
    if not want:
        sx.reach('nothing')
    sx.check(same_list(got.filenames, want), 'names separated by commas or spaces')
    sx.check(got.number_of_files == len(want), 'number of files')


@sx.harness(quick=[dict(k=2, m=1, unreached=("two matches",)), dict(k=1, m=2)], thorough=[dict(k=2, m=2), dict(k=3, m=1, unreached=("two matches",)), dict(k=1, m=4)],
            reach=['wildcard', 'list', "two matches", 'absolute entry', 'no match', 'standard input', 'empty line'],
            bounds='k items, each a plain name, a wildcard pattern or a list of files (or @-); any separators; patterns match 0 to m files; '
                   'lists have up to m relative or absolute entries or empty lines')
def mixed_spec(k, m, unreached=()):
    import io
    import udapi.core.files as F
    spec, want, matches, lists, failing = '', [], [], [], False
    stdin_used = False
    for i in range(k):
        if i:
            spec = spec + sx.str('sep%d' % i, 1, 2, ' ,')
        kind = sx.choice('kind%d' % i, ['plain', 'wildcard', 'list'])
        name = sx.str('name%d' % i, 1, 1, 'ab.')
        if kind == 'plain':
            spec = spec + name
            want.append(name)
        elif kind == 'wildcard':
            sx.reach('wildcard')
            found = [sx.str('match%d.%d' % (i, j), 1, 2, 'aB') for j in range(sx.choice('matches%d' % i, range(m + 1)))]
            pattern = name + '*'
            spec = spec + '!' + pattern
            matches.append((pattern, found))
            if not found:
                failing = True
                sx.reach('no match')
            if len(found) > 1:
                sx.reach("two matches")
            rest = list(found)
            while rest:
                least = rest[0]
                for x in rest[1:]:
                    if x < least:
                        least = x
                want.append(least)
                for j in range(len(rest)):
                    if rest[j] == least:
                        del rest[j]
                        break
        else:
            sx.reach('list')
            where = sx.choice('dir%d' % i, ['', 'd/', '/d/', 'd/e/', '/', './'] + ([] if stdin_used else ['-']))
            lines = []
            for j in range(sx.choice('entries%d' % i, range(m + 1))):
                entry = sx.choice('entry%d.%d' % (i, j), ['', '/', 'x'])
                if entry == '':
                    sx.reach('empty line')
                    lines.append('\n')
                    continue
                entry = (entry if entry == '/' else '') + sx.str('e%d.%d' % (i, j), 1, 2, 'ab,. ')
                lines.append(entry + '\n')
                if entry[0] == '/':
                    sx.reach('absolute entry')
                    want.append(entry)
                else:
                    want.append(entry if where == '-' else where + entry)
            if lines and lines[-1] != '\n' and sx.bool('unterminated%d' % i):
                lines[-1] = lines[-1][:-1]
            if where == '-':
                stdin_used = True
                sx.reach('standard input')
                spec = spec + '@-'
                lists.append(('-', lines))
            else:
                spec = spec + '@' + where + name
                lists.append((where + name, lines))
    matches.reverse()
    lists.reverse()

    class Handle:
        def __init__(self, lines):
            self.lines = lines

        def __enter__(self):
            return self

        def __exit__(self, *_):
            pass

        def __iter__(self):
            return iter(self.lines)

    def fake_glob(pattern):
        want_pattern, found = matches.pop()
        sx.check(pattern == want_pattern, 'the pattern is looked up')
        return list(found)

    def fake_open(name, *a, **kw):
        want_name, lines = lists.pop()
        sx.check(name == want_name, 'the list of files is opened')
        return Handle(lines)

    class Stdin:
        def __iter__(self):
            want_name, lines = lists.pop()
            sx.check(want_name == '-', 'standard input is read in its place')
            return iter(lines)
        buffer = None
    F.glob = NS(glob=fake_glob)
    F.open = fake_open
    F.sys = NS(stdin=Stdin())
    try:
        got = F.Files(spec)
    except RuntimeError:
        sx.check(failing, 'only a pattern without matches is an error')
        return
    sx.check(not failing, 'a pattern without matches is an error')
    sx.check(same_list(got.filenames, want), 'expanded names, in order')


@sx.harness(quick=[dict(n=3)], thorough=[dict(n=4)], reach=['compressed', 'two files'],
            bounds='0 to n files; name of one character and an extension of up to 3 characters out of "gzxb2"')
def iterate(n):
    import udapi.core.files as F
    names = []
    for i in range(sx.choice('files', range(n + 1))):
        name = sx.str('name%d' % i, 1, 1, 'ab')
        if i == 0 or sx.bool('extension%d' % i):
            name = name + '.' + sx.str('ext%d' % i, 0, 3, 'gzxb2')
        names.append(name)
    opened = []

    def opener(kind):
        def f(name, mode='r', encoding=None):
            opened.append((kind, name, mode, encoding))
            return len(opened)
        return f
    F.open, F.gzip, F.lzma, F.bz2 = opener('plain'), NS(open=opener('gz')), NS(open=opener('xz')), NS(open=opener('bz2'))
    enc = sx.choice('encoding', ['utf-8', 'utf-8-sig'])
    files = F.Files(list(names), encoding=enc)
    sx.check(files.number_of_files == len(names), 'number of files')
    sx.check(files.filename is None and files.file_number == 0, 'nothing before the first')
    if len(names) > 1:
        sx.reach('two files')
    for i, name in enumerate(names):
        sx.check(files.has_next_file(), 'there is a next file')
        if sx.bool('handle%d' % i):
            h = files.next_filehandle()
            sx.check(h == len(opened) and files.filehandle == h, 'handle of the file')
            kind, got, mode, e = opened[-1]
            want = 'gz' if name.endswith('.gz') else 'xz' if name.endswith('.xz') else 'bz2' if name.endswith('.bz2') else 'plain'
            if want != 'plain':
                sx.reach('compressed')
            sx.check(kind == want and mode == 'rt' and e == enc, 'opened as what its extension says')
            sx.check(got == name, 'the right file is opened')
        else:
            sx.check(files.next_filename() == name, 'next name')
        sx.check(files.file_number == i + 1 and files.filename == name, 'current file')
    sx.check(not files.has_next_file(), 'no file after the last')
    sx.check((files.next_filehandle() if sx.bool('last') else files.next_filename()) is None, 'end of files')
    sx.check(files.filename is None and not files.has_next_file(), 'nothing after the last')


class Recorder:
    """Files in memory; one name written twice is overwritten."""

    def __init__(self):
        self.written = []

    def open(self, name, mode, encoding=None, newline=None):
        out = sx.out()
        rec = [name, out, None, mode, encoding, newline]

        def close():
            rec[2] = out.getvalue()
        out.close = close
        self.written.append(rec)
        return out


def writer_class():
    from udapi.core.basewriter import BaseWriter

    class W(BaseWriter):
        def process_document(self, document):
            print(document.mark)
    return W


def prepare():
    import udapi.core.basewriter as bw
    rec = Recorder()
    made = []

    class P:
        def __init__(self, name):
            self.name = name

        @property
        def parent(self):
            name = self.name

            class M:
                @staticmethod
                def mkdir(parents=False, exist_ok=False):
                    made.append(name)
        # parent.mkdir
            return M
    bw.Path = P
    bw.open = rec.open
    return rec, made


def run_writer(make, docs, rec):
    """Apply the writer to the documents; returns (what went to stdout, error)."""
    import sys
    import logging
    logging.disable(logging.CRITICAL)
    old = sys.stdout
    out = sx.out()
    sys.stdout = out
    error = None
    try:
        w = make()
        try:
            for d in docs:
                w.apply_on_document(d)
                sx.check(sys.stdout is out, 'standard output is restored')
        except RuntimeError as e:
            error = e
    finally:
        sys.stdout = old
    return out.getvalue(), error


def document(i, **meta):
    from udapi.core.document import Document
    d = Document()
    d.mark = 'doc%d' % i
    for k, v in meta.items():
        if v is not None:
            d.meta[k] = v
    return d


def check_written(rec, want, stdout, want_stdout):
    sx.check(stdout == want_stdout, 'written to standard output')
    sx.check(len(rec.written) == len(want), 'number of files written')
    for (name, _, content, mode, enc, nl), (wname, wcontent) in zip(rec.written, want):
        sx.check(name == wname, 'name of the written file')
        sx.check(content == wcontent, 'each document in its file, which is closed')
        sx.check(mode == 'wt' and enc == 'utf-8' and nl == '\n', 'mode, encoding, newline')


@sx.harness(quick=[dict(n=3)], thorough=[dict(n=4)], reach=['stdout', 'too many documents'],
            bounds='a list of up to n file names (one of them maybe -), up to n + 1 documents')
def listed(n):
    rec, made = prepare()
    names = ['-' if sx.bool('dash%d' % i) else sx.str('name%d' % i, 1, 2, 'ab/') for i in range(sx.choice('names', range(1, n + 1)))]
    docs = [document(i) for i in range(sx.choice('docs', range(n + 2)))]
    W = writer_class()
    as_string = sx.bool('as string')
    if len(names) == 1 and names[0] == '-':
        as_string = False
    spec = names
    if as_string:
        spec = names[0]
        for x in names[1:]:
            spec = spec + ',' + x
    out, error = run_writer(lambda: W(files=spec), docs, rec)
    want, want_out = [], ''
    for i, d in enumerate(docs[:len(names)]):
        if names[i] == '-':
            sx.reach('stdout')
            want_out += 'doc%d\n' % i
        else:
            want.append((names[i], 'doc%d\n' % i))
    if len(docs) > len(names):
        sx.reach('too many documents')
    sx.check((error is not None) == (len(docs) > len(names)), 'more documents than names is an error')
    check_written(rec, want, out, want_out)


@sx.harness(quick=[dict(n=2)], thorough=[dict(n=3)], reach=['no name'],
            bounds='up to n documents, with a name of 1 or 2 characters or without; docname_as_file or overwrite or neither')
def by_document(n):
    rec, made = prepare()
    how = sx.choice('how', ['docname_as_file', 'overwrite', 'neither'])
    W = writer_class()
    docs, want, want_out = [], [], ''
    for i in range(sx.choice('docs', range(n + 1))):
        docname = sx.str('docname%d' % i, 1, 2, 'ab.') if sx.bool('named%d' % i) else None
        loaded = sx.str('loaded%d' % i, 1, 2, 'ab/') if sx.bool('loaded?%d' % i) else None
        docs.append(document(i, docname=docname, loaded_from=loaded))
        name = docname if how == 'docname_as_file' else loaded if how == 'overwrite' else None
        if name is None:
            sx.reach('no name')
            if how == 'neither' or not want:
                want_out += 'doc%d\n' % i
            else:
                # a document without a name follows one that was written to a file
                want_out += 'doc%d\n' % i
        else:
            want.append((name, 'doc%d\n' % i))
    kw = {} if how == 'neither' else {how: True}
    out, error = run_writer(lambda: W(**kw), docs, rec)
    sx.check(error is None, 'no error')
    check_written(rec, want, out, want_out)


@sx.harness(quick=[dict()], reach=['directory', 'name', 'extension', 'nothing replaced'],
            bounds='loaded name: directory out of four, base of 1-2 characters, extension of 0-2; the path template has a directory, a base '
                   'and an extension, each kept (empty or *) or replaced by 1-2 characters')
def path_template():
    rec, made = prepare()
    old_dir = sx.choice('old dir', ['', 'd', '/d', 'd/e'])
    base = sx.str('base', 1, 2, 'ab')
    ext = '.' + sx.str('ext', 1, 2, 'cd') if sx.bool('has ext') else ''
    if ext and sx.bool('dot'):
        # the extension begins at the last dot
        base = base + '.' + sx.str('rest', 1, 1, 'abc')
    loaded = (old_dir + '/' if old_dir else '') + base + ext
    tdir = sx.choice('template dir', ['', '*', 'x', '/x/y', 'new'])
    tbase = sx.choice('template base', ['', '*', 'x'])
    text = sx.choice('template ext', ['', '.*', 'x'])
    newdir, newbase, newext = old_dir, base, ext
    if tdir == 'new':
        tdir = sx.str('tdir', 1, 2, 'ab')
    if tdir not in ('', '*'):
        newdir = tdir
        sx.reach('directory')
    if tbase == 'x':
        tbase = newbase = sx.str('tbase', 1, 2, 'ab')
        sx.reach('name')
    if text == 'x':
        text = newext = '.' + sx.str('text', 1, 2, 'cd')
        sx.reach('extension')
    if newdir == old_dir and newbase == base and newext == ext:
        sx.reach('nothing replaced')
    # .ext alone would be a base name, and a template without * must end in / to be a directory only
    sx.assume(not (tbase == '' and text != ''))
    path = (tdir + '/' if tdir != '' else '') + tbase + text
    sx.assume(path != '')
    if '*' not in path and (tbase != '' or text != ''):
        # without a wildcard the whole path is a directory
        sx.assume(False)
    if '*' not in path and sx.bool('final slash left out'):
        path = path[:-1]
    W = writer_class()
    out, error = run_writer(lambda: W(path=path), [document(0, loaded_from=loaded)], rec)
    want = (newdir + '/' if newdir != '' else '') + newbase + newext
    check_written(rec, [(want, 'doc0\n')], out, '')
    sx.check(len(made) == 1 and made[0] == want, 'the directory of the file is created')
