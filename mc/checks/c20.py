"""C20: names of input and output files, compressed files, and routing of documents to files."""
import bz2
import contextlib
import gzip
import io
import itertools
import lzma
import os
import sys

from mc.core import require, equal, raises, scratch

TITLE = ('All short lists of file names, wildcards and file lists; all sequences of a few documents x all ways to specify where they are written; '
         'compressed and encoded inputs; all writers; vs. a reference model')
ASSUMPTIONS = ['names in paths contain no wildcard characters other than a single * in place of the whole name or extension']
TOKENS = ('a.txt', 'd/b.txt', '!*.txt', '!d/?.txt', '!none*', '@l1', '@d/l2', '@ABS/d/l2', '@-', '-', '@empty')
EXPECTED = {'!*.txt': ['a.txt', 'c.txt'], '!d/?.txt': ['d/b.txt', 'd/x.txt'], '!none*': None, '@l1': ['c.txt', 'with space,comma.txt', 'ABS/a.txt', 'd/x.txt'],
            '@d/l2': ['d/b.txt', 'd/../a.txt', 'ABS/c.txt'], '@ABS/d/l2': ['ABS/d/b.txt', 'ABS/d/../a.txt', 'ABS/c.txt'], '@-': ['s1.txt', 'ABS/s2.txt'], '@empty': []}
# documents: (loaded_from, docname)
DOCUMENTS = ((None, None), ('in/x.conllu', 'name1'), ('in/y.txt', 'sub/name2.conllu'), ('in/x.conllu', None), ('plain', 'name1'), ('deep/er/z.tar.conllu', 'n.x'))
OPTIONS = ({}, {'files': '-'}, {'files': 'o1'}, {'files': 'o1,new/o2'}, {'files': 'o1 - o2'}, {'files': '-,o1,o1'}, {'filehandle': True}, {'docname_as_file': True}, {'overwrite': True},
           {'path': 'out'}, {'path': 'out/'}, {'path': 'out/sub/'}, {'path': '*.new'}, {'path': 'out/*.new'}, {'path': 'out/one.conllu'}, {'path': '*/one.new'}, {'path': 'out/*'},
           {'files': 'o1', 'newline': '\r\n'}, {'path': 'out', 'encoding': 'utf-16'},
           {'files': 'o1', 'docname_as_file': True}, {'files': 'o1', 'overwrite': True}, {'docname_as_file': True, 'overwrite': True}, {'filehandle': True, 'overwrite': True},
           {'filehandle': True, 'docname_as_file': True})


def BOUNDS(tier):
    big = tier != 'quick'
    return {'tokens': 4 if big else 3, 'documents': 4 if big else 3, 'options': len(OPTIONS), 'kinds_of_documents': len(DOCUMENTS), 'files_read': 4 if big else 3, 'many': '12 files, documents or names'}


def shards(tier):
    bounds = BOUNDS(tier)
    result = [{'kind': 'names', 'length': n, 'first': f} for n in range(1, bounds['tokens'] + 1) for f in range(len(TOKENS))]
    result += [{'kind': 'write', 'options': o, 'count': bounds['documents']} for o in range(len(OPTIONS))]
    result += [{'kind': 'read', 'length': n} for n in range(1, bounds['files_read'] + 1)]
    result += [{'kind': 'many'}, {'kind': 'writers'}, {'kind': 'invalid'}, {'kind': 'pipeline'}]
    return result[::-1]


def run_shard(shard, rec):
    kind = shard['kind']
    if kind == 'names':
        for rest in itertools.product(TOKENS, repeat=shard['length'] - 1):
            for separator in (' ', ',', ', '):
                if shard['length'] > 1 or separator == ' ':
                    rec.run({'kind': kind, 'tokens': (TOKENS[shard['first']],) + rest, 'separator': separator})
    elif kind == 'write':
        for count in range(0, shard['count'] + 1):
            for documents in itertools.product(range(len(DOCUMENTS)), repeat=count):
                rec.run({'kind': kind, 'options': shard['options'], 'documents': documents})
    elif kind == 'read':
        for files in itertools.product(range(len(CONTENTS)), repeat=shard['length']):
            for merge in (0, 1):
                rec.run({'kind': kind, 'files': files, 'merge': merge})
    elif kind == 'many':
        for which in range(len(CONTENTS)):
            for merge in (0, 1):
                rec.run({'kind': 'read', 'files': [(which + i) % len(CONTENTS) for i in range(12)], 'merge': merge})
                rec.run({'kind': 'read', 'files': [which] * 12, 'merge': merge})
        for options in range(len(OPTIONS)):
            for first in range(len(DOCUMENTS)):
                for second in range(len(DOCUMENTS)):
                    rec.run({'kind': 'write', 'options': options, 'documents': [first, second] * 6})
        for token in TOKENS:
            for other in TOKENS:
                rec.run({'kind': 'names', 'tokens': [token, other] * 6, 'separator': ' '})
    elif kind == 'writers':
        for name in writers():
            for parameters in ({'files': 'out/o'}, {'path': 'p'}, {'filehandle': True}):
                rec.run({'kind': kind, 'name': name, 'parameters': parameters})
    elif kind == 'invalid':
        rec.run({'kind': kind})
    elif kind == 'pipeline':
        for count in range(1, 4):
            for sizes in itertools.product((1, 2), repeat=count):
                for options in ({'path': 'out'}, {'files': 'a b c'}, {'overwrite': 1}, {}, {'path': '*.new'}):
                    rec.run({'kind': kind, 'sizes': sizes, 'options': options})


def run_case(case, rec):
    here = os.getcwd()
    stdout, stdin = sys.stdout, sys.stdin
    with scratch() as folder:
        os.chdir(folder)
        try:
            globals()['case_' + case['kind']](case, os.path.realpath(folder), rec)
        finally:
            os.chdir(here)
            sys.stdout, sys.stdin = stdout, stdin
    rec.step()
    rec.trace()
    rec.state(str(case))


def put(name, content, mode='w'):
    folder = os.path.dirname(name)
    if folder:
        os.makedirs(folder, exist_ok=True)
    with open(name, mode, **({} if 'b' in mode else {'encoding': 'utf-8', 'newline': ''})) as handle:
        handle.write(content)


def all_files(top='.'):
    result = {}
    for folder, _, files in os.walk(top):
        for name in files:
            path = os.path.relpath(os.path.join(folder, name), top)
            with open(os.path.join(folder, name), 'rb') as handle:
                result[path] = handle.read()
    return result


# ---------------------------------------------------------------- names
def case_names(case, folder, rec):
    from udapi.core.files import Files
    put('d/l2', f'b.txt\n../a.txt\n\n{folder}/c.txt\n')
    put('l1', f'c.txt\nwith space,comma.txt\n{folder}/a.txt\nd/x.txt')
    put('empty', '')
    for name in ('a.txt', 'c.txt', 'd/b.txt', 'd/x.txt', 'd/long.txt'):
        put(name, name)
    tokens = [t.replace('ABS', folder) for t in case['tokens']]
    where = str(case)
    want = []
    listed = False
    for token in case['tokens']:
        names = EXPECTED.get(token, [token])
        if token == '@-':
            # the list can be read only once
            names, listed = [] if listed else names, True
        if names is None:
            want = None
            break
        want += [n.replace('ABS', folder) for n in names]
    sys.stdin = io.StringIO(f's1.txt\n\n{folder}/s2.txt\n')
    string = case['separator'].join(tokens)
    if want is None:
        require(isinstance(raises(Files, string), RuntimeError), 'unmatched-wildcard', where)
        return
    files = Files(string)
    equal(files.filenames, want, 'names', where)
    equal((files.filename, files.file_number, files.number_of_files), (None, 0, len(want)), 'start', where)
    for i, name in enumerate(want, 1):
        equal(files.has_next_file(), True, 'has-next', where)
        equal(files.next_filename(), name, 'next', where)
        equal((files.filename, files.file_number), (name, i), 'current', where)
    equal((files.has_next_file(), files.next_filename(), files.filename), (False, None, None), 'end', where)
    again = Files(list(want))
    equal([again.next_filename() for _ in range(len(want) + 1)], want + [None], 'list-of-names', where)


def case_invalid(case, folder, rec):
    from udapi.core.files import Files
    require(isinstance(raises(Files, ''), ValueError), 'empty-name', '')
    require(isinstance(raises(Files), ValueError), 'no-name', '')
    require(isinstance(raises(Files, 5), ValueError), 'number', '')
    require(isinstance(raises(Files, 'a', filehandle=io.StringIO()), ValueError), 'name-and-handle', '')
    handle = io.StringIO('x')
    files = Files(filehandle=handle)
    require(files.filehandle is handle, 'handle', '')
    require(files.next_filehandle() is handle and files.next_filehandle() is None, 'handle', '')
    require(isinstance(raises(Files, '@missing'), FileNotFoundError), 'missing-list', '')


# ---------------------------------------------------------------- writing
def document(number):
    from udapi.core.document import Document
    doc = Document()
    loaded, name = DOCUMENTS[number % 10]
    root = doc.create_bundle().create_tree()
    root.create_child(form='Č%d' % number)
    root.newdoc = name
    if loaded:
        doc.meta['loaded_from'] = loaded
    if name:
        doc.meta['docname'] = name
    return doc


def target_of(loaded, path):
    """Where a document loaded from the given file is written with the parameter `path`."""
    old_folder, _, old = loaded.rpartition('/')
    old_stem, dot, old_extension = old.rpartition('.')
    if not dot:
        old_stem, old_extension = old, ''
    else:
        old_extension = '.' + old_extension
    if path == '*.new':
        return (old_folder + '/' if old_folder else '') + old_stem + '.new'
    if path in ('out', 'out/', 'out/*'):
        return 'out/' + old
    if path == 'out/sub/':
        return 'out/sub/' + old
    if path == 'out/*.new':
        return 'out/' + old_stem + '.new'
    if path == 'out/one.conllu':
        return 'out/one.conllu/' + old
    assert path == '*/one.new'
    return (old_folder + '/' if old_folder else '') + 'one.new'


def case_write(case, folder, rec):
    from udapi.block.write.conllu import Conllu
    options = dict(OPTIONS[case['options']])
    where = str(case)
    captured = io.StringIO()
    sys.stdout = captured
    handle = None
    if options.get('filehandle'):
        handle = options['filehandle'] = io.StringIO()
    invalid = options.get('overwrite') and options.get('docname_as_file') or (options.get('overwrite') or options.get('docname_as_file')) and (handle is not None or options.get('files', '-') != '-')
    if invalid:
        exc = raises(Conllu, **options)
        require(isinstance(exc, ValueError), 'incompatible-parameters', f'{where} {exc!r}')
        return
    writer = Conllu(**options)
    writer.process_start()
    want, output, handled = {}, '', ''
    names = options.get('files', '-').replace(',', ' ').split()
    newline, encoding = options.get('newline', '\n'), options.get('encoding', 'utf-8')
    for position, number in enumerate(case['documents']):
        doc = document(number + 10 * position)
        loaded, docname = DOCUMENTS[number]
        text = document(number + 10 * position).to_conllu_string()
        target = None
        if handle:
            handled += text
        elif options.get('docname_as_file'):
            target = docname
        elif options.get('overwrite'):
            target = loaded
        elif options.get('path'):
            target = target_of(loaded, options['path']) if loaded else None
        elif names != ['-']:
            if position >= len(names):
                exc = raises(writer.apply_on_document, doc)
                require(isinstance(exc, RuntimeError), 'too-many-documents', f'{where} {exc!r}')
                require(sys.stdout is captured, 'standard-output', where)
                break
            target = names[position] if names[position] != '-' else None
        if target:
            want[os.path.normpath(target)] = text.replace('\n', newline).encode(encoding)
        elif not handle:
            output += text
        writer.apply_on_document(doc)
        require(sys.stdout is captured, 'standard-output', f'{where} document {position}')
        equal(all_files(), want, 'files', f'{where} document {position}')
        equal(captured.getvalue(), output, 'output', f'{where} document {position}')
        rec.step()
    writer.process_end()
    equal(all_files(), want, 'files', where)
    if handle:
        require(not handle.closed, 'handle-closed', where)
        equal(handle.getvalue(), handled, 'handle', where)


# ---------------------------------------------------------------- reading
CONTENTS = ('plain', 'gz', 'xz', 'bz2', 'bom')


def case_read(case, folder, rec):
    from udapi.block.read.conllu import Conllu
    names, texts = [], []
    for i, kind in enumerate(case['files']):
        doc = document(10 * i)
        text = doc.to_conllu_string()
        data = text.encode('utf-8')
        name = f'f{i}.conllu'
        kind = CONTENTS[kind]
        if kind == 'bom':
            data = b'\xef\xbb\xbf' + data
        elif kind != 'plain':
            name += '.' + kind
            data = {'gz': gzip, 'xz': lzma, 'bz2': bz2}[kind].compress(data)
        put(name, data, 'wb')
        names.append(name)
        texts.append(text)
    reader = Conllu(files=' '.join(names), merge=bool(case['merge']))
    docs = reader.read_documents()
    where = str(case)
    forms = [[n.form for n in d.nodes] for d in docs]
    if case['merge']:
        equal(forms, [[f'Č{10 * i}' for i in range(len(names))]], 'words', where)
    else:
        equal(forms, [[f'Č{10 * i}'] for i in range(len(names))], 'words', where)
        equal([d.meta['loaded_from'] for d in docs], names, 'loaded-from', where)


def writers():
    """Names of blocks for writing."""
    import udapi.block.write
    top = os.path.dirname(udapi.block.write.__file__)
    return sorted(n[:-3] for n in os.listdir(top) if n.endswith('.py') and n != '__init__.py')


def case_writers(case, folder, rec):
    """Each writer writes the same to a file as to the standard output."""
    import importlib
    from udapi.core.document import Document
    from udapi.core.basewriter import BaseWriter
    module = importlib.import_module('udapi.block.write.' + case['name'])
    classes = [c for c in vars(module).values() if isinstance(c, type) and issubclass(c, BaseWriter) and c.__module__ == module.__name__ and c.__name__.lower() == case['name']]
    if not classes:
        return

    def make():
        doc = Document()
        doc.from_conllu_string('# newdoc\n# sent_id = a\n# text = Čau ne.\n1-2\tČaun\t_\t_\t_\t_\t_\t_\t_\t_\n1\tČau\tčau\tINTJ\t_\t_\t0\troot\t0:root\t_\n'
                               '2\tne\tne\tPART\t_\tX=1\t1\tadvmod\t1:advmod\tSpaceAfter=No\n3\t.\t.\tPUNCT\t_\t_\t1\tpunct\t1:punct\t_\n\n')
        doc.meta['loaded_from'] = 'in/x.conllu'
        return doc
    where = str(case)
    plain = io.StringIO()
    sys.stdout = plain
    exc = raises(lambda: classes[0]().run(make()))
    failed = sys.stdout is not plain
    sys.stdout = plain
    if exc is not None:
        # the writer needs something which is not installed
        require(not isinstance(exc, (AttributeError, NameError, ValueError, OSError)) or failed, 'writer-failed', f'{where} {exc!r}')
        return
    expected = plain.getvalue()
    require(expected, 'nothing-written', where)
    sys.stdout = other = io.StringIO()
    parameters = dict(case['parameters'])
    handle = None
    if parameters.get('filehandle'):
        handle = parameters['filehandle'] = io.StringIO()
    classes[0](**parameters).run(make())
    require(sys.stdout is other, 'standard-output', where)
    equal(other.getvalue(), '', 'output', where)
    if handle:
        require(not handle.closed, 'handle-closed', where)
        equal(handle.getvalue(), expected, 'handle', where)
    else:
        name = 'out/o' if 'files' in parameters else 'p/x.conllu'
        found = all_files()
        equal(list(found), [name], 'files', where)
        equal(found[name].decode('utf-8'), expected, 'written', where)


def case_pipeline(case, folder, rec):
    """Reading and writing several files in one scenario."""
    import types
    from udapi.core.run import Run
    sources = {}
    for i, size in enumerate(case['sizes']):
        text = ''.join(f'# sent_id = s{i}{j}\n# text = w{i}{j}\n1\tw{i}{j}\t_\t_\t_\t_\t0\t_\t_\t_\n\n' for j in range(size))
        put(f'in/{i}.conllu', text)
        sources[f'in/{i}.conllu'] = text
    options = case['options']
    captured = io.StringIO()
    sys.stdout = captured
    scenario = ['read.Conllu', 'files=!in/*.conllu', 'util.Eval', 'node=node.form+="x"', 'write.Conllu'] + [f'{k}={v}' for k, v in options.items()]
    Run(types.SimpleNamespace(scenario=scenario)).execute()
    changed = {k: v.replace('\t_\t_\t_\t_\t0', 'x\t_\t_\t_\t_\t0') for k, v in sources.items()}
    want, output = dict(sources), ''
    for i, (name, text) in enumerate(sorted(changed.items())):
        if options == {'path': 'out'}:
            want[name.replace('in/', 'out/')] = text
        elif options == {'path': '*.new'}:
            want[name.replace('.conllu', '.new')] = text
        elif options == {'overwrite': 1}:
            want[name] = text
        elif options == {'files': 'a b c'}:
            want['abc'[i]] = text
        else:
            output += text
    where = str(case)
    require(sys.stdout is captured, 'standard-output', where)
    equal({k: v.decode('utf-8') for k, v in all_files().items()}, want, 'files', where)
    equal(captured.getvalue(), output, 'output', where)
