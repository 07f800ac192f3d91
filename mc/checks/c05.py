"""C05: all loading modes give the same sentences, only partitioned differently."""
import contextlib
import io
import itertools
import os
import re

from mc.core import Fail, require, equal, scratch
from mc import conllu
from mc.conllu import word, sentence

TITLE = ('All sequences of sentence kinds (zones, missing ids, newdoc, empty trees) up to the length bound x all splits '
         'into files x loading modes x blank-line layouts, vs. a partition model')
ASSUMPTIONS = ['sent_ids are unique (except for zones of one bundle, which are adjacent)',
               'documents without any bundle are ignored in the comparison',
               'max_docs without split_docs: every file starts with newdoc']
# kind: (has id, zone, newdoc, same bundle as previous, empty)
KINDS = {
    's': dict(id=True, zone='', newdoc=None),
    'D': dict(id=True, zone='', newdoc='id'),
    'z': dict(id=True, zone='en', newdoc=None),
    'Z': dict(id=True, zone='en', newdoc=True),
    'y': dict(id=False, zone='cs', newdoc=None),     # the id of the previous tree, another zone
    'x': dict(id=False, zone='de_a', newdoc=None),   # -"-
    'v': dict(id=False, zone='', newdoc=None),       # -"-
    'n': dict(id=False, zone='', newdoc=None),
    'N': dict(id=False, zone='', newdoc='id'),
    'e': dict(id=True, zone='', newdoc=None, empty=True),
}


def BOUNDS(tier):
    return {'max_sentences': 4 if tier == 'quick' else 5, 'max_files': 3, 'modes': [m[0] for m in MODES],
            'long_inputs': 'all valid sequences of up to 3 sentences repeated to 13 (single sentences also 25) sentences, in 1, 2 and 13 files',
            'max_sentences_docs_and_zones': 5 if tier == 'quick' else 6}


MODES = [
    ('plain', {}), ('merge', {'merge': 1}), ('split', {'split_docs': 1}), ('split-merge', {'split_docs': 1, 'merge': 1}),
    ('b1', {'bundles_per_doc': 1}), ('b2', {'bundles_per_doc': 2}), ('b2-merge', {'bundles_per_doc': 2, 'merge': 1}),
    ('b3', {'bundles_per_doc': 3}), ('b2-split', {'bundles_per_doc': 2, 'split_docs': 1}),
    ('all', {'sent_id_filter': '.*'}), ('filter', {'sent_id_filter': 's[024]'}),
    ('filter-split', {'sent_id_filter': 's[13]', 'split_docs': 1}), ('filter-merge', {'sent_id_filter': 's[02]', 'merge': 1}),
    ('ignore', {'ignore_sent_id': 1}), ('ignore-split', {'ignore_sent_id': 1, 'split_docs': 1}),
    ('zone', {'zone': 'my'}), ('zone-split', {'zone': 'my', 'split_docs': 1}),
    ('max1', {'max_docs': 1}), ('max2', {'max_docs': 2}), ('max1-split', {'max_docs': 1, 'split_docs': 1}),
    ('max2-split', {'max_docs': 2, 'split_docs': 1}), ('max2-split-merge', {'max_docs': 2, 'split_docs': 1, 'merge': 1}),
    ('max3-split', {'max_docs': 3, 'split_docs': 1}),
    ('max1-b2', {'max_docs': 1, 'bundles_per_doc': 2}), ('max2-b1', {'max_docs': 2, 'bundles_per_doc': 1}),
    ('max2-b2', {'max_docs': 2, 'bundles_per_doc': 2}), ('b10', {'bundles_per_doc': 10}), ('b11-merge', {'bundles_per_doc': 11, 'merge': 1}),
    ('max10-split', {'max_docs': 10, 'split_docs': 1}), ('max11-b1', {'max_docs': 11, 'bundles_per_doc': 1}),
]
MODE = dict(MODES)


def valid(seq):
    for i, kind in enumerate(seq):
        if kind in 'yxv':
            # a further zone of the bundle: directly after another tree of the bundle, each zone once
            j = i - 1
            while j >= 0 and seq[j] in 'yxv':
                if seq[j] == kind:
                    return False
                j -= 1
            if j < 0 or seq[j] not in ('zZ' if kind == 'v' else 'zZsD'):
                return False
    return True


def sequences(length, alphabet):
    return (''.join(seq) for seq in itertools.product(alphabet, repeat=length) if valid(seq))


def shards(tier):
    bounds = BOUNDS(tier)
    seqs = [s for n in range(1, bounds['max_sentences'] + 1) for s in sequences(n, KINDS)]
    seqs += [s for s in sequences(bounds['max_sentences_docs_and_zones'], 'sDzyv')]
    step = 40
    result = [{'seqs': seqs[i:i + step]} for i in range(0, len(seqs), step)]
    result += [{'two': n} for n in (0, 1, 2, 3, 4, 11, 12)]
    result += [{'long': [w for w in sequences(n, KINDS if n < 3 else 'sDzyv') if n < 3 or len(set(w)) > 1][i::6]} for n in (1, 2, 3) for i in range(6)]
    result += [{'layout': s} for n in range(1, 4) for s in sequences(n, 'sDe')]
    result += [{'texts': reader, 'max': bounds['max_sentences'] + 1} for reader in ('sentences', 'sentences-newdoc', 'sentences-ignore', 'text')]
    return result[::-1]


def splits(seq):
    """All ways to put the sequence into at most 3 files (a zone of the same bundle stays in the file)."""
    n = len(seq)
    for k in range(0, 3):
        for cuts in itertools.combinations(range(1, n), k):
            if any(seq[c] in 'yxv' for c in cuts):
                continue
            bounds = [0, *cuts, n]
            yield [seq[a:b] for a, b in zip(bounds, bounds[1:])]


def applicable(mode, files):
    seq = ''.join(files)
    options = MODE[mode]
    if options.get('zone') and set(seq) & set('zZyxv'):
        return False
    if 'sent_id_filter' in options and set(seq) & set('nN'):
        return False
    if options.get('ignore_sent_id') and set(seq) & set('zZyxv'):
        return False
    if options.get('max_docs'):
        if options.get('bundles_per_doc'):
            return not set(seq) & set('DZN')
        if not options.get('split_docs'):
            return all(f[0] in 'DZN' for f in files)
    return True


def run_shard(shard, rec):
    if 'seqs' in shard:
        for seq in shard['seqs']:
            for files in splits(seq):
                for mode, _ in MODES:
                    if applicable(mode, files):
                        rec.run({'files': files, 'mode': mode, 'layout': ''})
                if len(files) == 2:
                    rec.run({'files': [files[0], '', files[1]], 'mode': 'split', 'layout': ''})
                    rec.run({'files': [files[0], '', files[1]], 'mode': 'merge', 'layout': ''})
    elif 'layout' in shard:
        for layout in LAYOUTS:
            for mode in ('plain', 'split', 'b1', 'all', 'merge') + (('max1', 'max2') if shard['layout'][0] == 'D' else ()):
                rec.run({'files': [shard['layout']], 'mode': mode, 'layout': layout})
    elif 'texts' in shard:
        newdoc = shard['texts'] == 'sentences-newdoc'
        for seq in (''.join(x) for n in range(1, shard['max'] + 1) for x in itertools.product('nN' if newdoc else 'n', repeat=n)):
            for files in splits(seq):
                for mode, options in MODES:
                    if 'sent_id_filter' not in options and applicable(mode, files):
                        rec.run({'texts': shard['texts'], 'files': files, 'mode': mode})
    elif 'long' in shard:
        # many sentences: a short sequence repeated
        for part in shard['long']:
            for length in (13, 25) if len(part) == 1 else (13,):
                seq = (part * length)[:length]
                if not valid(seq):
                    continue
                cuts = [i for i in range(1, length) if seq[i] not in 'yxv']
                every = [seq[a:b] for a, b in zip([0] + cuts, cuts + [length])]
                late = [c for c in cuts if c > 9]
                layouts = [[seq], every] + ([[seq[:late[0]], seq[late[0]:]]] if late else [])
                for files in layouts[:1 if length == 25 or len(part) == 3 else None]:
                    for mode, _ in MODES:
                        if applicable(mode, files):
                            rec.run({'files': files, 'mode': mode, 'layout': ''})
    elif 'two' in shard:
        for other in (0, 1, 2, 3, 4, 11, 12) if shard['two'] < 11 else (0, 1, 2, 3, 9, 10, 11, 12):
            for mode in ('plain', 'all', 'split'):
                for ids in (0, 1):
                    rec.run({'two': [shard['two'], other], 'mode': mode, 'ids': ids})


# how the text of a file is altered: (separator, prefix, suffix)
LAYOUTS = {
    'extra-middle': ('\n\n\n', '', '\n\n'), 'extra-end': ('\n\n', '', '\n\n\n\n'), 'no-final-empty': ('\n\n', '', '\n'),
    'no-final-newline': ('\n\n', '', ''), 'leading': ('\n\n', '\n', '\n\n'), 'leading2': ('\n\n', '\n\n', '\n\n'),
    'comment-only': ('\n\n# only a comment\n\n', '', '\n\n'), 'bom': ('\n\n', '\ufeff', '\n\n'),
    'all': ('\n\n\n\n', '\n\n\n', '\n\n\n'), 'trailing-comment': ('\n\n', '', '\n\n# comment\n\n'),
}


def specs(files):
    """The sentences of all files as plain data."""
    result, number, previous = [], 0, None
    for content in files:
        trees = []
        for kind in content:
            spec = dict(KINDS[kind])
            if spec['id']:
                base = f's{number}'
            elif kind in 'yxv':
                base = previous
            else:
                base = None
            previous = base
            spec['base'] = base
            spec['form'] = f'w{number}'
            if spec['newdoc'] == 'id':
                spec['newdoc'] = f'doc{number}'
            number += 1
            comments = []
            if spec['newdoc']:
                comments.append('# newdoc' + (f" id = {spec['newdoc']}" if spec['newdoc'] is not True else ''))
            if base is not None:
                spec['sent_id'] = base + ('/' + spec['zone'] if spec['zone'] else '')
                comments.append(f"# sent_id = {spec['sent_id']}")
            else:
                spec['sent_id'] = None
            comments.append(f"# text = {spec['form']} ")
            words = [] if spec.get('empty') else [word(spec['form'], head=2), word('b ', head=0, misc='M=\u00a0')]
            spec['sentence'] = sentence(words, comments=comments)
            trees.append(spec)
        result.append(trees)
    return result


def model(files, options):
    """The expected documents: lists of bundles, which are lists of specs (with final newdoc)."""
    pattern = options.get('sent_id_filter')
    flat = []
    for number, trees in enumerate(files):
        skipped = None
        first = True
        for spec in trees:
            spec = dict(spec)
            if pattern is not None and not re.match(pattern, spec['sent_id']):
                skipped = spec['newdoc'] or skipped
                continue
            if skipped and not spec['newdoc']:
                spec['newdoc'] = skipped
            skipped = None if pattern is not None else skipped
            flat.append((number, spec))
    docs, last_file, last_base = [], None, None
    for number, spec in flat:
        new_doc = not docs or (number != last_file and not options.get('merge'))
        new_doc = new_doc or (bool(spec['newdoc']) and options.get('split_docs'))
        same = spec['base'] is not None and spec['base'] == last_base and not options.get('ignore_sent_id')
        if not same and not new_doc and options.get('bundles_per_doc') == len(docs[-1]):
            new_doc = True
        if new_doc:
            docs.append([])
        if same and not new_doc:
            docs[-1][-1].append(spec)
        else:
            docs[-1].append([spec])
        last_file, last_base = number, spec['base']
    limit = options.get('max_docs')
    if limit:
        if options.get('split_docs') or options.get('bundles_per_doc'):
            docs = docs[:limit]
        else:
            left, kept = limit, []
            for doc in docs:
                new = []
                for bundle in doc:
                    if bundle[0]['newdoc']:
                        left -= 1
                    if left < 0:
                        break
                    new.append(bundle)
                if new:
                    kept.append(new)
                if left < 0:
                    break
            docs = kept
    return docs


def text_of(trees, layout):
    blocks = ['\n'.join(conllu.serialize(s['sentence'])) for s in trees]
    separator, prefix, suffix = LAYOUTS[layout] if layout else ('\n\n', '', '\n\n')
    return prefix + separator.join(blocks) + suffix if blocks else ''


def run_case(case, rec):
    if 'two' in case:
        return run_two(case, rec)
    if 'texts' in case:
        return run_texts(case, rec)
    from udapi.block.read.conllu import Conllu
    options = MODE[case['mode']]
    trees = specs(case['files'])
    want = model(trees, options)
    with contextlib.ExitStack() as stack:
        if len(trees) == 1 and case['layout'] != 'bom':
            reader = Conllu(filehandle=io.StringIO(text_of(trees[0], case['layout'])), **options)
        else:
            folder = stack.enter_context(scratch())
            names = []
            for i, content in enumerate(trees):
                names.append(os.path.join(folder, f'{i}.conllu'))
                with open(names[-1], 'w', encoding='utf-8') as handle:
                    handle.write(text_of(content, case['layout']))
            reader = Conllu(files=names, **options)
        docs = []
        while not reader.finished:
            require(len(docs) <= 30, 'reader-does-not-finish', str(case))
            from udapi.core.document import Document
            doc = Document()
            reader.apply_on_document(doc)
            docs.append(doc)
            rec.step()
    compare([d for d in docs if d.bundles], want, options, str(case))
    rec.trace()
    rec.state(str(case))


def brief(docs):
    return [[[s['form'] for s in b] for b in d] for d in docs]


def compare(docs, want, options, where):
    def form(tree):
        return tree.text.strip() if tree.text else '?'
    got = [[[form(t) for t in b] for b in d.bundles] for d in docs]
    require(got == brief(want), 'partition-differs', lambda: f'{where}: got {got} want {brief(want)}')
    for doc, wdoc in zip(docs, want):
        ids = [b.bundle_id for b in doc.bundles]
        require(len(set(ids)) == len(ids), 'bundle-ids-not-unique', lambda: f'{where}: {ids}')
        equal([b.number for b in doc.bundles], list(range(1, len(ids) + 1)), 'bundle-numbers', where)
        for bundle, wbundle in zip(doc.bundles, wdoc):
            for tree, spec in zip(bundle.trees, wbundle):
                require(tree.bundle is bundle and bundle.document is doc, 'wrong-backlink', where)
                zone = options.get('zone', spec['zone'])
                equal(tree.zone, zone, 'zone', where)
                if spec['base'] is not None and not options.get('ignore_sent_id'):
                    equal(bundle.bundle_id, spec['base'], 'bundle-id', where)
                    equal(tree.sent_id, spec['base'] + ('/' + zone if zone else ''), 'sent-id', where)
                equal(tree.newdoc, spec['newdoc'], 'newdoc', where)
                equal(tree.text, spec['form'] + ' ', 'text', where)
                equal(conllu.observe(tree)['words'], spec['sentence']['words'], 'words', where)
        first = wdoc[0][0]
        if options.get('split_docs') and isinstance(first['newdoc'], str):
            equal(doc.meta.get('docname'), first['newdoc'], 'docname', where)


def run_two(case, rec):
    """A second reader adds its trees to the bundles loaded by the first one."""
    from udapi.block.read.conllu import Conllu
    from udapi.core.document import Document
    counts, options = case['two'], MODE[case['mode']]
    doc = Document()
    for zone, count in zip('ab', counts):
        trees = [sentence([word(f'{zone}{i}')], comments=[f'# sent_id = {zone if case["ids"] else "s"}{i}']) for i in range(count)]
        Conllu(filehandle=io.StringIO(conllu.document(trees)), zone=zone, **options).apply_on_document(doc)
        rec.step()
    got = [[(t.zone, t.descendants[0].form, t.sent_id) for t in b] for b in doc.bundles]
    want = []
    for i in range(max(counts)):
        prefix = ('a' if i < counts[0] else 'b') if case['ids'] else 's'
        want.append([(z, f'{z}{i}', f'{prefix}{i}/{z}') for z, c in zip('ab', counts) if i < c])
    equal(got, want, 'second-reader', str(case))
    rec.trace()
    rec.state(str(case))


def run_texts(case, rec):
    """Readers of plain text, which know where a bundle ends, without reading the next one."""
    from udapi.block.read.sentences import Sentences
    from udapi.block.read.text import Text
    from udapi.core.document import Document
    options, kind = MODE[case['mode']], case['texts']
    number, files = 0, []
    for content in case['files']:
        specs = []
        for letter in content:
            specs.append({'base': None, 'form': f'w {number}', 'newdoc': True if letter == 'N' else None, 'zone': ''})
            number += 1
        files.append(specs)
    want = model(files, options)
    with scratch() as folder:
        names = []
        for i, specs in enumerate(files):
            lines = []
            for k, spec in enumerate(specs):
                if spec['newdoc'] or kind == 'sentences-ignore' or kind == 'text' and k:
                    lines += [''] * (1 + k % 2)
                lines += spec['form'].split() if kind == 'text' else [spec['form']]
            names.append(os.path.join(folder, f'{i}.txt'))
            with open(names[-1], 'w', encoding='utf-8', newline='') as handle:
                handle.write(''.join(line + ('\r\n' if i == 1 else '\n') for line in lines))
        extra = {'sentences-newdoc': {'newdoc_if_empty_line': True}, 'sentences-ignore': {'ignore_empty_lines': True}}.get(kind, {})
        reader = (Text if kind == 'text' else Sentences)(files=names, **extra, **options)
        docs = []
        while not reader.finished:
            require(len(docs) <= 30, 'reader-does-not-finish', str(case))
            doc = Document()
            reader.apply_on_document(doc)
            docs.append(doc)
            rec.step()
    docs = [doc for doc in docs if doc.bundles]
    got = [[[t.text for t in b] for b in doc.bundles] for doc in docs]
    require(got == brief(want), 'partition-differs', lambda: f'{case}: got {got} want {brief(want)}')
    for doc, wdoc in zip(docs, want):
        equal([b.number for b in doc.bundles], list(range(1, len(wdoc) + 1)), 'bundle-numbers', str(case))
        newdocs = [bool(b[0]['newdoc']) for b in wdoc]
        if kind == 'sentences-newdoc':
            newdocs[0] = True       # the first line of a file starts a document, too
        equal([bool(t.newdoc) for t in doc.trees], newdocs, 'newdoc', str(case))
        equal([t.zone for t in doc.trees], [options.get('zone', '')] * len(wdoc), 'zone', str(case))
    rec.trace()
    rec.state(str(case))
