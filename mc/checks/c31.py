"""C31: the udpipe blocks put exactly the analysis of the model into exactly the processed trees."""
import io
import itertools
import json
import os
import re

from mc import conllu, trees
from mc.core import Fail, require, raises

TITLE = ('All short texts over an alphabet of words, spaces and full stops, all pre-tokenized sentences over a pool of words, all short documents '
         'with one or two zones, all supported parameters, with the real binding of UDPipe (a tiny model trained for this purpose) and with a stand-in '
         'of the REST service on top of it; re-parsing of all trees to all trees with a stand-in of the parser')
ASSUMPTIONS = ['texts are without line breaks', 'the REST service behaves as documented for UDPipe', 'documents processed as a whole by the REST service '
               '(online=1 zones=all) have one zone and no empty sentence']
MODEL = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data', 'tiny.udpipe')
PIECES = ['John', ' saw', ' zum', ' cat', '  dog', '.', ' .', ' A']
WORDS = ['John', 'saw', 'zum', 'a b', '.', 'x\u00a0y']


def BOUNDS(tier):
    big = tier != 'quick'
    return {'text_pieces': 5 if big else 4, 'all_variants': 4 if big else 3, 'words': 5 if big else 4, 'bundles': 3 if big else 2, 'reparsed_words': 4, 'many': '12 bundles, pieces of text or words'}


def shards(tier):
    bounds = BOUNDS(tier)
    result = [{'kind': 'text', 'first': [a, b]} for a in range(len(PIECES)) for b in range(len(PIECES))]
    result += [{'kind': 'short'}, {'kind': 'request'}, {'kind': 'errors'}]
    result += [{'kind': 'words', 'first': i} for i in range(len(WORDS))]
    for size in range(1, bounds['bundles'] + 1):
        for first in range(len(BUNDLES)):
            result.append({'kind': 'docs', 'first': first, 'size': size})
    result += [{'kind': 'whole', 'size': size} for size in range(1, 4)]
    for n in range(1, bounds['reparsed_words'] + 1):
        result += [{'kind': 'reparse', 'heads': list(h)} for h in trees.head_vectors(n)]
    result += [{'kind': 'many', 'first': first} for first in range(len(BUNDLES))]
    for shard in result:
        shard['bounds'] = bounds
    return result


# (zone, text or None, words or None)
TREES = [('', 'John saw.'), ('', 'A cat sat. John saw zum dog.'), ('', ''), ('', 'zum. zum  dog. A.'), ('en', 'John saw.'), ('en', 'A. John.'), ('cs', 'A cat. zum dog.')]
BUNDLES = [[0], [1], [2], [3], [4], [5], [0, 5], [1, 6], [5, 6], [3, 4], []]
ANALYSES = [(True, True), (True, False), (False, False)]


def run_shard(shard, rec):
    kind, bounds = shard['kind'], shard['bounds']
    if kind in ('text', 'short'):
        texts = [shard['first'] + list(rest) for n in range(bounds['text_pieces'] - 1) for rest in itertools.product(range(len(PIECES)), repeat=n)] \
            if kind == 'text' else [[]] + [[i] for i in range(len(PIECES))]
        for text in texts:
            for online, resegment, analysis in itertools.product((False, True), (False, True), range(3)):
                if len(text) > bounds['all_variants'] and (online or analysis):
                    continue
                for ranges in ((False, True) if online else (False,)):
                    rec.run({'kind': 'text', 'text': text, 'online': online, 'resegment': resegment, 'analysis': analysis, 'ranges': ranges})
            rec.run({'kind': 'segment', 'text': text, 'online': False})
            rec.run({'kind': 'segment', 'text': text, 'online': True})
    elif kind == 'words':
        for n in range(bounds['words']):
            for rest in itertools.product(range(len(WORDS)), repeat=n):
                for online, analysis in itertools.product((False, True), ((True, True), (True, False), (False, True))):
                    rec.run({'kind': kind, 'words': [shard['first'], *rest], 'online': online, 'analysis': analysis})
    elif kind == 'docs':
        for rest in itertools.product(range(len(BUNDLES)), repeat=shard['size'] - 1):
            for online, zones, resegment, analysis in itertools.product((False, True), ('all', 'en', 'en,cs'), (False, True), (0, 2)):
                if not online or zones != 'all':
                    for delete in (False, True):
                        rec.run({'kind': kind, 'bundles': [shard['first'], *rest], 'online': online, 'zones': zones, 'resegment': resegment, 'analysis': analysis, 'delete': delete})
            for online in (False, True):
                if not online:
                    rec.run({'kind': 'segments', 'bundles': [shard['first'], *rest]})
    elif kind == 'whole':
        for pool in itertools.product((0, 1, 3, 5), repeat=shard['size']):
            for tokenize, resegment, ranges, analysis in itertools.product((False, True), (False, True), (False, True), range(3)):
                if tokenize or not (resegment or ranges or analysis == 2):
                    rec.run({'kind': kind, 'trees': pool, 'tokenize': tokenize, 'resegment': resegment, 'ranges': ranges, 'analysis': analysis})
    elif kind == 'reparse':
        for heads in trees.head_vectors(len(shard['heads'])):
            for parse, online in itertools.product((True, False), repeat=2):
                rec.run({'kind': kind, 'old': shard['heads'], 'new': list(heads), 'parse': parse, 'online': online})
    elif kind == 'many':
        # twelve sentences, words or bundles
        first = shard['first']
        for second in range(len(BUNDLES)):
            for online, zones, resegment, delete in itertools.product((False, True), ('all', 'en,cs'), (False, True), (False, True)):
                if not online or zones != 'all':
                    rec.run({'kind': 'docs', 'bundles': [first, second] * 6, 'online': online, 'zones': zones, 'resegment': resegment, 'analysis': 0, 'delete': delete})
            rec.run({'kind': 'segments', 'bundles': [first, second] * 6})
            if first < 4 and second < 4:
                for tokenize, resegment, ranges in itertools.product((False, True), repeat=3):
                    if tokenize or not (resegment or ranges):
                        rec.run({'kind': 'whole', 'trees': [(0, 1, 3, 5)[first], (0, 1, 3, 5)[second]] * 6, 'tokenize': tokenize, 'resegment': resegment, 'ranges': ranges, 'analysis': 0})
            if first < len(PIECES) and second < len(PIECES):
                for online, resegment in itertools.product((False, True), (False, True)):
                    rec.run({'kind': 'text', 'text': [first, second] * 6, 'online': online, 'resegment': resegment, 'analysis': 0, 'ranges': online})
            if first < len(WORDS) and second < len(WORDS):
                for online in (False, True):
                    rec.run({'kind': 'words', 'words': [first, second] * 6, 'online': online, 'analysis': (True, True)})
        shapes = trees.long_trees()
        if first < len(shapes):
            for new in shapes:
                for parse, online in itertools.product((True, False), repeat=2):
                    rec.run({'kind': 'reparse', 'old': list(shapes[first]), 'new': list(new), 'parse': parse, 'online': online})
    elif kind == 'request':
        for data in itertools.product(['a', '\u00e9\u4e2d', '=', '--', '\n', '"', '&', 'Content-Type: x', ' ', '%0A'], repeat=3):
            rec.run({'kind': kind, 'data': ''.join(data)})
    else:
        for number in range(8):
            rec.run({'kind': kind, 'number': number})


# ---------------------------------------------------------------- the model and the stand-in of the server
_CACHE = {}


def model():
    if 'model' not in _CACHE:
        import ufal.udpipe
        _CACHE['model'] = ufal.udpipe.Model.load(MODEL)
        if not _CACHE['model']:
            raise RuntimeError('cannot load ' + MODEL)
    return _CACHE['model']


def process(data, source, tag=False, parse=False, output='conllu'):
    import ufal.udpipe
    pipeline = ufal.udpipe.Pipeline(model(), source, ufal.udpipe.Pipeline.DEFAULT if tag else ufal.udpipe.Pipeline.NONE,
                                    ufal.udpipe.Pipeline.DEFAULT if parse else ufal.udpipe.Pipeline.NONE, output)
    error = ufal.udpipe.ProcessingError()
    result = pipeline.process(data, error)
    if error.occurred():
        raise Fail('udpipe-error', f'{error.message}: {data!r}')
    return result


def sentences(text):
    """Parse CoNLL-U of the model: a list of {text, words: rows without ID, mwts}."""
    result = []
    for block in re.split(r'\n\n+', text.strip('\n')):
        words, mwts, plain = [], [], None
        for line in block.split('\n'):
            if line.startswith('# text = '):
                plain = line[9:]
            cols = line.split('\t')
            if line and line[0] != '#':
                if '-' in cols[0]:
                    mwts.append([*map(int, cols[0].split('-')), cols[1], cols[9]])
                else:
                    words.append(cols[1:])
        if words:
            result.append({'text': plain, 'words': words, 'mwts': mwts})
    return result


def serialize(sents):
    out = ''
    for sent in sents:
        for i, cols in enumerate(sent['words'], 1):
            for start, end, form, misc in sent['mwts']:
                if start == i:
                    out += f'{start}-{end}\t{form}' + '\t_' * 7 + f'\t{misc}\n'
            out += '\t'.join([str(i)] + cols) + '\n'
        out += '\n'
    return out


def analyse(text, segmented, tag, parse, ranges=False, join=False):
    """The expected sentences for a text."""
    options = ';'.join(['presegmented'] * (not segmented) + ['ranges'] * ranges)
    sents = sentences(process(text, 'tokenizer=' + options if options else 'tokenizer'))
    if join and len(sents) > 1:
        words, mwts = [], []
        for sent in sents:
            mwts += [[a + len(words), b + len(words), form, misc] for a, b, form, misc in sent['mwts']]
            words += sent['words']
        sents = [{'text': text, 'words': words, 'mwts': mwts}]
    if tag:
        texts = [sent['text'] for sent in sents]
        sents = sentences(process(serialize(sents), 'conllu', tag, parse))
        for sent, plain in zip(sents, texts):
            sent['text'] = plain
    return sents


REQUESTS = []


class Response(io.BytesIO):
    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()


def parse_request(request):
    import email.parser
    import email.policy
    raw = b'Content-Type: ' + request.headers['Content-type'].encode() + b'\r\n\r\n' + request.data
    message = email.parser.BytesParser(policy=email.policy.HTTP).parsebytes(raw)
    params = {}
    for part in message.iter_parts():
        name = part.get_param('name', header='content-disposition')
        params[name] = part.get_payload(decode=True).decode('utf-8')
    return params


def server(request):
    """What the documentation of the UDPipe REST service says."""
    params = parse_request(request)
    REQUESTS.append(params)
    require(request.full_url.endswith('/api/process'), 'wrong-url', request.full_url)
    require(set(params) <= {'model', 'data', 'input', 'tokenizer', 'tagger', 'parser', 'output'}, 'unknown-parameter', str(params))
    require(params['model'] == MODEL, 'wrong-model', params.get('model'))
    data = params['data'].replace('\r\n', '\n')
    if params.get('input') == 'horizontal':
        source = 'horizontal'
    else:
        require('tokenizer' in params, 'no-tokenizer', str(params))
        require(set(params['tokenizer'].split(';')) <= {'', 'presegmented', 'ranges'}, 'unknown-tokenizer-option', params['tokenizer'])
        source = 'tokenizer=' + params['tokenizer'] if params['tokenizer'] else 'tokenizer'
    result = process(data, source, 'tagger' in params, 'parser' in params, params.get('output', 'conllu'))
    return Response(json.dumps({'model': MODEL, 'acknowledgements': [], 'result': '# generator = UDPipe 2\n' * (bool(result) and 'output' not in params) + result}).encode())


def patched(func, urlopen=server):
    import udapi.tool.udpipeonline as module
    original = module.urllib.request.urlopen
    module.urllib.request.urlopen = urlopen
    try:
        return func()
    finally:
        module.urllib.request.urlopen = original


def run_block(doc, **kwargs):
    from udapi.block.udpipe.base import Base
    if kwargs.get('online'):
        patched(lambda: Base(model=MODEL, **kwargs).run(doc))
        return
    block = Base(model=MODEL, **kwargs)
    if 'tool' not in _CACHE:
        _CACHE['tool'] = block.tool
    block._tool = _CACHE['tool']
    block.run(doc)


# ---------------------------------------------------------------- observation
def rows(root):
    got = conllu.observe(root)
    words = [[str(c) for c in row] for row in got['words']]
    return words, got['mwts']


def norm(sent):
    """HEAD _ (no parse) means attached to the root."""
    words = [row[:5] + ['0' if row[5] == '_' else row[5]] + row[6:] for row in sent['words']]
    return words, sorted(sent['mwts'])


def ignore_last_space(words, mwts):
    """The end of the text given to UDPipe directly is marked by SpaceAfter=No, but the end of a line given to its pipeline by SpacesAfter=\\n."""
    words, mwts = [row[:] for row in words], [mwt[:] for mwt in mwts]
    last = mwts[-1] if mwts and words and mwts[-1][1] == len(words) else words[-1] if words else None
    if last:
        items = [item.removesuffix('\\n') for item in last[-1].split('|')]
        last[-1] = '|'.join(item for item in items if item not in ('SpaceAfter=No', 'SpacesAfter=')) or '_'
    return words, mwts


def check_sentence(root, sent, where):
    trees.check_tree(root, where=where)
    words, mwts = rows(root)
    words, mwts = ignore_last_space(words, mwts)
    want_words, want_mwts = ignore_last_space(*norm(sent))
    require(words == want_words, 'words-differ-from-the-analysis', lambda: f'{where}: got {words} want {want_words}')
    require(mwts == want_mwts, 'multiword-tokens-differ-from-the-analysis', lambda: f'{where}: got {mwts} want {want_mwts}')
    for mwt in root.multiword_tokens:
        require(mwt.root is root and all(w.multiword_token is mwt and w.root is root for w in mwt.words), 'multiword-token-links', where)
    for node in root.descendants:
        require(not node.upos == '' and not node.deprel == '' and not node.xpos == '' and node.lemma != '', 'empty-string-attribute', where)


def check_document(doc, expected, where):
    """expected: a list of (bundle id, [(zone, text, sentence or None)])."""
    got = [(b.bundle_id, [(t.zone, t.text) for t in b]) for b in doc.bundles]
    want = [(bid, [(zone, text) for zone, text, _ in content]) for bid, content in expected]
    require(got == want, 'bundles-differ', lambda: f'{where}: got {got} want {want}')
    require([b.number for b in doc.bundles] == list(range(1, len(want) + 1)), 'bundle-numbers', where)
    for bundle, (bid, content) in zip(doc.bundles, expected):
        require(bundle.document is doc, 'bundle-document', where)
        for tree, (zone, text, sent) in zip(bundle, content):
            require(tree.bundle is bundle, 'tree-bundle', where)
            require(tree.sent_id == bid + ('/' + zone if zone else ''), 'sent-id', f'{where}: {tree.sent_id}')
            check_sentence(tree, sent or {'words': [], 'mwts': []}, where)
    text = doc.to_conllu_string()
    again = conllu.read_string(text)
    plain = all(tree.descendants and (tree.text or '').strip() == (tree.text or '') for tree in doc.trees)
    require(not plain or again.to_conllu_string() == text, 'written-document-not-readable', lambda: f'{where}: {text!r}')
    for line in text.split('\n'):
        require(not line or line[0] == '#' or all(line.split('\t')) and len(line.split('\t')) == 10, 'invalid-line', lambda: f'{where}: {line!r}')


def make_document(bundles):
    from udapi.core.document import Document
    doc = Document()
    for content in bundles:
        bundle = doc.create_bundle()
        for zone, text in content:
            tree = bundle.create_tree(zone=zone)
            tree.text = text
    return doc


# ---------------------------------------------------------------- cases
def run_case(case, rec):
    rec.step()
    rec.trace()
    rec.state(str(case))
    del REQUESTS[:]
    {'text': case_text, 'segment': case_segment, 'segments': case_segments, 'words': case_words, 'docs': case_docs, 'whole': case_whole, 'reparse': case_reparse,
     'request': case_request, 'errors': case_errors}[case['kind']](case, rec)


def case_text(case, rec):
    text = ''.join(PIECES[i] for i in case['text'])
    tag, parse = ANALYSES[case['analysis']]
    online, resegment, ranges = case['online'], case['resegment'], case['ranges']
    doc = make_document([[('', text)]])
    run_block(doc, online=online, resegment=resegment, tag=tag, parse=parse, ranges=ranges, zones='all,' if online else 'all')
    if online:
        sents = analyse(text, resegment, tag, parse, ranges)
    else:
        sents = analyse(text, True, tag, parse, join=not resegment)
    rec.count('sentences', len(sents))
    where = str((text, case))
    if len(sents) < 2:
        plain = sents[0]['text'] if sents and (resegment or online) else text
        expected = [('1', [('', plain, sents[0] if sents else None)])]
    else:
        expected = [(f'1-{i}', [('', sent['text'], sent)]) for i, sent in enumerate(sents, 1)]
    check_document(doc, expected, where)


def case_segment(case, rec):
    text = ''.join(PIECES[i] for i in case['text'])
    doc = make_document([[('', text)]])
    want = [sent['text'] for sent in analyse(text, True, False, False)]
    where = str((text, case))
    if case['online']:
        from udapi.tool.udpipeonline import UDPipeOnline
        got = patched(lambda: UDPipeOnline(model=MODEL).segment_text(text))
        require(got == (want or ['']), 'online-segments', lambda: f'{where}: {got} want {want}')
        return
    run_block(doc, resegment=True, tokenize=False, tag=False, parse=False)
    if len(want) < 2:
        expected = [('1', [('', text, None)])]
    else:
        expected = [(f'1-{i}', [('', part, None)]) for i, part in enumerate(want, 1)]
    check_document(doc, expected, where)


def expand(bundles, split):
    """The expected bundles; split(zone, text) gives the sentences of a processed tree or None."""
    expected = []
    for number, content in enumerate(bundles, 1):
        main = [str(number), []]
        expected.append(main)
        for zone, text in content:
            sents = split(zone, text)
            if sents is None:
                main[1].append((zone, text, None))
                continue
            if len(sents) > 1:
                orig = main[0]
                main[0] += '-1'
            main[1].append((zone, *sents[0]) if sents else (zone, text, None))
            for i, sent in enumerate(sents[1:], 2):
                expected.append([f'{orig}-{i}', [(zone, *sent)]])
    return [tuple(e) for e in expected]


def case_docs(case, rec):
    bundles = [[TREES[t] for t in BUNDLES[b]] for b in case['bundles']]
    tag, parse = ANALYSES[case['analysis']]
    online, resegment, zones = case['online'], case['resegment'], case['zones']
    doc = make_document(bundles)
    if case['delete']:
        for tree in doc.trees:
            node = tree.create_child(form='old', lemma='old')
            other = node.create_child(form='older')
            tree.create_multiword_token([node, other], 'oldolder')
    old = {'words': [['old', 'old', '_', '_', '_', '0', '_', '_', '_'], ['older', '_', '_', '_', '_', '1', '_', '_', '_']], 'mwts': [[1, 2, 'oldolder', '_']]}
    run_block(doc, online=online, resegment=resegment, tag=tag, parse=parse, zones=zones, delete_nodes=case['delete'])

    def split(zone, text):
        if zones != 'all' and zone not in zones.split(','):
            return [(text, old)] if case['delete'] else None
        if online:
            return [(s['text'], s) for s in analyse(text, resegment, tag, parse)]
        return [(s['text'] if resegment else text, s) for s in analyse(text, True, tag, parse, join=not resegment)]
    check_document(doc, expand(bundles, split), str(case))


def case_segments(case, rec):
    bundles = [[TREES[t] for t in BUNDLES[b]] for b in case['bundles']]
    doc = make_document(bundles)
    run_block(doc, resegment=True, tokenize=False, tag=False, parse=False)

    def split(zone, text):
        sents = analyse(text, True, False, False)
        return [(s['text'], None) for s in sents] if len(sents) > 1 else None
    check_document(doc, expand(bundles, split), str(case))


def case_words(case, rec):
    forms = [WORDS[i] for i in case['words']]
    tag, parse = case['analysis']
    comments = ['# newdoc', '# sent_id = s-1', '# text = t', '# kept']
    n = len(forms)
    words = [conllu.word(form, 'L', 'U', 'X', 'F=1', 0 if i == n // 2 else n // 2 + 1, 'd', misc='M=1') for i, form in enumerate(forms)]
    mwts = [(1, 2, 'mwt', 'N=1')] if n > 1 else []
    doc = conllu.read_string(conllu.document([conllu.sentence(words, mwts, [conllu.empty('1.1', 'E', deps='1:x')], comments)]))
    run_block(doc, online=case['online'], tokenize=False, tag=tag, parse=parse, zones='all,' if case['online'] else 'all')
    text = serialize([{'words': [[form] + ['_'] * 8 for form in forms], 'mwts': []}])
    analysis = sentences(process(text, 'conllu', True, True))[0]['words']
    want = []
    for i, (cols, new) in enumerate(zip(words, analysis)):
        row = [forms[i].replace('\u00a0', '\u00a0')] + (new[1:5] if tag else cols[1:5]) + ([new[5], new[6]] if parse else [str(cols[5]), cols[6]]) + cols[7:]
        want.append([str(c) for c in row])
    tree = next(doc.trees)
    check_sentence(tree, {'words': want, 'mwts': [list(m) for m in mwts]}, str((forms, case)))
    require((tree.sent_id, tree.text, tree.newdoc) == ('s-1', 't', True) and ' kept\n' in tree.comment, 'tree-attributes-changed', str(case))
    empties = conllu.observe(tree)['empties']
    require(empties == [['1.1', 'E', '_', '_', '_', '_', '1:x', '_']], 'empty-nodes-changed', lambda: f'{case}: {empties}')


def case_whole(case, rec):
    texts = [TREES[i][1] for i in case['trees']]
    tag, parse = ANALYSES[case['analysis']]
    doc = make_document([[('', text)] for text in texts])
    tokenize = case['tokenize']
    if tokenize:
        run_block(doc, online=True, tag=tag, parse=parse, resegment=case['resegment'], ranges=case['ranges'])
        sents, offset = [], 0
        for text in texts:
            found = analyse(text, case['resegment'], tag, parse, case['ranges'])
            for sent in found if case['ranges'] else []:
                for row in sent['words'] + sent['mwts']:
                    row[-1] = re.sub(r'TokenRange=(\d+):(\d+)', lambda m: f'TokenRange={int(m[1]) + offset}:{int(m[2]) + offset}', row[-1])
            offset += len(text) + 1
            # each text is followed by a line break
            if found:
                last = found[-1]['mwts'][-1] if found[-1]['mwts'] and found[-1]['mwts'][-1][1] == len(found[-1]['words']) else found[-1]['words'][-1]
                old = [item for item in last[-1].split('|') if item != '_' and not item.startswith('SpaceAfter=')]
                last[-1] = '|'.join(sorted(old + ['SpacesAfter=\\n']))
            sents += found
        expected = [(str(i), [('', sent['text'], sent)]) for i, sent in enumerate(sents, 1)]
    else:
        for tree in doc.trees:
            for form in tree.text.split(' '):
                tree.create_child(form=form)
        run_block(doc, online=True, tokenize=False, tag=tag, parse=parse)
        expected = []
        for i, text in enumerate(texts, 1):
            rows_ = [[form] + ['_'] * 8 for form in text.split(' ') if form]
            sent = sentences(process(serialize([{'words': rows_, 'mwts': []}]), 'conllu', tag, parse))[0]
            expected.append((str(i), [('', None, sent)]))
    check_document(doc, expected, str(case))


def case_reparse(case, rec):
    """Replace the tree given by heads `old` by the tree given by heads `new`."""
    import udapi.tool.udpipe as module
    text = ''.join(f'{i}\t{trees.LABELS[i - 1]}\tl{i}\tU{i}\tX{i}\tF={i}\t{h}\td{i}\t_\t_\n' for i, h in enumerate(case['new'], 1)) + '\n'
    doc = conllu.read_string(''.join(f'{i}\t{trees.LABELS[i - 1]}\tol\tOU\tOX\tO=1\t{h}\tod\t_\tM={i}\n' for i, h in enumerate(case['old'], 1)) + '\n')
    if case['online']:
        patched(lambda: __import__('udapi.block.udpipe.base', fromlist=['Base']).Base(model=MODEL, online=True, tokenize=False, parse=case['parse'], zones='all,').run(doc),
                lambda request: Response(json.dumps({'model': MODEL, 'result': text}).encode()))
    else:
        class Pipeline:
            DEFAULT = NONE = ''

            def __init__(self, *args):
                pass

            def process(self, data, error):
                return text
        original = module.Pipeline
        module.Pipeline = Pipeline
        try:
            run_block(doc, tokenize=False, parse=case['parse'])
        finally:
            module.Pipeline = original
    heads = case['new'] if case['parse'] else case['old']
    want = [[trees.LABELS[i - 1], f'l{i}', f'U{i}', f'X{i}', f'F={i}', str(h), f'd{i}' if case['parse'] else 'od', '_', f'M={i}'] for i, h in enumerate(heads, 1)]
    check_sentence(next(doc.trees), {'words': want, 'mwts': []}, str(case))


def case_request(case, rec):
    from udapi.tool.udpipeonline import UDPipeOnline
    seen = []

    def urlopen(request):
        seen.append((parse_request(request), request.full_url))
        return Response(json.dumps({'model': 'm', 'result': 'r\u00e9'}).encode())
    params = {'model': 'm', 'data': case['data'], 'tagger': ''}
    got = patched(lambda: UDPipeOnline(model='m', server='http://x').perform_request(params), urlopen)
    require(got == 'r\u00e9', 'request-result', str(got))
    require(seen[0][1] == 'http://x/process', 'request-url', seen[0][1])
    sent = {name: value.replace('\r\n', '\n') for name, value in seen[0][0].items()}
    require(sent == params, 'request-data-changed', lambda: f'{sent} instead of {params}')


def case_errors(case, rec):
    import io as _io
    import urllib.error
    from mc.core import captured
    from udapi.block.udpipe.base import Base
    from udapi.tool.udpipeonline import UDPipeOnline
    number = case['number']
    where = f'error case {number}'
    doc = make_document([[('', 'John saw.')]])

    def failing(request):
        raise urllib.error.HTTPError('http://x', 500, 'broken', {}, _io.BytesIO(b'reason'))
    answers = {0: failing, 1: lambda r: Response(b'not json'), 2: lambda r: Response(b'{"result": ""}'), 3: lambda r: Response(b'{"model": ""}')}
    if number in answers:
        exc = raises(lambda: patched(lambda: Base(model=MODEL, online=True, zones='all,').run(doc), answers[number]))
        require(exc is not None, 'failure-of-the-service-ignored', where)
        require(not next(doc.trees).descendants, 'failed-request-changed-the-tree', where)
    elif number == 4:
        with captured():
            require(raises(lambda: Base().run(doc)) is not None, 'no-model-accepted', where)
    elif number == 5:
        next(doc.trees).create_child(form='x')
        require(raises(lambda: run_block(doc)) is not None, 'tokenized-twice', where)
        require(raises(lambda: run_block(doc, online=True, zones='all,')) is not None, 'tokenized-twice-online', where)
    elif number == 6:
        require(raises(lambda: run_block(doc, tag=False)) is not None, 'parse-without-tag', where)
        require(raises(lambda: run_block(doc, tag=False, online=True)) is not None, 'parse-without-tag-online', where)
        require(raises(lambda: run_block(doc, tokenize=False, resegment=True)) is not None, 'unimplemented-combination', where)
    else:
        models = patched(lambda: UDPipeOnline(model='m').list_models(), lambda url: Response(json.dumps({'models': {'a': [], 'b': []}, 'default_model': 'a'}).encode()))
        require(models == ['a', 'b'], 'list-of-models', str(models))
