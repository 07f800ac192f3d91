"""C03: CoNLL-U reading and writing are inverse to each other."""
import itertools
import os

from mc.core import Fail, require, equal, scratch
from mc import conllu
from mc.conllu import word, empty, sentence
from mc.trees import head_vectors, check_tree, long_trees, LABELS

TITLE = ('Exhaustive families of CoNLL-U documents: all permutations of comment-line subsets, the product of column '
         'values, all small body structures (heads x MWTs x empty nodes), all short documents over a pool of '
         'sentences, all writer option combinations, and API-built documents')
ASSUMPTIONS = [
    'canonical input: sent_id and text present in each sentence, json comments last, MISC/FEATS as plain '
    'non-empty strings, no SpaceAfter on words inside a multi-word token, LF line ends',
    'global.Entity occurs in every newdoc sentence or in none',
    'FEATS of multi-word token lines are not represented in this version of udapi (see DESIGN.md)',
]

COMMENTS = {
    'newdoc': '# newdoc', 'newdocid': '# newdoc id = d1 x', 'newpar': '# newpar', 'newparid': '# newpar id = p 1',
    'sent_id': '# sent_id = s-1', 'text': '# text = w', 'foo': '# foo', 'bar': '# bar = 1 = 2', 'nosp': '#nospace',
    'empty': '#', 'texten': '# text_en = Hello $TEXT', 'uni': '# u\u2028v\u0085w\u00a0x\x0by', 'gcols': '# global.columns = ID FORM',
    'gent': '# global.Entity = eid-etype-head-other', 'dollar': '# $SENT_ID', 'newdocish': '# newdocument', 'sp': '#  two  spaces',
    'empty2': '#', 'trail': '# t = x ',
}
JSON = ['# json_a = {"x": [1, "é"]}', '# json_b = "v"']
EXTRA = ['newdoc', 'newdocid', 'newpar', 'newparid', 'foo', 'bar', 'nosp', 'empty', 'texten', 'uni', 'gent', 'dollar',
         'newdocish', 'sp', 'empty2', 'trail']


def BOUNDS(tier):
    return {'comment_lines_permuted': 5 if tier == 'quick' else 6, 'column_product': 'full',
            'body_words': 4 if tier == 'quick' else 5, 'long_sentences_words': 12, 'documents_of_sentences': 3 if tier == 'quick' else 4}


def shards(tier):
    bounds = BOUNDS(tier)
    result = []
    for size in range(0, bounds['comment_lines_permuted'] - 1):
        subsets = [list(s) for s in itertools.combinations(EXTRA, size)
                   if not {'newdoc', 'newdocid'} <= set(s) and not {'newpar', 'newparid'} <= set(s)]
        step = 12
        result += [{'part': 'comments', 'subsets': subsets[i:i + step]} for i in range(0, len(subsets), step)]
    result += [{'part': 'columns', 'form': i} for i in range(len(COLS['form']))]
    result += [{'part': 'pairs'}]
    for n in range(0, bounds['body_words'] + 1):
        vectors = head_vectors(n) if n else [()]
        result += [{'part': 'body', 'heads': [list(h) for h in vectors[i:i + 2]]} for i in range(0, len(vectors), 2)]
    result += [{'part': 'long', 'heads': list(h)} for h in long_trees()]
    pool = len(POOL)
    for length in range(1, bounds['documents_of_sentences'] + 1):
        if length < 3:
            result.append({'part': 'docs', 'length': length, 'first': []})
        else:
            result += [{'part': 'docs', 'length': length, 'first': [i, j]} for i in range(pool) for j in range(pool)]
    result += [{'part': 'options'}, {'part': 'edited'}, {'part': 'mwtfeats'}, {'part': 'json'}]
    return result


COLS = {
    'form': ['w', '_', 'a b', 'é\u2028', '#x', '-', '1-2', '1.1', '<ROOT>'],
    'lemma': ['_', 'l', 'l m', '-'],
    'upos': ['_', 'NOUN'],
    'xpos': ['_', 'N|N-'],
    'feats': ['_', 'A=B', 'Z=1|A=2', 'x', 'A=B=C', 'A='],
    'deprel': ['_', 'root', 'a:b:c'],
    'deps': ['_', '0:root', '0:root|0:x:y', '1:self'],
    'misc': ['_', 'SpaceAfter=No', 'B=1|A=2', 'flag', 'a=b=c|flag', 'X==', 'Gloss=a b', 'Empty=Yes|X=1', 'Empty=No'],
}


def run_shard(shard, rec):
    part = shard['part']
    if part == 'comments':
        for subset in shard['subsets']:
            for perm in itertools.permutations(['sent_id', 'text'] + subset):
                rec.run({'part': 'comments', 'lines': list(perm), 'json': len(perm) % 3})
    elif part == 'columns':
        form = COLS['form'][shard['form']]
        for values in itertools.product(*(COLS[c] for c in ('lemma', 'upos', 'xpos', 'feats', 'deprel', 'deps', 'misc'))):
            rec.run({'part': 'columns', 'cols': [form, *values]})
    elif part == 'pairs':
        for name in COLS:
            for one, two in itertools.product(COLS[name], repeat=2):
                rec.run({'part': 'pairs', 'name': name, 'values': [one, two]})
                rec.run({'part': 'emptypairs', 'name': name, 'values': [one, two]})
    elif part == 'body':
        for heads in shard['heads']:
            n = len(heads)
            for mwts in mwt_sets(n):
                for empties in itertools.product(range(3), repeat=n + 1):
                    if sum(empties) > 4 - (n > 2) - (n > 4):
                        continue
                    for deps in range(3):
                        rec.run({'part': 'body', 'heads': heads, 'mwts': mwts, 'empties': list(empties), 'deps': deps})
    elif part == 'long':
        n = len(shard['heads'])
        ranges = [[]] + [[[i, j]] for i in range(1, n) for j in (i + 1, i + 2, n) if j <= n] + [[[1, 2], [9, 10], [11, 12]], [[1, 9], [10, 12]]]
        places = [[]] + [[k] for k in range(n + 1)] + [[9, 10]]
        for mwts in ranges:
            for place in places:
                for count in (1, 11):
                    for deps in range(3):
                        rec.run({'part': 'body', 'heads': shard['heads'], 'mwts': mwts, 'empties': [count if k in place else 0 for k in range(n + 1)], 'deps': deps})
    elif part == 'docs':
        free = shard['length'] - len(shard['first'])
        for rest in itertools.product(range(len(POOL)), repeat=free):
            rec.run({'part': 'docs', 'pool': shard['first'] + list(rest)})
    elif part == 'options':
        for indices in itertools.product(range(len(POOL)), repeat=2):
            for sent_id, text, trees in itertools.product((True, False), repeat=3):
                rec.run({'part': 'options', 'pool': list(indices), 'print_sent_id': sent_id, 'print_text': text,
                         'print_empty_trees': trees})
    elif part == 'edited':
        for index in range(len(POOL)):
            for edit in range(len(EDITS)):
                rec.run({'part': 'edited', 'pool': index, 'edit': edit})
        for before in itertools.product(('c1', 'k = v', ''), repeat=2):
            for length in range(4):
                for added in itertools.product(('a', 'b = c', 'x y'), repeat=length):
                    for built in (0, 1):
                        rec.run({'part': 'added', 'before': before, 'added': added, 'built': built})


    elif part == 'json':
        for one, two in itertools.product(range(len(VALUES)), repeat=2):
            for keys in (('a', 'b'), ('b', 'a'), ('a', 'a'), ('doc_', 'x-y.z:1')):
                rec.run({'part': 'json', 'values': [one, two], 'keys': keys, 'places': [None, 0]})
                for places in itertools.product((0, 1), repeat=2):
                    rec.run({'part': 'json', 'values': [one, two], 'keys': keys, 'places': places})
    elif part == 'mwtfeats':
        for feats in ('Typo=Yes', 'Typo=Yes|X=1'):
            rec.run({'part': 'mwtfeats', 'feats': feats})


VALUES = [1, -2.5, True, None, '', 'é\u2028 = "x" \\\\ \\n', [], {}, [1, [2, {'b': 'c d', 'a': None}]], {'y': [0], 'x': '# z'}]


def run_json(case, rec):
    """Arbitrary JSON data attached to trees (place None) or to the document (written in the first or second sentence)."""
    import json
    sents = from_pool([0, 1])
    doc_json, tree_json = {}, {}
    for key, value, place in zip(case['keys'], case['values'], case['places']):
        (tree_json if place is None else doc_json)[key] = VALUES[value]

    def dumped(data, prefix):
        return [f'# {prefix}json_{key} = ' + json.dumps(data[key], ensure_ascii=False, sort_keys=True) for key in sorted(data)]
    canonical = [dict(sents[0]), dict(sents[1])]
    canonical[0]['comments'] = dumped(doc_json, 'doc_') + sents[0]['comments']
    canonical[1]['comments'] = sents[1]['comments'] + dumped(tree_json, '')
    want = conllu.document(canonical)
    source = [dict(s, comments=list(s['comments'])) for s in sents]
    for key, value, place in zip(case['keys'], case['values'], case['places']):
        name = 'json_' if place is None else 'doc_json_'
        if case['keys'][0] != case['keys'][1] or place is not None:
            line = f'# {name}{key} = ' + json.dumps(VALUES[value], ensure_ascii=False)
            source[1 if place is None else place]['comments'].append(line)
    if case['keys'][0] == case['keys'][1] and case['places'][0] is None:
        source[1]['comments'].append(f"# json_{case['keys'][0]} = " + json.dumps(VALUES[case['values'][0]]))
    if case['keys'][0] == case['keys'][1] and list(case['places']) == [1, 0]:
        return None  # the order of definitions is not the order of the case
    doc = conllu.read_string(conllu.document(source))
    trees = list(doc.trees)
    require(json.dumps(doc.json, sort_keys=True) == json.dumps(doc_json, sort_keys=True), 'read-document-json', lambda: f'{doc.json} instead of {doc_json}')
    require(not trees[0].json and json.dumps(trees[1].json, sort_keys=True) == json.dumps(tree_json, sort_keys=True), 'read-tree-json',
            lambda: f'{trees[0].json} {trees[1].json} instead of {tree_json}')
    first = doc.to_conllu_string()
    require(first == want, 'write-json', lambda: conllu.first_difference(first, want))
    again = conllu.read_string(first)
    require(again.to_conllu_string() == want and again.json == doc.json, 'write-json-again', first)
    built = build_api(sents)
    built.json.update(doc_json)
    list(built.trees)[1].json.update(tree_json)
    text = built.to_conllu_string()
    require(text == want, 'write-built-json', lambda: conllu.first_difference(text, want))
    rec.step(5)
    rec.trace()
    rec.state(want)


def mwt_sets(n):
    """All sets of disjoint ranges of at least two words."""
    ranges = [(i, j) for i in range(1, n + 1) for j in range(i + 1, n + 1)]
    result = []
    for size in range(0, n // 2 + 1):
        for chosen in itertools.combinations(ranges, size):
            if all(a[1] < b[0] for a, b in zip(chosen, chosen[1:])):
                result.append([list(r) for r in chosen])
    return result


BASIC = ['# sent_id = s', '# text = t']


def _pool():
    two = [word('a', head=2, deprel='det', misc='SpaceAfter=No'), word('b', 'b', 'X', 'x', 'F=1', 0, 'root', '0:root', 'M=1')]
    plain = [word('a', head=2, deprel='det'), two[1]]
    return [
        sentence(two, comments=['# sent_id = s{i}', '# text = ab']),
        sentence(two, comments=['# newdoc', '# sent_id = s{i}', '# text = ab']),
        sentence(two, comments=['# newdoc id = doc{i}', '# newpar id = par{i}', '# sent_id = s{i}', '# text = ab']),
        sentence(two, comments=['# newpar', '# sent_id = s{i}', '# text = ab']),
        sentence([], comments=['# newdoc id = empty{i}', '# sent_id = s{i}', '# text = ']),
        sentence([], comments=['# sent_id = s{i}', '# text = nothing here', '# note = kept']),
        sentence([], empties=[empty('0.1', 'E', deps='0:exroot')], comments=['# sent_id = s{i}', '# text = x']),
        sentence(plain, mwts=[(1, 2, 'ab', 'M=2')], comments=['# c{i}', '# sent_id = s{i}', '# text = ab']),
        sentence(two, empties=[empty('0.1', deps='1:x'), empty('1.1', 'E', 'e', deps='2:x|0.1:y'), empty('2.1', deps='1.1:z')],
                 comments=['# sent_id = s{i}', '# text = ab', '# c', *JSON]),
        sentence([word('a', head=0)], comments=['# sent_id = s{i}/zone', '# text = a']),
        sentence([word('_', '_', head=0, misc='Empty=No')], comments=['# sent_id = s{i}', '# text = _']),
        sentence(plain + [word('c', head=2), word('d', head=3)], mwts=[(1, 2, '_', '_'), (3, 4, 'cd', 'SpaceAfter=No')],
                 comments=['# sent_id = s{i}', '# text = abcd']),
    ]


POOL = _pool()


def from_pool(indices):
    result = []
    for i, index in enumerate(indices):
        sent = dict(POOL[index])
        sent['comments'] = [c.replace('{i}', str(i)) for c in sent['comments']]
        result.append(sent)
    return result


def make(case):
    part = case['part']
    if part == 'comments':
        lines = [COMMENTS[c] for c in case['lines']] + JSON[:case['json']]
        return [sentence([word()], comments=lines)]
    if part == 'columns':
        form, lemma, upos, xpos, feats, deprel, deps, misc = case['cols']
        return [sentence([word(form, lemma, upos, xpos, feats, 0, deprel, deps, misc)], comments=BASIC)]
    if part == 'pairs':
        words = [word(head=0), word(head=1), word(head=1)]
        index = list(COLS).index(case['name'])
        index = index if index < 5 else index + 1
        for i, value in enumerate(case['values']):
            words[i + 1][index] = value
        return [sentence(words, comments=BASIC)]
    if part == 'emptypairs':
        nodes = [empty('1.1', deps='1:x'), empty('1.2', deps='1:y')]
        columns = {'form': 1, 'lemma': 2, 'upos': 3, 'xpos': 4, 'feats': 5, 'deps': 6, 'misc': 7}
        if case['name'] in columns:
            for node, value in zip(nodes, case['values']):
                node[columns[case['name']]] = value
        return [sentence([word()], empties=nodes, comments=BASIC)]
    if part == 'body':
        n = len(case['heads'])
        words = [word(LABELS[i], head=h) for i, h in enumerate(case['heads'])]
        mwts = [(a, b, LABELS[a - 1:b], '_') for a, b in case['mwts']]
        nodes = [empty(f'{gap}.{k + 1}', 'E', deps='0:x') for gap in range(n + 1) for k in range(case['empties'][gap])]
        if case['deps']:
            ids = [str(i) for i in range(n + 1)] + [e[0] for e in nodes]
            for i, w in enumerate(words):
                w[7] = '|'.join(f'{x}:d{x}' for x in ids) if case['deps'] == 1 else f'{ids[-1 - i % len(ids)]}:d:{i}'
            for i, e in enumerate(nodes):
                e[6] = f'{ids[i % len(ids)]}:e'
        return [sentence(words, mwts, nodes, BASIC)]
    return from_pool(case['pool'])


def run_case(case, rec):
    if case['part'] == 'options':
        return run_options(case, rec)
    if case['part'] == 'edited':
        return run_edited(case, rec)
    if case['part'] == 'json':
        return run_json(case, rec)
    if case['part'] == 'added':
        return run_added(case, rec)
    if case['part'] == 'mwtfeats':
        text = conllu.document([sentence([word('a'), word('b', head=1)], [(1, 2, 'ab', '_')], comments=BASIC)])
        text = text.replace('1-2\tab\t_\t_\t_\t_', '1-2\tab\t_\t_\t_\t' + case['feats'])
        written = conllu.read_string(text).to_conllu_string()
        rec.step(2)
        require(written == text, 'mwt-line-feats-lost', lambda: conllu.first_difference(written, text))
        return None
    sents = make(case)
    text = conllu.document(sents)
    doc = conllu.read_string(text)
    rec.step()
    trees = list(doc.trees)
    require(len(trees) == len(sents), 'number-of-sentences', lambda: f'{len(trees)} instead of {len(sents)} in {text!r}')
    for tree, sent in zip(trees, sents):
        compare(tree, sent, text)
        check_tree(tree)
    written = doc.to_conllu_string()
    rec.step()
    require(written == text, 'write-of-read-differs', lambda: conllu.first_difference(written, text))
    if case['part'] in ('body', 'docs'):
        api = build_api(sents)
        api_text = api.to_conllu_string()
        expected = conllu.document([api_sentence(s) for s in sents])
        require(api_text == expected, 'write-of-built-differs', lambda: conllu.first_difference(api_text, expected))
        again = conllu.read_string(api_text)
        for tree, sent in zip(again.trees, sents):
            compare(tree, api_sentence(sent), api_text)
        rec.step(2)
    if case['part'] == 'docs' and len(case['pool']) <= 2:
        through_files(doc, text)
    rec.trace()
    rec.state(text)
    return None


def compare(tree, sent, text):
    got = conllu.observe(tree)
    for key in ('words', 'mwts', 'empties'):
        want = sorted(sent[key]) if key == 'mwts' else sent[key]
        if got[key] != want:
            raise Fail('read-' + key + '-differ', f'got {got[key]} want {want} in {text!r}')
    for node, cols in zip(tree.descendants, sent['words']):
        for name, value in (('upos', cols[2]), ('xpos', cols[3]), ('deprel', cols[6])):
            require((value == '_') == (getattr(node, name) is None), 'underscore-is-no-value', lambda: f'{name}={getattr(node, name)!r} in {text!r}')
    attrs = {'sent_id': None, 'text': None, 'newdoc': None, 'newpar': None}
    plain = []
    for line in sent['comments']:
        name = line[2:].split(' = ')[0]
        if line.startswith('# newdoc') and line.split(' ')[1] == 'newdoc':
            attrs['newdoc'] = line.split(' = ', 1)[1] if ' = ' in line else True
        elif line.startswith('# newpar') and line.split(' ')[1] == 'newpar':
            attrs['newpar'] = line.split(' = ', 1)[1] if ' = ' in line else True
        elif line.startswith('# sent_id = ') or line.startswith('# text = '):
            attrs[name] = line.split(' = ', 1)[1]
        elif not line.startswith('# json_') and not line.startswith('# global.'):
            plain.append(line[1:])
    for name, want in attrs.items():
        if name == 'sent_id' and want is None:
            continue
        got_value = getattr(tree, name)
        require(got_value == want, 'read-' + name, lambda: f'got {got_value!r} want {want!r} in {text!r}')
    stored = [c for c in tree.comment.split('\n')[:-1] if not c.startswith('$')]
    require(stored == plain, 'read-comments', lambda: f'got {stored!r} want {plain!r}')
    import json
    values = dict(line[7:].split(' = ', 1) for line in sent['comments'] if line.startswith('# json_'))
    values = {key: json.loads(value) for key, value in values.items()}
    require(tree.json == values, 'read-json', lambda: f'{tree.json}')


def build_api(sents):
    """Build the same document using the public API only."""
    from udapi.core.document import Document
    doc = Document()
    for sent in sents:
        bundle = doc.create_bundle()
        root = bundle.create_tree()
        fill_api(root, sent)
    return doc


def fill_api(root, sent):
    def val(value):
        return None if value == '_' else value
    nodes = [root]
    for cols in sent['words']:
        form, lemma, upos, xpos, feats, _, deprel, _, misc = cols
        nodes.append(root.create_child(form=form, lemma=lemma, upos=val(upos), xpos=val(xpos), feats=feats,
                                       deprel=val(deprel), misc=misc))
    from mc.trees import top_down
    heads = [cols[5] for cols in sent['words']]
    for num in top_down(heads):
        if heads[num - 1]:
            nodes[num].parent = nodes[heads[num - 1]]
    byid = {str(i): node for i, node in enumerate(nodes)}
    for start, end, form, misc in sent['mwts']:
        root.create_multiword_token(nodes[start:end + 1], form, misc)
    for eid, form, lemma, upos, xpos, feats, _, misc in sent['empties']:
        node = root.create_empty_child(form=form, lemma=lemma, upos=upos, xpos=xpos, feats=feats, misc=misc)
        node.ord = eid
        byid[eid] = node
    for eid, node in byid.items():
        if '.' in eid:
            deps = [e[6] for e in sent['empties'] if e[0] == eid][0]
        elif eid == '0':
            continue
        else:
            deps = sent['words'][int(eid) - 1][7]
        if deps != '_':
            node.deps = [{'parent': byid[d.split(':', 1)[0]], 'deprel': d.split(':', 1)[1]} for d in deps.split('|')]
    for line in sent['comments']:
        if line.startswith('# newdoc'):
            root.newdoc = line.split(' = ', 1)[1] if ' = ' in line else True
        elif line.startswith('# newpar'):
            root.newpar = line.split(' = ', 1)[1] if ' = ' in line else True
        elif line.startswith('# sent_id'):
            root.sent_id = line.split(' = ', 1)[1]
        elif line.startswith('# text'):
            root.text = line.split(' = ', 1)[1]
        elif line.startswith('# json_'):
            import json
            name, value = line[7:].split(' = ', 1)
            root.json[name] = json.loads(value)
        else:
            root.add_comment(line[2:])


def api_sentence(sent):
    """The documented default order of comments for trees built from scratch."""
    def rank(line):
        for i, prefix in enumerate(('# newdoc', '# newpar', '# sent_id', '# text')):
            if line.startswith(prefix):
                return i
        return 6 if line.startswith('# json_') else 5
    words = []
    for cols in sent['words']:
        words.append([c for c in cols])
    return dict(sent, comments=sorted(sent['comments'], key=rank), words=words)


def through_files(doc, text):
    """store_conllu + load_conllu via a scratch directory."""
    from udapi.core.document import Document
    with scratch() as folder:
        path = os.path.join(folder, 'x.conllu')
        doc.store_conllu(path)
        with open(path, encoding='utf-8', newline='') as handle:
            stored = handle.read()
        require(stored == text, 'stored-file-differs', lambda: conllu.first_difference(stored, text))
        loaded = Document(path).to_conllu_string()
        require(loaded == text, 'loaded-file-differs', lambda: conllu.first_difference(loaded, text))


def run_options(case, rec):
    """print_sent_id=0, print_text=0, print_empty_trees=0 leave out exactly the respective lines/trees."""
    from mc.core import captured
    from udapi.block.write.conllu import Conllu
    sents = make(case)
    doc = conllu.read_string(conllu.document(sents))
    with captured() as out:
        Conllu(print_sent_id=case['print_sent_id'], print_text=case['print_text'],
               print_empty_trees=case['print_empty_trees']).apply_on_document(doc)
    expected = []
    for sent in sents:
        if not sent['words'] and not sent['empties'] and not case['print_empty_trees']:
            continue
        lines = sent['comments']
        if not case['print_sent_id']:
            lines = [c for c in lines if not c.startswith(('# sent_id', '# newdoc', '# newpar'))]
        if not case['print_text']:
            lines = [c for c in lines if not c.startswith('# text = ')]
        expected.append(dict(sent, comments=lines))
    expected = conllu.document(expected)
    got = out.getvalue()
    rec.step(2)
    rec.trace()
    rec.state(str(case))
    require(got == expected, 'writer-options', lambda: conllu.first_difference(got, expected))


def _edit_feats(nodes):
    nodes[0].feats['New'] = 'V'


def _edit_misc(nodes):
    nodes[-1].misc['New'] = 'V'
    nodes[0].misc['M'] = None


def _edit_parent(nodes):
    for node in nodes:
        node.parent = node.root


def _edit_shift(nodes):
    for node in nodes:
        node.deps
    if not nodes[0].root.multiword_tokens:
        nodes[-1].shift_before_node(nodes[0], without_children=True)


def _edit_create(nodes):
    nodes[0].create_child(form='new', lemma='_', deprel='x')


def _edit_attrs(nodes):
    for node in nodes:
        node.form, node.lemma, node.upos, node.xpos, node.deprel = 'f', 'l', 'u', 'x', 'd'
    nodes[0].root.text = None


def _edit_comment(nodes):
    nodes[0].root.add_comment('added = yes')


def _edit_newdoc(nodes):
    root = nodes[0].root
    root.newdoc, root.newpar = 'D', None


EDITS = [_edit_feats, _edit_misc, _edit_parent, _edit_shift, _edit_create, _edit_attrs, _edit_comment, _edit_newdoc]


def run_added(case, rec):
    """Each call of add_comment adds exactly one line of comments, after all the others."""
    before = [f'# {c}' for c in case['before'] if c]
    if case['built']:
        from udapi.core.document import Document
        doc = Document()
        tree = doc.create_bundle().create_tree()
        tree.sent_id, tree.text = 's1', 'a'
        tree.create_child(form='a', deprel='root')
        for comment in before:
            tree.add_comment(comment[2:])
    else:
        doc = conllu.read_string('\n'.join(['# sent_id = s1', '# text = a', *before, '1\ta\t_\t_\t_\t_\t0\troot\t_\t_', '', '']))
        tree = next(doc.trees)
    for comment in case['added']:
        tree.add_comment(comment)
    text = doc.to_conllu_string()
    rec.step(len(case['added']) + 1)
    lines = [line for line in text.split('\n') if line.startswith('#') and not line.startswith(('# sent_id', '# text', '# newdoc', '# global'))]
    equal(lines, before + [f'# {c}' for c in case['added']], 'added-comments', text)
    equal(conllu.read_string(text).to_conllu_string(), text, 'second-writing-differs')
    rec.trace()
    rec.state(text)


def run_edited(case, rec):
    """read, edit, write, read again: the second reading equals the edited document."""
    sent = from_pool([case['pool']])[0]
    doc = conllu.read_string(conllu.document([sent]))
    tree = next(doc.trees)
    if tree.descendants:
        EDITS[case['edit']](list(tree.descendants))
    want = conllu.observe(tree)
    text = doc.to_conllu_string()
    again = conllu.read_string(text)
    tree2 = next(again.trees)
    got = conllu.observe(tree2)
    require(got == want, 'reading-after-editing', lambda: f'got {got}, want {want}, text {text!r}')
    for name in ('sent_id', 'newdoc', 'newpar'):
        equal(getattr(tree2, name), getattr(tree, name), 'reading-after-editing-' + name, text)
    equal(tree2.text, tree.text if tree.text is not None else tree.compute_text(), 'reading-after-editing-text')
    plain = [c for c in tree.comment.split('\n') if c and not c.startswith('$')]
    plain2 = [c for c in tree2.comment.split('\n') if c and not c.startswith('$')]
    equal(plain2, plain, 'reading-after-editing-comments')
    equal(again.to_conllu_string(), text, 'second-writing-differs')
    rec.step(4)
    rec.trace()
    rec.state(text)
