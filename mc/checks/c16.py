"""C16: moving words between trees, and splitting, joining, merging and re-segmenting sentences."""
import contextlib
import io
import itertools

from mc.core import require, equal, raises, scratch
from mc import trees

TITLE = ('All trees x multi-word tokens x empty nodes x sets of moved words (steal_nodes) and all small documents x all split points, join points, part sizes and '
         're-segmentations, vs. a reference model of sentences; sentence segmentation and reading of plain text vs. their definitions')
ASSUMPTIONS = ['a dependency between a moved word and a word left behind is only required to lead to a node of the right tree',
               'a multi-word token which is cut is not compared', 'util.ResegmentGold: sentence boundaries of the gold zone are token boundaries of the other zone',
               'util.SplitSentence, util.JoinSentence and segment.Simple: one zone']


def BOUNDS(tier):
    big = tier != 'quick'
    return {'steal_words': 4, 'steal_words_with_empty_nodes': 4 if big else 3, 'block_words': 4 if big else 3, 'split_documents': 3, 'parts_bundles': 8 if big else 6,
            'cut_words': 7 if big else 6, 'resegment_tokens': 6 if big else 5, 'text_tokens': 4 if big else 3, 'lines': 6 if big else 5}


# ---------------------------------------------------------------- the model of a sentence
class Sent:
    def __init__(self):
        self.seq, self.empties, self.head, self.deprel, self.mwts, self.deps, self.nospace, self.cut = [], set(), {}, {}, [], {}, set(), set()

    def words(self):
        return [x for x in self.seq if x not in self.empties]

    def text(self):
        result, words = '', self.words()
        inside = {w: m for m in self.mwts for w in m[0]}
        for w in words:
            if w in inside:
                if inside[w][0][0] == w:
                    result += inside[w][1] + ('' if inside[w][2] else ' ')
            else:
                result += w + ('' if w in self.nospace else ' ')
        return result.rstrip()


def sent(prefix, heads, ranges=(), gaps=None, nospace=(), deps=False):
    """Words are prefix+letter, the MWT over a..b is named PREFIX+letters, empty nodes E+prefix+number."""
    result = Sent()
    name = lambda i: prefix + trees.LABELS[i - 1] if i else ''
    n = len(heads)
    for i in range(0, n + 1):
        if i:
            result.seq.append(name(i))
            result.head[name(i)] = name(heads[i - 1])
            result.deprel[name(i)] = f'r{i}' if heads[i - 1] else 'root'
            if i in nospace:
                result.nospace.add(name(i))
        for j in range(gaps[i] if gaps else 0):
            label = f'E{prefix}{i}_{j}'
            result.seq.append(label)
            result.empties.add(label)
    for first, last in ranges:
        words = tuple(name(i) for i in range(first, last + 1))
        result.mwts.append((words, (prefix + trees.LABELS[first - 1:last]).upper(), last in nospace))
        result.nospace -= set(words)
    for k, label in enumerate(result.seq):
        result.deps[label] = []
        if deps:
            # the basic head, the previous and the next node
            edges = [(result.head.get(label, ''), 'b')]
            if k:
                edges.append((result.seq[k - 1], 'p'))
            if k + 1 < len(result.seq):
                edges.append((result.seq[k + 1], 'n'))
            result.deps[label] = edges
    return result


def build(root, model, lazy=True):
    nodes = {'': root}
    words = model.words()
    for w in words:
        nodes[w] = root.create_child(form=w, lemma=w, upos='X', deprel=model.deprel[w])
        if w in model.nospace:
            nodes[w].misc['SpaceAfter'] = 'No'
    todo = [w for w in words if model.head[w]]
    done = {w for w in words if not model.head[w]}
    while todo:
        for w in todo[:]:
            if model.head[w] in done:
                nodes[w].parent = nodes[model.head[w]]
                done.add(w)
                todo.remove(w)
    for form in [m for m in model.mwts]:
        mwt = root.create_multiword_token(words=[nodes[w] for w in form[0]], form=form[1])
        mwt.misc['M'] = form[1]
        if form[2]:
            mwt.misc['SpaceAfter'] = 'No'
    major = minor = 0
    ids = {'': '0'}
    for label in model.seq:
        if label in model.empties:
            minor += 1
            node = root.create_empty_child(form=label)
            node.ord = f'{major}.{minor}'
            nodes[label] = node
        else:
            major, minor = major + 1, 0
        ids[label] = f'{major}.{minor}' if label in model.empties else str(major)
    for label in model.seq:
        if model.deps[label]:
            if lazy:
                nodes[label].raw_deps = '|'.join(f'{ids[p]}:{r}' for p, r in model.deps[label])
            else:
                nodes[label].deps = [{'parent': nodes[p], 'deprel': r} for p, r in model.deps[label]]
    return nodes


def move(source, chosen, target):
    """Move the chosen words from the model `source` to the end of the model `target`."""
    whole = set(chosen) == set(source.words())
    moved, stay, previous = [], [], None
    for label in source.seq:
        if label not in source.empties:
            previous = label
        goes = previous in chosen if previous else whole
        (moved if goes else stay).append(label)
    side = {x: 1 for x in moved}
    side.update({x: 0 for x in stay})
    for w in source.words():
        if source.head[w] and side[source.head[w]] != side[w]:
            source.head[w] = ''
    for label in source.seq:
        source.deps[label] = [(p if p in ('', '*') or side[p] == side[label] else '*', r) for p, r in source.deps[label]]
    for label in moved:
        for name in ('head', 'deprel', 'deps'):
            table = getattr(source, name)
            if label in table:
                getattr(target, name)[label] = table.pop(label)
        for name in ('empties', 'nospace'):
            if label in getattr(source, name):
                getattr(source, name).remove(label)
                getattr(target, name).add(label)
    for mwt in source.mwts[:]:
        sides = {side[w] for w in mwt[0]}
        if len(sides) == 2:
            source.mwts.remove(mwt)
            source.cut |= set(mwt[0])
            target.cut |= set(mwt[0])
        elif sides == {1}:
            source.mwts.remove(mwt)
            target.mwts.append(mwt)
    source.seq = stay
    target.seq += moved


def compare(root, model, where, deprels=True):
    trees.check_tree(root, where=where)
    nodes = root.descendants_and_empty
    equal([x.form for x in nodes], model.seq, 'nodes', where)
    equal([x.form for x in root.descendants], model.words(), 'words', where)
    ids, major, minor = {'': '0'}, 0, 0
    for node in nodes:
        require(node.root is root, 'node-root', where)
        if node.is_empty():
            text = str(node.ord).split('.')
            require(int(text[0]) == major and int(text[1]) > minor, 'position-of-empty-node', lambda: f'{where} {node.form} {node.ord} {major} {minor}')
            minor = int(text[1])
        else:
            major, minor = major + 1, 0
        ids[node.form] = str(node.ord)
    equal({x.form: (x.parent.form if x.parent is not root else '') for x in root.descendants}, model.head, 'heads', where)
    if deprels:
        equal({x.form: x.deprel for x in root.descendants}, model.deprel, 'deprels', where)
    for node in root.descendants:
        mwt = node.multiword_token
        require(mwt is None or (mwt.root is root and mwt in root.multiword_tokens and node in mwt.words), 'mwt-links', where)
    got = []
    for mwt in root.multiword_tokens:
        require(all(w.multiword_token is mwt and w.root is root for w in mwt.words), 'mwt-words', where)
        if not model.cut & {w.form for w in mwt.words}:
            require(mwt.address().startswith(root.address() + '#'), 'mwt-address', where)
            got.append((tuple(w.form for w in mwt.words), mwt.form, mwt.misc['SpaceAfter'] == 'No', mwt.misc['M']))
    equal(sorted(got), sorted((*m, m[1]) for m in model.mwts), 'multiword-tokens', where)
    equal({x.form for x in root.descendants if x.misc['SpaceAfter'] == 'No'} - model.cut, model.nospace - model.cut, 'space-after', where)
    for node in nodes:
        want = sorted((p, r) for p, r in model.deps[node.form])
        if any(p == '*' for p, _ in want):
            inner = [w for w in want if w[0] != '*']
            got = [(d['parent'].form if d['parent'] is not root else '', d['deprel']) for d in node.deps]
            require(all(d['parent'].root is root for d in node.deps), 'deps-lead-out-of-the-tree', where)
            require(all(w in got for w in inner) and len(got) <= len(want), 'deps-lost', lambda: f'{where} {node.form}: {got} want {want}')
        else:
            got = sorted(node.raw_deps.split('|')) if node.raw_deps != '_' else []
            equal(got, sorted(f'{ids[p]}:{r}' for p, r in want), 'deps', f'{where} {node.form}')


def ranges(n):
    """All sets of disjoint ranges of two or more neighbouring words."""
    def rest(start):
        yield ()
        for first in range(start, n):
            for last in range(first + 1, n + 1):
                for more in rest(last + 1):
                    yield ((first, last),) + more
    return sorted(set(rest(1)))


# ---------------------------------------------------------------- enumeration
def shards(tier):
    bounds = BOUNDS(tier)
    result = []
    for n in range(1, bounds['steal_words'] + 1):
        for heads in trees.head_vectors(n):
            result.append({'kind': 'steal', 'heads': heads, 'empties': n <= bounds['steal_words_with_empty_nodes']})
    for n in range(1, bounds['block_words'] + 1):
        for heads in trees.head_vectors(n):
            result.append({'kind': 'split', 'heads': heads})
            result.append({'kind': 'join', 'heads': heads})
    result += [{'kind': 'long', 'heads': heads} for heads in trees.long_trees()]
    result += [{'kind': 'several', 'first': i} for i in range(4)]
    result += [{'kind': 'cuts', 'count': n} for n in range(4, bounds['cut_words'] + 1)]
    result += [{'kind': 'merge', 'count': n} for n in range(0, 5)]
    result += [{'kind': 'parts', 'count': n} for n in range(1, bounds['parts_bundles'] + 1)]
    result += [{'kind': 'resegment', 'count': n} for n in range(1, bounds['resegment_tokens'] + 1)]
    result += [{'kind': 'simple', 'count': n} for n in range(1, bounds['text_tokens'] + 1)]
    result += [{'kind': 'lines', 'count': n} for n in range(0, bounds['lines'] + 1)]
    return result[::-1]


TOKENS = ['a', 'B', 'b.', 'B.', 'Bb.', '5.', '5', 'a!"', '„A.', '„Ab', 'B?)', 'např.', 'e.g.', '"', '.', 'Č…', 'Č!']


def run_shard(shard, rec):
    kind = shard['kind']
    if kind == 'steal':
        heads = shard['heads']
        n = len(heads)
        gap_sets = [None] + (list(itertools.product((0, 1), repeat=n + 1))[1:] + [(2,) * (n + 1)] if shard['empties'] else [(1, 1, 0, 0, 1), (0, 0, 1, 1, 0)])
        for size in range(0, n + 1):
            for chosen in itertools.combinations(range(1, n + 1), size):
                for target in range(4):
                    for mwts in ranges(n):
                        rec.run({'kind': kind, 'heads': heads, 'chosen': chosen, 'target': target, 'mwts': mwts, 'gaps': None, 'lazy': 1})
                    for gaps in gap_sets:
                        for lazy in (0, 1):
                            rec.run({'kind': kind, 'heads': heads, 'chosen': chosen, 'target': target, 'mwts': (), 'gaps': gaps, 'lazy': lazy})
    elif kind == 'long':
        # periodic subsets, multi-word tokens and empty nodes in sentences of 12 words
        heads = tuple(shard['heads'])
        n = len(heads)
        for size in (1, 2, 3):
            for part in itertools.product((0, 1), repeat=size):
                chosen = tuple(i for i in range(1, n + 1) if part[i % size])
                for target in range(4):
                    for mwts in ((), ((1, 2), (9, 11)), tuple((i, i + 1) for i in range(1, n, 2))):
                        for gaps in (None, (1,) * (n + 1), (0, 11) * (n // 2) + (2,)):
                            rec.run({'kind': 'steal', 'heads': heads, 'chosen': chosen, 'target': target, 'mwts': mwts if not gaps else (), 'gaps': gaps, 'lazy': 1})
                for mwts in ((), ((1, 2), (9, 11))):
                    for gaps in (None, (1,) * (n + 1), (0, 11) * (n // 2) + (2,)):
                        base = {'heads': heads, 'mwts': mwts, 'nospace': chosen, 'gaps': gaps}
                        for place in (2, 3, 9, 10, 11, 12):
                            rec.run({'kind': 'split', **base, 'cut': place})
                            rec.run({'kind': 'join', **base, 'place': place})
        for size in (1, 2, 3):
            for marks in itertools.product('-XY', repeat=size):
                for value in (None, 'X'):
                    rec.run({'kind': 'split', 'heads': heads, 'mwts': (), 'nospace': (), 'gaps': None, 'marks': (''.join(marks) * n)[:n], 'value': value})
    elif kind in ('split', 'join'):
        heads = shard['heads']
        n = len(heads)
        for mwts in ranges(n):
            for nospace in itertools.product((0, 1), repeat=n):
                chosen = tuple(i for i in range(1, n + 1) if nospace[i - 1])
                for gaps in (None, (1,) * (n + 1)):
                    base = {'kind': kind, 'heads': heads, 'mwts': mwts, 'nospace': chosen, 'gaps': gaps}
                    if kind == 'split':
                        for cut in range(2, n + 1):
                            rec.run({**base, 'cut': cut})
                        for marks in itertools.product('-XY', repeat=n) if not gaps else ():
                            for value in (None, 'X'):
                                rec.run({**base, 'marks': ''.join(marks), 'value': value})
                    else:
                        for place in range(0, n + 1):
                            rec.run({**base, 'place': place})
    elif kind == 'cuts':
        n = shard['count']
        for heads in (tuple(range(n)), tuple(range(2, n + 1)) + (0,), (0,) * n):
            for marks in itertools.product('-X', repeat=n):
                for mwts in ((), ((2, 3),)):
                    rec.run({'kind': 'split', 'heads': heads, 'mwts': mwts, 'nospace': (), 'gaps': None, 'marks': ''.join(marks), 'value': None})
    elif kind == 'several':
        for marks in itertools.product('-X', repeat=shard['first']):
            for block in ('split', 'join'):
                rec.run({'kind': kind, 'marks': ''.join(marks), 'block': block})
            for where in itertools.product((0, 1, 2), repeat=len(marks)):
                rec.run({'kind': kind, 'marks': ''.join(marks), 'block': 'split-join', 'where': where})
    elif kind == 'merge':
        for ends in itertools.product((0, 1), repeat=shard['count']):
            for zones in (('',), ('a', 'b')):
                rec.run({'kind': kind, 'ends': ends, 'zones': zones})
    elif kind == 'parts':
        for size in range(1, shard['count'] + 2):
            for how in ('parts', 'bundles_per_doc'):
                for files in range(1, min(3, shard['count']) + 1):
                    rec.run({'kind': kind, 'count': shard['count'], how: size, 'files': files})
    elif kind == 'resegment':
        n = shard['count']
        cuts = [tuple(sorted(c)) for k in range(n) for c in itertools.combinations(range(1, n), k)]
        for gold in cuts:
            for pred in cuts:
                for glue in cuts:
                    # glue: the token boundaries of the predicted zone; they include all sentence boundaries of both zones
                    if set(gold) <= set(glue) and set(pred) <= set(glue):
                        for style in ('chain', 'flat', 'mwt', 'back', 'middle'):
                            rec.run({'kind': kind, 'count': n, 'gold': gold, 'pred': pred, 'tokens': glue, 'style': style})
                        rec.run({'kind': kind, 'count': n, 'gold': gold, 'pred': pred, 'tokens': glue, 'style': 'back', 'same': 1})
                    elif set(pred) <= set(glue):
                        rec.run({'kind': 'crossing', 'count': n, 'gold': gold, 'pred': pred, 'tokens': glue, 'style': 'chain'})
        if n <= 3:
            for gold, pred, changed, cross in itertools.product(cuts, cuts, range(n), (0, 1)):
                rec.run({'kind': 'mismatch', 'count': n, 'gold': gold, 'pred': pred, 'changed': changed, 'third': cross})
    elif kind == 'simple':
        for tokens in itertools.product(TOKENS, repeat=shard['count']):
            rec.run({'kind': kind, 'tokens': tokens, 'keep': 0})
        if shard['count'] <= 2:
            for tokens in itertools.product(TOKENS + [''], repeat=shard['count']):
                rec.run({'kind': kind, 'tokens': tokens, 'keep': 1})
    elif kind == 'lines':
        for lines in itertools.product(('a\n', 'b \n', '\n', 'c\r\n', '\r\n'), repeat=shard['count']):
            for mode in ('plain', 'ignore', 'newdoc'):
                rec.run({'kind': kind, 'lines': lines, 'mode': mode})


def run_case(case, rec):
    globals()['case_' + case['kind']](case, rec)
    rec.trace()
    rec.state(str(case))


def case_steal(case, rec):
    model = sent('', case['heads'], case['mwts'], case['gaps'], nospace=(2,), deps=True)
    other = [sent('t', ()), sent('t', (0,)), sent('t', (2, 0), ((1, 2),), deps=True), sent('t', (0, 1), (), (1, 1, 2), deps=True)][case['target']]
    source, target = trees.new_doc_root(), trees.new_doc_root()
    source.sent_id, target.sent_id = 'source', 'target'
    nodes = build(source, model, case['lazy'])
    build(target, other, case['lazy'])
    where = str(case)
    compare(source, model, 'initial ' + where)
    chosen = [trees.LABELS[i - 1] for i in case['chosen']]
    # the order of the given nodes does not matter
    target.steal_nodes([nodes[x] for x in reversed(chosen)])
    rec.step()
    if chosen:
        move(model, chosen, other)
    compare(target, other, 'target ' + where)
    compare(source, model, 'source ' + where)
    # the trees stay usable
    if chosen:
        last = target.descendants[-1]
        last.create_child(form='new').shift_before_node(target.descendants[0])
        trees.check_tree(target)
        last.remove(children='rehang')
        trees.check_tree(target)


def make_doc(models):
    from udapi.core.document import Document
    doc = Document()
    for i, model in enumerate(models):
        tree = doc.create_bundle().create_tree()
        build(tree, model)
        tree.text = model.text()
        tree.bundle.bundle_id = f's{i}'
    return doc


def compare_doc(doc, models, ids, where, texts=True):
    equal([b.bundle_id for b in doc.bundles], ids, 'sentence-ids', where)
    equal([b.trees[0].sent_id for b in doc.bundles], ids, 'sentence-ids', where)
    equal([b.number for b in doc.bundles], list(range(1, len(ids) + 1)), 'bundle-numbers', where)
    for bundle, model in zip(doc.bundles, models):
        require(bundle.document is doc and len(bundle.trees) == 1 and bundle.trees[0].bundle is bundle, 'links', where)
        if texts and not model.cut:
            equal(bundle.trees[0].text, model.text(), 'text', where)
        compare(bundle.trees[0], model, where)


def model_split(model, cuts):
    """Cut the sentence before each of the given words; the relations of all new top words are root."""
    parts = []
    words = model.words()
    bounds = [words.index(c) for c in cuts] + [len(words)]
    for start, end in zip(bounds, bounds[1:]):
        part = Sent()
        move(model, words[start:end], part)
        parts.append(part)
    for part in [model] + parts:
        for w in part.words():
            if not part.head[w]:
                part.deprel[w] = 'root'
    return [model] + parts


def case_split(case, rec):
    from udapi.block.util.splitsentence import SplitSentence
    first, last = sent('x', (0, 1), deps=True), sent('y', (2, 0), ((1, 2),))
    model = sent('', case['heads'], case['mwts'], case['gaps'], case['nospace'], deps=True)
    doc = make_doc([first, model, last])
    where = str(case)
    marked = []
    if 'cut' in case:
        SplitSentence(sent_id='s1', word_id=case['cut']).run(doc)
        cuts = [trees.LABELS[case['cut'] - 1]]
    else:
        words = doc.bundles[1].trees[0].descendants
        for i, mark in enumerate(case['marks']):
            if mark != '-':
                words[i].misc['Cut'] = mark
        SplitSentence(misc_name='Cut', misc_value=case['value']).run(doc)
        cuts = [trees.LABELS[i] for i, mark in enumerate(case['marks']) if i and mark != '-' and case['value'] in (None, mark)]
        marked = [trees.LABELS[i] for i, mark in enumerate(case['marks']) if mark != '-' and trees.LABELS[i] not in cuts]
    rec.step()
    parts = model_split(model, cuts) if cuts else [model]
    ids = ['s1'] if not cuts else ['s1' + 'ABCDEFGHIJKLMNOPQ'[i] for i in range(len(parts))]
    compare_doc(doc, [first] + parts + [last], ['s0'] + ids + ['s2'], where)
    equal([n.form for n in doc.nodes if n.misc['Cut']], marked, 'marks', where)
    equal([(b.number, n.form) for b in doc.bundles for n in b.nodes],
          [(i, w) for i, p in enumerate([first] + parts + [last], 1) for w in p.words()], 'all-words', where)


def case_join(case, rec):
    from udapi.block.util.joinsentence import JoinSentence
    first, last = sent('x', (2, 0), ((1, 2),), (0, 1, 2), (2,) if len(case['heads']) % 2 else (), deps=True), sent('y', (0, 1), deps=True)
    model = sent('', case['heads'], case['mwts'], case['gaps'], case['nospace'], deps=True)
    doc = make_doc([first, model, last])
    place = case['place']
    if place:
        doc.bundles[1].trees[0].descendants[place - 1].misc['Join'] = 'Yes'
        JoinSentence(misc_name='Join').run(doc)
    else:
        JoinSentence(sent_id='s1').run(doc)
    rec.step()
    move(model, model.words(), first)
    compare_doc(doc, [first, last], ['s0', 's2'], str(case))
    equal([n.form for n in doc.nodes if n.misc['Join']], [], 'marks', str(case))


def case_several(case, rec):
    """Several sentences of a document are split or joined in one run."""
    from udapi.block.util.splitsentence import SplitSentence
    from udapi.block.util.joinsentence import JoinSentence
    marks = case['marks']
    where = str(case)
    if case['block'] == 'join':
        models = [sent('x', (0,))] + [sent('pqrstuv'[i], (2, 0), deps=True) for i in range(len(marks))]
        doc = make_doc(models)
        for i, mark in enumerate(marks):
            if mark == 'X':
                doc.bundles[i + 1].trees[0].descendants[i % 2].misc['Join'] = 'X'
            else:
                doc.bundles[i + 1].trees[0].descendants[i % 2].misc['Join'] = 'Y'
        JoinSentence(misc_name='Join', misc_value='X').run(doc)
        want, ids = [models[0]], ['s0']
        for i, mark in enumerate(marks):
            if mark == 'X':
                move(models[i + 1], models[i + 1].words(), want[-1])
            else:
                want.append(models[i + 1])
                ids.append(f's{i + 1}')
        compare_doc(doc, want, ids, where)
    else:
        models = [sent('pqrstuv'[i], (2, 3, 0), deps=True) for i in range(len(marks))]
        doc = make_doc(models)
        counts = case.get('where') or [1] * len(marks)
        for i, mark in enumerate(marks):
            if mark == 'X':
                for k in range(counts[i]):
                    doc.bundles[i].trees[0].descendants[2 - k].misc['Cut'] = 'X'
        SplitSentence(misc_name='Cut').run(doc)
        want, ids = [], []
        for i, mark in enumerate(marks):
            words = models[i].words()
            if mark == 'X' and counts[i]:
                parts = model_split(models[i], words[3 - counts[i]:])
                want += parts
                ids += [f's{i}' + 'ABC'[k] for k in range(len(parts))]
            else:
                want.append(models[i])
                ids.append(f's{i}')
        compare_doc(doc, want, ids, where)
        if case['block'] == 'split-join':
            for bundle in doc.bundles:
                if bundle.bundle_id[-1] in 'BC':
                    bundle.trees[0].descendants[0].misc['Join'] = 'Yes'
            JoinSentence(misc_name='Join').run(doc)
            joined, names = [], []
            for model, name in zip(want, ids):
                if name[-1] in 'BC':
                    move(model, model.words(), joined[-1])
                else:
                    joined.append(model)
                    names.append(name)
            compare_doc(doc, joined, names, where)
    rec.step()


def case_merge(case, rec):
    from udapi.block.segment.merge import Merge
    from udapi.core.document import Document
    doc, models = Document(), []
    for i, end in enumerate(case['ends']):
        bundle = doc.create_bundle()
        models.append({})
        for zone in case['zones']:
            model = sent(zone + 'pqrstuv'[i], (2, 0), ((1, 2),) if i % 2 else (), deps=True)
            tree = bundle.create_tree(zone or None)
            nodes = build(tree, model)
            label = model.words()[-1]
            if end and zone == case['zones'][0]:
                nodes[label].form = label + ';'
                for name in ('head', 'deprel', 'deps'):
                    table = getattr(model, name)
                    table[label + ';'] = table.pop(label)
                for key, value in model.head.items():
                    model.head[key] = label + ';' if value == label else value
                model.deps = {k: [(label + ';' if p == label else p, r) for p, r in edges] for k, edges in model.deps.items()}
                model.seq[-1] = label + ';'
                model.mwts = [((*m[0][:-1], label + ';'), *m[1:]) for m in model.mwts]
            tree.text = model.text()
            models[-1][zone] = model
    Merge(zones=case['zones'][0] or 'all').run(doc)
    rec.step()
    want, ids, previous = [], [], False
    for i, end in enumerate(case['ends']):
        if previous:
            for zone in case['zones']:
                move(models[i][zone], models[i][zone].words(), want[-1][zone])
        else:
            want.append(models[i])
            ids.append(str(i + 1))
        previous = end
    where = str(case)
    equal([b.bundle_id for b in doc.bundles], ids, 'sentence-ids', where)
    equal([b.number for b in doc.bundles], list(range(1, len(ids) + 1)), 'bundle-numbers', where)
    for bundle, models in zip(doc.bundles, want):
        equal([t.zone for t in bundle], list(case['zones']), 'zones', where)
        for tree in bundle:
            equal(tree.text, models[tree.zone].text(), 'text', where)
            compare(tree, models[tree.zone], where)


def case_parts(case, rec):
    from udapi.block.read.conllu import Conllu
    from udapi.block.util.split import Split
    from udapi.core.block import Block
    from udapi.core.run import Run
    import os
    seen = []

    class Collect(Block):
        def process_document(self, document):
            require(all(b.document is document for b in document.bundles), 'bundle-document', str(case))
            equal([b.number for b in document.bundles], list(range(1, len(document.bundles) + 1)), 'bundle-numbers', str(case))
            seen.append([[t.descendants[0].form for t in b] for b in document.bundles])

    class Args:
        scenario = ['x']
    with scratch() as folder:
        names, number = [], 0
        share = -(-case['count'] // case['files'])
        for k in range(case['files']):
            content = range(k * share, min(case['count'], (k + 1) * share))
            if content:
                names.append(os.path.join(folder, f'{k}.conllu'))
                with open(names[-1], 'w', encoding='utf-8') as handle:
                    for number in content:
                        for zone in ('a', 'b'):
                            handle.write(f'# sent_id = {number}/{zone}\n1\t{zone}{number}\t_\t_\t_\t_\t0\t_\t_\t_\n\n')
        options = {k: case[k] for k in ('parts', 'bundles_per_doc') if k in case}
        reader = Conllu(files=names, merge=True)
        Run(Args()).run_blocks([('read.Conllu', reader, ''), ('util.Split', Split(**options), ''), ('x', Collect(), '')])
    rec.step(len(seen))
    size = case.get('bundles_per_doc') or -(-case['count'] // case['parts'])
    everything = [[f'a{i}', f'b{i}'] for i in range(case['count'])]
    equal(seen, [everything[i:i + size] for i in range(0, case['count'], size)], 'parts', str(case))
    if 'parts' in case:
        require(len(seen) <= case['parts'], 'too-many-parts', str(case))


def pieces(n, cuts):
    bounds = [0, *cuts, n]
    return [list(range(a, b)) for a, b in zip(bounds, bounds[1:])]


def case_mismatch(case, rec):
    """Different characters or too many zones are refused."""
    from udapi.block.util.resegmentgold import ResegmentGold
    from udapi.core.document import Document
    n = case['count']
    doc = Document()
    gold, pred = pieces(n, case['gold']), pieces(n, case['pred'])
    for i in range(max(len(gold), len(pred))):
        bundle = doc.create_bundle()
        for zone, content in (('gold', gold), ('pred', pred)):
            if i < len(content):
                tree = bundle.create_tree(zone)
                for k in content[i]:
                    form = 'X' if zone == 'pred' and k == case['changed'] and not case['third'] else 'abcd'[k]
                    tree.create_child(form=form, deprel='dep')
    if case['third']:
        doc.bundles[case['changed'] % len(doc.bundles)].create_tree('third')
        if len(doc.bundles[case['changed'] % len(doc.bundles)].trees) == 2:
            return
    rec.step()
    require(isinstance(raises(ResegmentGold().run, doc), ValueError), 'mismatch-accepted', str(case))


def case_crossing(case, rec):
    """A predicted token crosses a boundary of gold sentences: only well-formed trees are guaranteed."""
    from udapi.block.util.resegmentgold import ResegmentGold
    doc, gold, _, _ = resegment_document(case)
    ResegmentGold().run(doc)
    rec.step()
    equal(len(doc.bundles), len(gold), 'crossing-bundles', str(case))
    for bundle, content in zip(doc.bundles, gold):
        equal([t.zone for t in bundle], ['gold', 'pred'], 'crossing-zones', str(case))
        equal([x.form for x in bundle.trees[0].descendants], ['abcdefghij'[k] for k in content], 'crossing-gold', str(case))
        trees.check_tree(bundle.trees[1])
        equal(len(bundle.trees[1].children), 1, 'crossing-root', str(case))


def resegment_document(case):
    from udapi.core.document import Document
    n = case['count']
    chars = 'abcdefghij'
    gold, pred = pieces(n, case['gold']), pieces(n, case['pred'])
    tokens = [''.join(chars[i] for i in p) for p in pieces(n, case['tokens'])]
    doc = Document()
    for i in range(max(len(gold), len(pred))):
        bundle = doc.create_bundle()
        if i < len(gold):
            tree = bundle.create_tree('gold')
            previous = tree
            for k in gold[i]:
                previous = previous.create_child(form='a' if case.get('same') else chars[k], deprel='dep')
            if case.get('same'):
                words = tree.descendants
                words[-1].parent = tree
                for word in words[:-1]:
                    word.parent = words[-1]
        if i < len(pred):
            tree = bundle.create_tree('pred')
            inside = [t for t in tokens if chars.index(t[0]) in pred[i]]
            words = []
            for token in inside:
                if case['style'] == 'mwt':
                    pair = [tree.create_child(form=token + str(k), deprel='case') for k in (1, 2)]
                    tree.create_multiword_token(words=pair, form=token)
                    words += pair
                else:
                    words.append(tree.create_child(form='a' * len(token) if case.get('same') else token, deprel='dep'))
            order = words[::-1] if case['style'] == 'back' else words
            if case['style'] == 'middle':
                order = [words[len(words) // 2], *words[:len(words) // 2], *words[len(words) // 2 + 1:]]
                for word in order[1:]:
                    word.deprel = 'case:x'
            for k, word in enumerate(order[1:], 1):
                word.parent = order[k - 1] if case['style'] in ('chain', 'back') else order[0]
    return doc, gold, pred, tokens


def case_resegment(case, rec):
    from udapi.block.util.resegmentgold import ResegmentGold
    chars = 'abcdefghij'
    doc, gold, pred, tokens = resegment_document(case)
    same = case.get('same')
    predicted = {word: (None if word.parent.is_root() else word.parent) for tree in doc.trees if tree.zone == 'pred' for word in tree.descendants}
    ResegmentGold().run(doc)
    rec.step()
    where = str(case)
    equal([b.number for b in doc.bundles], list(range(1, len(gold) + 1)), 'bundle-numbers', where)
    for bundle, content in zip(doc.bundles, gold):
        equal([t.zone for t in bundle], ['gold', 'pred'], 'zones', where)
        one, two = bundle.trees
        equal([x.form for x in one.descendants], ['a' if same else chars[k] for k in content], 'gold-words', where)
        size = len(content)
        equal([x.parent.ord for x in one.descendants], [size] * (size - 1) + [0] if same else list(range(size)), 'gold-heads', where)
        require(two.bundle is bundle and one.bundle is bundle, 'links', where)
        inside = ['a' * len(t) if same else t for t in tokens if chars.index(t[0]) in content]
        equal([x.form for x in two.token_descendants], inside, 'predicted-tokens', where)
        want = [t + str(k) for t in inside for k in (1, 2)] if case['style'] == 'mwt' else inside
        equal([x.form for x in two.descendants], want, 'predicted-words', where)
        trees.check_tree(two)
        equal(len(two.children), 1, 'not-one-root', where)
        for word in two.descendants:
            head = predicted[word]
            if head and head.root is two and word.parent is not head:
                require(False, 'head-changed', where)
            changed = (None if word.parent.is_root() else word.parent) is not head
            equal(word.misc['Rehanged'], 'Yes' if changed else '', 'rehanged', f'{where} {word}')
            lost = any(other.root is not two and h is word and other.udeprel == 'case' for other, h in predicted.items())
            # functional words may be also lost later, after they were rehanged
            rehanged = any(other.misc['Rehanged'] and other.udeprel == 'case' for other in predicted)
            require(word.misc['FuncChildMissing'] == 'Yes' if lost else rehanged or not word.misc['FuncChildMissing'], 'func-child-missing', f'{where} {word}')
        tops = [word for word in two.descendants if predicted[word] is None]
        if same and tops and set(case['gold']) <= set(case['pred']):
            # the root is the original root with the form of the gold root which is the nearest one
            best = min(tops, key=lambda word: (word.form != 'a', abs(word.ord - len(content)) if word.form == 'a' else 0))
            equal(two.children, [best], 'other-root', where)
        if content in pred:
            size = len(want)
            order = list(range(1, size + 1))
            middle = size // 2 + 1
            heads = {'middle': [0 if i == middle else middle for i in order], 'chain': [i - 1 for i in order], 'flat': [min(1, i - 1) for i in order], 'mwt': [min(1, i - 1) for i in order],
                     'back': [(i + 1) % (size + 1) for i in order]}[case['style']]
            equal([x.parent.ord for x in two.descendants], heads, 'unchanged-sentence-changed', where)


def case_simple(case, rec):
    from udapi.block.segment.simple import Simple
    from udapi.block.read.sentences import Sentences
    from udapi.core.document import Document
    tokens = case['tokens']
    doc = Document()
    Sentences(filehandle=io.StringIO(' '.join(tokens) + '\nlast\n'), rstrip='\n').apply_on_document(doc)
    Simple(keep_spaces=bool(case['keep'])).run(doc)
    rec.step()
    sentences = [[tokens[0]]]
    for one, two in zip(tokens, tokens[1:]):
        if boundary(one, two):
            sentences.append([])
        sentences[-1].append(two)
    texts = [' '.join(s) for s in sentences]
    if case['keep']:
        texts[:-1] = [t + ' ' for t in texts[:-1]]
    got = [(b.bundle_id, b.number, [(t.zone, t.sent_id, t.text) for t in b]) for b in doc.bundles]
    want = [(f'1-{i}', i, [('', f'1-{i}', t)]) for i, t in enumerate(texts, 1)] + [('2-1', len(texts) + 1, [('', '2-1', 'last')])]
    equal(got, want, 'segmentation', str(case))
    require(all(b.document is doc for b in doc.bundles), 'links', str(case))


def boundary(one, two):
    """Is there a sentence boundary between the two space-delimited strings?"""
    if one and one[-1] in '"“»›)':
        one = one[:-1]
    if two and two[0] in '"„«¿¡‹(':
        two = two[1:]
    if not one or not two or one[-1] not in '.!?' or not two[0].isupper():
        return False
    bare = one.lstrip('"„«¿¡‹(')
    if one[-1] == '.' and (bare in [c + '.' for c in 'ABČ'] or one in ('např.', 'e.g.')):
        return False
    return True


def case_lines(case, rec):
    from udapi.block.read.sentences import Sentences
    from udapi.block.write.sentences import Sentences as Writer
    from udapi.core.document import Document
    options = {'plain': {}, 'ignore': {'ignore_empty_lines': True}, 'newdoc': {'newdoc_if_empty_line': True}}[case['mode']]
    doc = Document()
    Sentences(filehandle=io.StringIO(''.join(case['lines']), newline=''), **options).apply_on_document(doc)
    rec.step()
    want, after = [], True
    for line in case['lines']:
        text = line.rstrip('\r\n ')
        if not text and case['mode'] != 'plain':
            after = True
            continue
        want.append((text, True if after and case['mode'] == 'newdoc' else None))
        after = False
    equal([(t.text, t.newdoc) for t in doc.trees], want, 'lines', str(case))
    equal([t.sent_id for t in doc.trees], [str(i) for i in range(1, len(want) + 1)], 'sentence-ids', str(case))
    if doc.bundles:
        handle = io.StringIO()
        with contextlib.redirect_stdout(handle):
            Writer(newdoc=True).run(doc)
        rec.step()
        expected = ''.join(('\n' if newdoc and i else '') + text + '\n' for i, (text, newdoc) in enumerate(want))
        equal(handle.getvalue(), expected, 'saved-text', str(case))
