"""C22: evaluation and comparison of parallel trees: scores, counts and marks vs. their definitions."""
import contextlib
import io
import itertools

from mc.core import require, equal, workdir
from mc import trees

TITLE = ('All pairs of (predicted, gold) trees up to the bound x patterns of attributes: eval.Parsing, eval.Conll17, eval.Conll18 and util.MarkDiff vs. the definitions of the metrics; '
         'all pairs of token sequences: eval.F1 vs. brute-force longest common subsequences')
ASSUMPTIONS = ['eval.Conll17, eval.Conll18 and util.MarkDiff: the words of a sentence are distinct and the common words are in the same order in both zones, so that there is just one best alignment',
               'eval.F1 with focus and details: the reported alignment has the maximal number of words out of focus']


def BOUNDS(tier):
    big = tier != 'quick'
    return {'parsing_words': 4, 'conll_words': 4 if big else 3, 'conll_letters': 4, 'f1_words': 5 if big else 4, 'f1_alphabet': 3, 'documents': 2, 'long_sentences_words': 12}


def sequences(letters, limit):
    """All pairs of sequences of distinct words with common words in the same order."""
    names = 'abcdefgh'[:letters]
    subsets = [s for k in range(limit + 1) for s in itertools.combinations(names, k)]
    return [(p, g) for p in subsets for g in subsets]


def shards(tier):
    bounds = BOUNDS(tier)
    result = []
    for n in range(0, bounds['parsing_words'] + 1):
        count = len(trees.head_vectors(n)) if n else 1
        result += [{'kind': 'parsing', 'n': n, 'from': i, 'to': i + 16} for i in range(0, count, 16)]
    pairs = sequences(bounds['conll_letters'], bounds['conll_words'])
    for i, (pred, gold) in enumerate(pairs):
        if len(pred) + len(gold) < 7:
            result.append({'kind': 'conll', 'pred': pred, 'gold': gold})
        else:
            result += [{'kind': 'conll', 'pred': pred, 'gold': gold, 'part': k} for k in range(8)]
    result += [{'kind': 'attrs', 'part': k} for k in range(8)]
    result += [{'kind': 'f1', 'n': n, 'm': m} for n in range(0, bounds['f1_words'] + 1) for m in range(0, bounds['f1_words'] + 1)]
    result += [{'kind': 'functional', 'part': k} for k in range(4)]
    return [{'kind': 'long', 'shape': i} for i in range(len(trees.long_trees()))] + result[::-1] + [{'kind': 'empty'}]


def vectors(n):
    return trees.head_vectors(n) if n else [()]


DEPRELS = ('nsubj', 'det', 'punct', 'nsubj:pass', 'aux', 'root')


def run_shard(shard, rec):
    kind = shard['kind']
    if kind == 'parsing':
        n = shard['n']
        for pred in vectors(n)[shard['from']:shard['to']]:
            for gold in vectors(n):
                for deprels in range(4):
                    rec.run({'kind': kind, 'pred': pred, 'gold': gold, 'deprels': deprels})
    elif kind == 'conll':
        number = 0
        for pred in vectors(len(shard['pred'])):
            for gold in vectors(len(shard['gold'])):
                number += 1
                if number % 8 == shard.get('part', number % 8):
                    rec.run({'kind': kind, 'pred': [shard['pred'], pred], 'gold': [shard['gold'], gold], 'variant': number % 5})
    elif kind == 'long':
        names, pred = 'abcdefghijkl', trees.long_trees()[shard['shape']]
        for gold in trees.long_trees():
            for deprels in range(4):
                rec.run({'kind': 'parsing', 'pred': pred, 'gold': gold, 'deprels': deprels})
            rec.run({'kind': 'conll', 'pred': [names, pred], 'gold': [names, gold], 'variant': shard['shape'] % 5})
        short = [heads for heads in (trees.long_trees(11))]
        for missing in range(12):
            for variant in range(5):
                gold = short[(missing + variant) % len(short)]
                rec.run({'kind': 'conll', 'pred': [names, pred], 'gold': [names[:missing] + names[missing + 1:], gold], 'variant': variant})
                rec.run({'kind': 'conll', 'pred': [names[:missing] + names[missing + 1:], gold], 'gold': [names, pred], 'variant': variant})
        words = [''.join(w) for w in itertools.product('xyz', repeat=3)]
        for one in words[shard['shape']::len(trees.long_trees())]:
            for two in words:
                for focus in (None, 'x'):
                    rec.run({'kind': 'f1', 'pred': tuple(one * 4), 'gold': tuple(two * 4)[:11], 'focus': focus})
    elif kind == 'attrs':
        for number, values in enumerate(itertools.product((0, 1), repeat=10)):
            if number % 8 == shard['part']:
                for deprels in itertools.product(DEPRELS[:4], repeat=2):
                    rec.run({'kind': kind, 'values': values, 'deprels': deprels})
    elif kind == 'functional':
        # MLAS: the functional children of a content word
        for number, (pred, gold) in enumerate(itertools.product(itertools.product(('det', 'aux', 'nmod', 'case:x', 'punct'), repeat=2), repeat=2)):
            if number % 4 == shard['part']:
                for heads in itertools.product((1, 0), repeat=4):
                    for change in range(7):
                        rec.run({'kind': kind, 'deprels': [pred, gold], 'heads': heads, 'change': change})
    elif kind == 'f1':
        for pred in itertools.product('xyz', repeat=shard['n']):
            for gold in itertools.product('xyz', repeat=shard['m']):
                for focus in (None, 'x', 'x|y', 'q', ''):
                    rec.run({'kind': kind, 'pred': pred, 'gold': gold, 'focus': focus})
    else:
        for block in ('Parsing', 'F1', 'F1focus', 'Conll17', 'Conll18'):
            for layout in ('nothing', 'gold-only', 'empty-trees', 'no-gold'):
                rec.run({'kind': kind, 'block': block, 'layout': layout})
        for length in range(3):
            for docs in itertools.product(range(3), repeat=length):
                for block in ('Parsing', 'F1', 'Conll17', 'Conll18', 'Conll17raw', 'Conll18raw'):
                    for sink in ('-', 'filehandle', 'o1', 'new/o1', 'o1,o2'):
                        rec.run({'kind': 'files', 'block': block, 'docs': docs, 'sink': sink})


def run_case(case, rec):
    globals()['case_' + case['kind']](case, rec)
    rec.trace()
    rec.state(str(case))


def make(doc, pred, gold, zones=('pred', 'gold')):
    """Words are dictionaries with attributes and heads."""
    bundle = doc.create_bundle()
    result = []
    for zone, words in zip(zones, (pred, gold)):
        nodes = trees.build_into(bundle.create_tree(zone), [w['head'] for w in words])
        for node, word in zip(nodes[1:], words):
            for name in ('form', 'lemma', 'upos', 'xpos', 'deprel'):
                setattr(node, name, word.get(name, 'x'))
            node.feats = word.get('feats', '_')
            node.misc = word.get('misc', '_')
        result.append(nodes[0])
    return result


def output(create, docs):
    handle = io.StringIO()
    with contextlib.redirect_stdout(handle):
        # writers remember sys.stdout when they are created
        block = create()
        block.process_start()
        for doc in docs:
            block.apply_on_document(doc)
        block.process_end()
    return handle.getvalue().split('\n')[:-1], block


def percent(a, b):
    return f'{100 * a / b if b else 0:.2f}'


# ---------------------------------------------------------------- where the scores are written
def case_files(case, rec):
    import importlib
    import os
    import sys
    from udapi.core.document import Document
    block, sink = case['block'], case['sink']
    name = block.replace('raw', '')
    cls = getattr(importlib.import_module('udapi.block.eval.' + name.lower()), name)
    options = {'gold_zone': 'gold'}
    if 'raw' in block:
        if sink != '-' and sink != 'filehandle' and (',' in sink or len(case['docs']) != 1):
            return  # one file for each document
        options.update(print_raw='LAS', print_results=0)

    def documents():
        for number in case['docs']:
            doc = Document()
            for k in range(number):
                make(doc, [{'form': f, 'head': h} for f, h in zip('abc', (0, 1, 1 + k))], [{'form': f, 'head': h} for f, h in zip('abd', (0, 1, 1))])
            yield doc
    want, _ = output(lambda: cls(**options), documents())
    with workdir():
        handle = io.StringIO()
        if sink == 'filehandle':
            got, _ = output(lambda: cls(filehandle=handle, **options), documents())
            lines = handle.getvalue().split('\n')[:-1]
        else:
            shown = io.StringIO()
            with contextlib.redirect_stdout(shown):
                block = cls(files=sink, **options)
                block.process_start()
                for doc in documents():
                    block.apply_on_document(doc)
                block.process_end()
                equal(sys.stdout is shown, True, 'scores-stdout-restored', str(case))
            got, lines = shown.getvalue().split('\n')[:-1], []
            if sink == '-':
                got, lines = [], got
            elif os.path.exists(sink.split(',')[0]):
                with open(sink.split(',')[0], encoding='utf-8') as handle:
                    lines = handle.read().split('\n')[:-1]
            require(not os.path.exists('o2'), 'scores-files', str(case))
    equal((lines, got), (want, []), 'scores-files', str(case))


# ---------------------------------------------------------------- eval.Parsing
def case_parsing(case, rec):
    from udapi.block.eval.parsing import Parsing
    from udapi.core.document import Document
    pred, gold = case['pred'], case['gold']
    n, k = len(pred), case['deprels']
    names = (('a', 'a:x', 'b', 'a:y'), ('a', 'a', 'b', 'b'))
    pred_words = [{'head': h, 'deprel': names[0][(i * k) % 4]} for i, h in enumerate(pred)]
    gold_words = [{'head': h, 'deprel': names[1][(i + k) % 4]} for i, h in enumerate(gold)]
    first, second = Document(), Document()
    make(first, pred_words, gold_words)
    make(second, [{'head': 0, 'deprel': 'root'}], [{'head': 0, 'deprel': 'root:y'}], ('gold', 'pred'))
    lines, _ = output(lambda: Parsing(gold_zone='gold'), [first, second])
    rec.step()
    uas = las = ulas = 0
    for p, g in zip(pred_words + [{'head': 0, 'deprel': 'root'}], gold_words + [{'head': 0, 'deprel': 'root:y'}]):
        if p['head'] == g['head']:
            uas += 1
            las += p['deprel'] == g['deprel']
            ulas += p['deprel'].split(':')[0] == g['deprel'].split(':')[0]
    want = [f'nodes = {n + 1}'] + [f'{name} = {percent(x, n + 1):>6}' for name, x in (('UAS          ', uas), ('LAS (deprel) ', las), ('LAS (udeprel)', ulas))]
    equal(lines, want, 'parsing-scores', str(case))
    if n:
        doc = Document()
        make(doc, pred_words, gold_words[:-1] if gold_words[-1]['head'] != 0 and n not in gold else [{'head': 0}] * (n + 1))
        try:
            Parsing(gold_zone='gold').run(doc)
        except ValueError:
            return
        require(False, 'different-lengths-accepted', str(case))


# ---------------------------------------------------------------- eval.Conll17, eval.Conll18, util.MarkDiff
CLAS_IGNORE = {'aux', 'case', 'cc', 'clf', 'cop', 'det', 'mark', 'punct'}
NOT_CONTENT = CLAS_IGNORE
FUNCTIONAL = {'aux', 'cop', 'mark', 'det', 'clf', 'case', 'cc'}


def udeprel(word):
    return word['deprel'].split(':')[0]


def ufeats(word):
    keep = ('Number', 'Case', 'Gender')
    return sorted(x for x in word['feats'].split('|') if x.split('=')[0] in keep)


def scores(pred, gold):
    """The counts of both evaluations, by the definitions."""
    pairs = [(i, j) for i, p in enumerate(pred, 1) for j, g in enumerate(gold, 1) if p['form'].lower() == g['form'].lower()]
    align = dict(pairs)
    align[0] = 0
    count = {'Words': len(pairs), 'pred': len(pred), 'gold': len(gold)}
    for name, words in (('pred', pred), ('gold', gold), ('alig', [gold[j - 1] for _, j in pairs])):
        count[name + '_clas'] = len([w for w in words if udeprel(w) not in CLAS_IGNORE])
    for name in ('UPOS', 'XPOS', 'Feats', 'Lemma', 'UFeats', 'AllTags', 'Lemmas', 'UAS', 'LAS', 'CLAS', 'MLAS', 'BLEX'):
        count[name] = 0
    functional = lambda words, head: [i for i, w in enumerate(words, 1) if w['head'] == head and udeprel(w) in FUNCTIONAL]
    same = lambda i, j: pred[i - 1]['upos'] == gold[j - 1]['upos'] and ufeats(pred[i - 1]) == ufeats(gold[j - 1])
    for i, j in pairs:
        p, g = pred[i - 1], gold[j - 1]
        for name in ('UPOS', 'XPOS', 'Feats', 'Lemma'):
            count[name] += p[name.lower()] == g[name.lower()]
        count['UFeats'] += ufeats(p) == ufeats(g)
        count['Lemmas'] += p['lemma'] == g['lemma']
        count['AllTags'] += p['upos'] == g['upos'] and p['xpos'] == g['xpos'] and ufeats(p) == ufeats(g)
        if align.get(p['head']) != g['head']:
            continue
        count['UAS'] += 1
        if udeprel(p) != udeprel(g):
            continue
        count['LAS'] += 1
        if udeprel(g) in CLAS_IGNORE:
            continue
        count['CLAS'] += 1
        count['BLEX'] += p['lemma'] == g['lemma']
        one, two = functional(pred, i), functional(gold, j)
        count['MLAS'] += (same(i, j) and [align.get(c) for c in one] == two
                          and all(udeprel(pred[c - 1]) == udeprel(gold[d - 1]) and same(c, d) for c, d in zip(one, two)))
    return count


METRICS17 = ('Words', 'UPOS', 'XPOS', 'Feats', 'Lemma', 'UAS', 'LAS', 'CLAS')
METRICS18 = ('Words', 'UPOS', 'XPOS', 'UFeats', 'AllTags', 'Lemmas', 'UAS', 'LAS', 'CLAS', 'MLAS', 'BLEX')


def check_conll(sentences, case, rec):
    """sentences: list of documents, each a list of (pred, gold)"""
    from udapi.block.eval.conll17 import Conll17
    from udapi.block.eval.conll18 import Conll18
    from udapi.core.document import Document
    docs, total, separate = [], {}, []
    for content in sentences:
        doc = Document()
        docs.append(doc)
        for pred, gold in content:
            make(doc, pred, gold)
            separate.append(scores(pred, gold))
            for name, value in separate[-1].items():
                total[name] = total.get(name, 0) + value
    where = str(case)
    for cls, metrics in ((Conll17, METRICS17), (Conll18, METRICS18)):
        lines, _ = output(cls, docs)
        rec.step()
        equal(len(lines), 2 + len(metrics), 'number-of-lines', where)
        for name, line in zip(metrics, lines[2:]):
            part = '_clas' if name in ('CLAS', 'MLAS', 'BLEX') else ''
            correct, pred, gold, alig = total[name], total['pred' + part], total['gold' + part], total['alig_clas' if part else 'Words']
            cells = [c.strip() for c in line.split('|')]
            want = [name, percent(correct, pred), percent(correct, gold), percent(2 * correct, pred + gold), percent(correct, alig)]
            if name == 'Words' and cls is Conll18:
                want[-1] = ''
            equal(cells, want, f'{cls.__name__}-{name}', where)
    lines, _ = output(lambda: Conll17(print_raw=1, print_results=0), docs)
    equal(lines, [' '.join(str(s[x]) for x in ('pred', 'gold', 'Words', 'LAS')) for s in separate], 'raw-17', where)
    for name in METRICS18[1:]:
        if name in ('UFeats', 'AllTags', 'Lemmas') and where[-3:-2] not in '13579':
            continue
        lines, _ = output(lambda: Conll18(print_raw=name, print_results=0), docs)
        rec.step()
        part = '_clas' if name in ('CLAS', 'MLAS', 'BLEX') else ''
        equal(lines, [' '.join(str(s[x]) for x in ('pred' + part, 'gold' + part, 'alig_clas' if part else 'Words', name)) for s in separate], 'raw-18', where)
    lines, _ = output(lambda: Conll18(print_counts=1), docs)
    for name, line in zip(METRICS18, lines[2:]):
        part = '_clas' if name in ('CLAS', 'MLAS', 'BLEX') else ''
        equal([c.strip() for c in line.split('|')], [name] + [str(total[x]) for x in (name, 'gold' + part, 'pred' + part, 'alig_clas' if part else 'Words')], 'counts-18', where)


def words_of(forms, heads, shift, upper=False):
    result = []
    for i, (form, head) in enumerate(zip(forms, heads)):
        k = ord(form) - ord('a') + shift * (i + 1)
        result.append({'form': form.upper() if upper else form, 'lemma': ('l', 'm', 'l', None)[k % 4], 'upos': 'XYX'[k % 3], 'xpos': 'xxy'[k % 3], 'deprel': DEPRELS[k % len(DEPRELS)],
                       'feats': ('_', 'Case=Nom', 'Case=Nom|Lang=x')[k % 3], 'head': head})
    return result


def case_conll(case, rec):
    (forms1, heads1), (forms2, heads2) = case['pred'], case['gold']
    v = case['variant']
    pred = words_of(forms1, heads1, 0 if v else 0, upper=v == 1)
    gold = words_of(forms2, heads2, (0, 0, 1, 2, 3)[v])
    extra = (words_of('ab', (0, 1), 0), words_of('ab', (2, 0), 0))
    check_conll([[(pred, gold)], [extra]], case, rec)
    if v != 1:
        check_markdiff(pred, gold, case, rec)


def case_attrs(case, rec):
    """Two words with all combinations of equal and different attributes."""
    names = ('lemma', 'upos', 'xpos', 'feats', 'ufeats')
    base = {'form': 'a', 'lemma': 'l', 'upos': 'X', 'xpos': 'x', 'feats': 'Case=Nom|Lang=x'}
    pred = [{**base, 'head': 0, 'deprel': 'nsubj'}, {**base, 'form': 'b', 'head': 1, 'deprel': 'det'}]
    gold = [dict(pred[0]), dict(pred[1])]
    for i in range(2):
        for k, name in enumerate(names):
            if case['values'][5 * i + k]:
                if name == 'ufeats':
                    gold[i]['feats'] = gold[i]['feats'].replace('Nom', 'Acc')
                elif name == 'feats':
                    gold[i]['feats'] = gold[i]['feats'].replace('Lang=x', 'Lang=y')
                else:
                    gold[i][name] = 'q'
        pred[i]['deprel'] = ('nsubj', 'det')[i]
        gold[i]['deprel'] = case['deprels'][i]
    check_conll([[(pred, gold), (gold, pred)]], case, rec)
    check_markdiff(pred, gold, case, rec)


def case_functional(case, rec):
    (p1, p2), (g1, g2) = case['deprels']
    base = {'lemma': 'l', 'upos': 'X', 'xpos': 'x', 'feats': 'Case=Nom'}
    sides = []
    for (d1, d2), (h1, h2) in (((p1, p2), case['heads'][:2]), ((g1, g2), case['heads'][2:])):
        # the content word is the first one or the second one
        sides.append([{**base, 'form': 'a', 'head': 0, 'deprel': 'root'}, {**base, 'form': 'b', 'head': h1, 'deprel': d1}, {**base, 'form': 'c', 'head': h2, 'deprel': d2}])
    pred, gold = sides
    change = case['change']
    if change in (1, 2):
        pred[change]['upos'] = 'Y'
    elif change in (3, 4):
        gold[change - 2]['feats'] = 'Case=Acc'
    elif change == 5:
        gold[1]['form'] = 'B'
    elif change == 6:
        gold[1]['form'] = 'q'
    check_conll([[(pred, gold)]], case, rec)


def check_markdiff(pred, gold, case, rec):
    from udapi.block.util.markdiff import MarkDiff
    from udapi.core.document import Document
    attrs = ('form', 'lemma', 'upos', 'xpos', 'deprel', 'feats', 'misc')
    for options in ({}, {'ignore_parent': True}, {'attributes': 'form'}, {'attributes': 'form', 'align': 'both', 'mark_attr': 'D', 'add': True},
                    {'attributes': 'form,upos', 'align': 'from-pred', 'mark': 7}, {'align': 'from-gold', 'mark_attr': 0, 'print_stats': 1}):
        used = options.get('attributes', ','.join(attrs)).split(',')
        key = lambda w: tuple(w.get(x, '_') or '_' for x in used)
        doc = Document()
        trees2 = make(doc, pred, gold)
        for root in trees2:
            for i, node in enumerate(root.descendants):
                node.misc['Bug'] = 'old'
                if i == 0 and options.get('mark_attr') != 0:
                    node.misc['Mark'] = 'old'
        lines, block = output(lambda: MarkDiff(gold_zone='gold', **options), [doc])
        rec.step()
        where = f'{case} {options}'
        pairs = [(i, j) for i, p in enumerate(pred, 1) for j, g in enumerate(gold, 1) if key(p) == key(g)]
        align = dict(pairs)
        # blocks between the equal words
        bounds = [(0, 0)] + pairs + [(len(pred) + 1, len(gold) + 1)]
        replaced, deleted, added = [], [], []
        for (i, j), (k, m) in zip(bounds, bounds[1:]):
            one, two = list(range(i + 1, k)), list(range(j + 1, m))
            replaced += list(zip(one, two))
            deleted += one[len(two):]
            added += two[len(one):]
        full = {**align, **dict(replaced), 0: 0}
        moved = [(i, j) for i, j in pairs if full.get(pred[i - 1]['head']) != gold[j - 1]['head'] and not options.get('ignore_parent')]
        attr, value = options.get('mark_attr', 'Mark'), str(options.get('mark', 1))
        marks = [set(range(1, len(pred) + 1)) - {i for i, _ in pairs} | {i for i, _ in moved}, set(range(1, len(gold) + 1)) - {j for _, j in pairs} | {j for _, j in moved}]
        for side, (root, found, words) in enumerate(zip(trees2, marks, (pred, gold))):
            for i, node in enumerate(root.descendants, 1):
                misc = {}
                if options.get('add'):
                    misc['Bug'] = 'old'
                    if i == 1:
                        misc['Mark'] = 'old'
                if attr and i in found:
                    misc[attr] = value
                if options.get('align') in ('both', ('from-pred', 'from-gold')[side]):
                    other = {a: b for a, b in full.items() if a} if side == 0 else {b: a for a, b in full.items() if b}
                    if i in other:
                        misc['Align'] = str(other[i])
                equal({k: str(v) for k, v in node.misc.items()}, misc, 'marks', f'{where} side {side} node {i}')
            comment = f'{attr} = {value}' in (root.comment or '')
            equal(comment, bool(attr) and len(pred) != len(gold), 'comment', where)
        if options.get('print_stats'):
            want = {}
            if moved:
                want['ONLY-PARENT-CHANGED'] = len(moved)
            for i, j in replaced:
                for name in used:
                    if pred[i - 1].get(name) != gold[j - 1].get(name):
                        text = f'{name.upper()}: {pred[i - 1].get(name)} -> {gold[j - 1].get(name)}'
                        want[text] = want.get(text, 0) + 1
                if full.get(pred[i - 1]['head']) != gold[j - 1]['head']:
                    want['PARENT-CHANGED'] = want.get('PARENT-CHANGED', 0) + 1
            for name, items in (('ADD', [gold[j - 1] for j in added]), ('DELETE', [pred[i - 1] for i in deleted])):
                for word in items:
                    for text in (f'{name}-WORD', f"{name}-LEMMA: {word['lemma']}"):
                        want[text] = want.get(text, 0) + 1
            equal(dict(block.stats), want, 'stats', where)
            equal(len(lines), min(1, len(want)), 'printed-stats', where)
            if lines:
                best = max(want.values())
                number, text = lines[0].strip().split(' ', 1)
                require(int(number) == best and want.get(text) == best, 'printed-stats', lambda: f'{where} {lines}')


# ---------------------------------------------------------------- eval.F1
def common_subsequences(one, two):
    """All common subsequences (as tuples) of two short sequences."""
    subs = [set(itertools.chain.from_iterable(itertools.combinations(x, k) for k in range(len(x) + 1))) for x in (one, two)]
    return subs[0] & subs[1]


def case_f1(case, rec):
    from udapi.block.eval.f1 import F1, find_lcs
    from udapi.core.document import Document
    pred, gold, focus = case['pred'], case['gold'], case['focus']
    options = {} if focus is None else {'focus': focus}
    inside = lambda x: focus is None or x in focus.split('|')
    doc = Document()
    make(doc, [{'head': 0, 'form': f} for f in pred], [{'head': 0, 'form': f} for f in gold])
    lines, block = output(lambda: F1(gold_zone='gold', **options), [doc])
    rec.step()
    where = str(case)
    everything = common_subsequences(pred, gold)
    if focus is None:
        lcs = find_lcs(list(pred), list(gold))
        require(tuple(lcs) in everything and len(lcs) == max(map(len, everything)), 'lcs', lambda: f'{where} {lcs}')
        want = {tuple(x for x in s) for s in everything if len(s) == max(map(len, everything))}
    else:
        out = lambda s: len([x for x in s if not inside(x)])
        best = max(map(out, everything))
        want = {tuple(x for x in s if inside(x)) for s in everything if out(s) == best}
    p, g = [x for x in pred if inside(x)], [x for x in gold if inside(x)]
    equal((block.pred, block.gold), (len(p), len(g)), 'f1-totals', where)
    counts = {tuple(sorted(s)) for s in want}
    if hasattr(block, '_common'):
        got = tuple(sorted(block._common.elements()))
        equal(len(got), block.correct, 'f1-details-sum', where)
        require(got in counts, 'f1-correct', lambda: f'{where} {got} {counts}')
    if tuple(pred) == tuple(gold):
        equal(block.correct, len(p), 'f1-of-equal-sentences', where)
    tokens = sorted(set(p) | set(g))
    c = block.correct
    prec, recall = c / (len(p) or 1), c / (len(g) or 1)
    score = 2 * prec * recall / ((prec + recall) or 1)
    require(abs(block.f1 - score) < 1e-9, 'f1-score', where)
    equal(lines[0], 'Comparing predicted trees (zone=pred) with gold trees (zone=gold), sentences=1', 'f1-header', where)
    equal(lines[-6:], [f'predicted = {len(p):7}', f'gold      = {len(g):7}', f'correct   = {c:7}', f'precision = {100 * prec:6.2f}%', f'recall    = {100 * recall:6.2f}%',
                       f'F1        = {100 * score:6.2f}%'], 'f1-table', where)
    details = {}
    for line in lines[3:-7]:
        cells = line.split()
        details[cells[0]] = (int(cells[1]), int(cells[2]), int(cells[3]))
        a, b = int(cells[3]) / (int(cells[1]) or 1), int(cells[3]) / (int(cells[2]) or 1)
        equal(cells[4:], [f'{100 * a:.2f}%', f'{100 * b:.2f}%', f'{100 * 2 * a * b / ((a + b) or 1):.2f}%'], 'f1-details', where)
    equal(details, {t: (p.count(t), g.count(t), got.count(t)) for t in tokens}, 'f1-details', where)
    sums = [sum(details[t][:2]) for t in details]
    equal(sums, sorted(sums, reverse=True), 'f1-details-order', where)
    if focus is None and len(pred) == len(gold):
        # other attributes, several sentences
        doc = Document()
        make(doc, [{'head': 0, 'form': f, 'upos': 'A'} for f in pred], [{'head': 0, 'form': 'f', 'upos': 'A'} for f in gold])
        make(doc, [{'head': 0, 'form': f, 'upos': f} for f in pred], [{'head': 0, 'form': f, 'upos': f} for f in gold])
        _, block = output(lambda: F1(gold_zone='gold', attributes='form,upos', details=0, zones='pred'), [doc])
        equal((block.pred, block.gold, block.correct), (2 * len(pred), 2 * len(gold), c), 'f1-attributes', where)
        rec.step()


def case_empty(case, rec):
    import importlib
    from udapi.core.document import Document
    name = case['block']
    options = {'focus': 'x'} if name == 'F1focus' else {}
    name = name.replace('focus', '')
    cls = getattr(importlib.import_module('udapi.block.eval.' + name.lower()), name)
    doc = Document()
    if case['layout'] != 'nothing':
        bundle = doc.create_bundle()
        if case['layout'] != 'no-gold':
            bundle.create_tree('gold')
        if case['layout'] != 'gold-only':
            bundle.create_tree('pred')
    create = lambda: cls(gold_zone='gold', **options)
    rec.step()
    if case['layout'] == 'no-gold':
        try:
            output(create, [doc])
        except Exception:  # pylint: disable=broad-except
            return
        require(False, 'missing-gold-accepted', str(case))
    lines, _ = output(create, [doc])
    import re
    numbers = {float(x) for line in lines for x in re.findall(r'(?<![\w.])[0-9]+(?:\.[0-9]+)?', line.split('sentences=')[0])}
    require(numbers <= {0.0} and len(lines) > 2, 'scores-of-nothing', f'{case} {lines}')
