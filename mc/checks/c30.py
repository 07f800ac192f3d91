"""C30: blocks reporting about coreference annotation (udapi.block.corefud)."""
import contextlib
import io
import itertools
import logging
import os
import re
from collections import Counter

from mc.core import require, equal
from mc import trees
from mc.checks.c28 import make, add, subsets, intervals
from mc.checks.c29 import apply, hash_order, is_discontinuous, subspans, chain

TITLE = ('All sets of up to 3 mentions over sentences with empty nodes x hash orders x parameters: pairs reported by the Mark blocks; '
         'all documents with up to 4 sentences: CountGaps; all small documents: PrintEntities, PrintMentions, Stats, MiscStats vs. plain counting')
ASSUMPTIONS = ['all mentions are within one sentence', 'all nodes have forms', 'MISC of empty nodes is not counted by MiscStats', 'Stats: pages and LaTeX rules are not checked']


def BOUNDS(tier):
    big = tier != 'quick'
    return {'mark_nodes_pairs': 5 if big else 4, 'mark_nodes_triples': 4 if big else 3, 'gaps_sentences': 4 if big else 3, 'printmentions_words': 4 if big else 3,
            'stats_mentions': 3 if big else 2}


def shards(tier):
    bounds = BOUNDS(tier)
    result = []
    n = bounds['mark_nodes_pairs']
    for one in subsets(n):
        result.append({'kind': 'mark', 'n': n, 'one': one, 'count': 2})
        result.append({'kind': 'pairs', 'n': n, 'one': one})
    n = bounds['mark_nodes_triples']
    for one in subsets(n):
        result.append({'kind': 'mark', 'n': n, 'one': one, 'count': 3})
        result.append({'kind': 'pairs3', 'n': n, 'one': one})
    result.append({'kind': 'logged'})
    for n in range(0, bounds['gaps_sentences'] + 1):
        for first in SENT if n else (None,):
            result.append({'kind': 'gaps', 'n': n, 'first': first})
    result.append({'kind': 'misc'})
    for one in subsets(3):
        result.append({'kind': 'entities', 'one': one})
    for n in range(1, bounds['printmentions_words'] + 1):
        for heads in trees.head_vectors(n):
            result.append({'kind': 'mentions', 'heads': heads})
    result.append({'kind': 'options'})
    for one in subsets(3):
        result.append({'kind': 'stats', 'one': one, 'count': bounds['stats_mentions']})
    result.append({'kind': 'statsdocs'})
    return result[::-1]


SENT = list(itertools.product((0, 1), (0, 1), (None, 'word', 'empty')))


def run_shard(shard, rec):
    globals()['run_' + shard['kind']](shard, rec)


def run_case(case, rec):
    rec.state(str(case))
    globals()['case_' + case['kind']](case, rec)
    rec.step()
    rec.trace()


def span_text(positions):
    """Positions of make(): 0 = word 1, 1 = empty 1.1, 2 = word 2..."""
    name = lambda p: {0: '1', 1: '1.1'}.get(p, str(p))
    parts = []
    for part in sorted(subspans(positions)):
        parts.append(name(part[0]) if len(part) == 1 else name(part[0]) + '-' + name(part[-1]))
    return ','.join(parts)


# ---------------------------------------------------------------- marking pairs

FLAGS = {
    'MarkCrossing': ('same_entity_only', 'continuous_only', 'print_form'),
    'MarkInterleaved': ('same_entity_only', 'both_discontinuous', 'print_form'),
    'MarkNested': ('same_entity_only', 'both_discontinuous', 'multiword_only', 'print_form'),
    'MarkSameSubSpan': ('same_entity_only', 'both_discontinuous', 'nested_only', 'print_form'),
}


def mention_sets(shard):
    one, n = shard['one'], shard['n']
    pool = subsets(n)
    rest = [[two] for two in pool] if shard.get('count', 2) == 2 else [list(c) for c in itertools.combinations(pool, 2)]
    for others in rest:
        all_spans = [one] + others
        for eids in (('e1', 'e1', 'e1'), ('e1', 'e2', 'e1'), ('e1', 'e2', 'e2')):
            if len(all_spans) == 2 and eids == ('e1', 'e2', 'e2'):
                continue
            mentions = [[eid, span, span[-1] if i % 2 else span[0]] for i, (eid, span) in enumerate(zip(eids, all_spans))]
            if not any(a[:2] == b[:2] for a, b in itertools.combinations(mentions, 2)):
                yield mentions


def run_mark(shard, rec):
    for mentions in mention_sets(shard):
        for name, flags in FLAGS.items():
            for values in itertools.product((0, 1), repeat=len(flags)) if shard['count'] == 2 else ((0,) * len(flags), (1,) + (0,) * (len(flags) - 1)):
                for mark, log in ((1, 1), (0, 1), (1, 0)) if not any(values) else ((1, 1),):
                    rec.run({'kind': 'mark', 'n': shard['n'], 'mentions': mentions, 'block': name, 'flags': dict(zip(flags, values)), 'mark': mark, 'log': log})


def matches(name, a, b, flags):
    A, B = a[1], b[1]
    if flags['same_entity_only'] and a[0] != b[0]:
        return False
    if flags.get('continuous_only') and (is_discontinuous(A) or is_discontinuous(B)):
        return False
    if flags.get('both_discontinuous') and not (is_discontinuous(A) and is_discontinuous(B)):
        return False
    if flags.get('multiword_only') and (len(A) == 1 or len(B) == 1):
        return False
    nested = set(A) <= set(B) or set(B) <= set(A)
    if flags.get('nested_only') and not nested:
        return False
    if name == 'MarkCrossing':
        return bool(set(A) & set(B)) and not nested
    if name == 'MarkInterleaved':
        return not set(A) & set(B) and not A[-1] < B[0] and not B[-1] < A[0]
    if name == 'MarkNested':
        return nested
    return bool(subspans(A) & subspans(B))


def case_mark(case, rec):
    import importlib
    name, flags, mentions = case['block'], case['flags'], case['mentions']
    block_class = getattr(importlib.import_module('udapi.block.corefud.' + name.lower()), name)
    results = set()
    for order in itertools.permutations(range(len(mentions))):
        doc, root, nodes, objects = make(case['n'], mentions)
        with hash_order(objects, order):
            out = apply(block_class(mark=case['mark'], log=case['log'], **flags), doc)
        results.add(out + str([node.misc['Mark'] for node in nodes]))
        rec.step()
    require(len(results) == 1, 'mark-nondeterministic', results)
    pairs = [(a, b) for a, b in itertools.combinations(mentions, 2) if matches(name, a, b, flags)]
    text = lambda m: ('' if name == 'MarkCrossing' else m[0] + ':') + (' '.join('abcdef'[i] for i in m[1]) if flags['print_form'] else span_text(m[1]))
    equal(spans_of(doc, nodes), sorted((m[0], m[1]) for m in mentions), 'mark-changed')
    # What is printed
    got = Counter(tuple(sorted(line.split(': ', 1)[1].split(' + '))) for line in out.splitlines())
    want = Counter(tuple(sorted((text(a), text(b)))) for a, b in pairs)
    if name == 'MarkCrossing':      # entities are not printed, so pairs with the same spans may be printed only once
        require(not got - want, 'mark-printed-twice', out)
        got, want = set(got), set(want)
    equal(got, want if case['log'] else type(want)(), 'mark-printed', out)
    # What is marked
    where = lambda a, b: set(a[1]) & set(b[1]) if name == 'MarkCrossing' else set(a[1]) | set(b[1])
    marked = {i for i, node in enumerate(nodes) if node.misc['Mark']}
    equal(marked, {i for a, b in pairs for i in where(a, b)} if case['mark'] else set(), 'marked-nodes')
    for i in marked:
        value = str(nodes[i].misc['Mark'])
        if name == 'MarkCrossing':
            require(any(i in where(a, b) and sorted(value.split('+')) == sorted((text(a), text(b))) for a, b in pairs), 'mark-value', value)
        elif value != '1':
            require(any(i in (a[1][0], b[1][0]) and sorted(value.split('+')) == sorted((text(a), text(b))) for a, b in pairs), 'mark-value', value)


def spans_of(doc, nodes):
    place = {id(node): i for i, node in enumerate(nodes)}
    return sorted((e.eid, [place[id(w)] for w in m.words]) for e in doc.coref_entities for m in e.mentions)


def run_logged(shard, rec):
    for ids in itertools.permutations(('s1', 's11', 's111'), 2):
        for spans in itertools.product((('1-3', '2-4'), ('11-13', '12-14'), ('1-13', '12-14')), repeat=2):
            rec.run({'kind': 'logged', 'ids': ids, 'spans': spans, 'docs': 1})
            rec.run({'kind': 'logged', 'ids': ids, 'spans': spans, 'docs': 2})


def case_logged(case, rec):
    """Every pair of crossing mentions is printed, in each sentence and each document."""
    from udapi.core.document import Document
    from udapi.block.corefud.markcrossing import MarkCrossing
    block = MarkCrossing()
    for _ in range(case['docs']):
        doc = Document()
        for sent_id, pair in zip(case['ids'], case['spans']):
            root = doc.create_bundle().create_tree()
            root.sent_id = sent_id
            words = [root.create_child(form='w') for _ in range(14)]
            for eid, span in zip(('e1', 'e2'), pair):
                entity = doc.eid_to_entity.get(eid) or doc.create_coref_entity(eid)
                head = words[int(span.split('-')[0]) - 1]
                entity.create_mention(head=head, span=span)
        out = apply(block, doc)
        equal([line.split(': ')[1] for line in out.splitlines()], [' + '.join(pair) for pair in case['spans']], 'logged', out)


PROPERTIES = ('same_entity', 'both_continuous', 'both_discontinuous', 'nested', 'crossing', 'interleaved', 'same_head', 'same_span', 'same_subspan')


def run_pairs(shard, rec):
    for mentions in mention_sets(shard):
        for name in PROPERTIES:
            for value in (1, -1, 'only', 'exclude', 'include'):
                rec.run({'kind': 'pairs', 'n': shard['n'], 'mentions': mentions, 'values': {name: value}})
        for one, two in itertools.combinations(PROPERTIES, 2):
            for values in itertools.product((1, -1), repeat=2):
                rec.run({'kind': 'pairs', 'n': shard['n'], 'mentions': mentions, 'values': {one: values[0], two: values[1]}})


def run_pairs3(shard, rec):
    for mentions in mention_sets(dict(shard, count=3)):
        for name in PROPERTIES:
            for value in (1, -1):
                rec.run({'kind': 'pairs', 'n': shard['n'], 'mentions': mentions, 'values': {name: value}})


def pair_property(name, a, b):
    A, B = a[1], b[1]
    nested = set(A) <= set(B) or set(B) <= set(A)
    return {'same_entity': a[0] == b[0], 'both_continuous': not is_discontinuous(A) and not is_discontinuous(B),
            'both_discontinuous': is_discontinuous(A) and is_discontinuous(B), 'nested': nested, 'crossing': bool(set(A) & set(B)) and not nested,
            'interleaved': not set(A) & set(B) and not A[-1] < B[0] and not B[-1] < A[0], 'same_head': a[2] == b[2], 'same_span': A == B,
            'same_subspan': bool(subspans(A) & subspans(B)) and (is_discontinuous(A) or is_discontinuous(B))}[name]


def case_pairs(case, rec):
    from udapi.block.corefud.markpairs import MarkPairs
    mentions = case['mentions']
    results = set()
    for order in itertools.permutations(range(len(mentions))):
        doc, root, nodes, objects = make(case['n'], mentions)
        with hash_order(objects, order):
            apply(MarkPairs(**case['values']), doc)
        results.add(str([node.misc['Mark'] for node in nodes]) + doc.meta['corefud.MarkPairs'])
        rec.step()
    require(len(results) == 1, 'markpairs-nondeterministic', results)
    wanted = lambda value: {'only': True, 1: True, 'exclude': False, -1: False}.get(value)
    pairs = [(a, b) for a, b in itertools.combinations(mentions, 2)
             if all(wanted(value) is None or pair_property(name, a, b) == wanted(value) for name, value in case['values'].items())]
    equal([i for i, node in enumerate(nodes) if node.misc['Mark']], sorted({i for pair in pairs for m in pair for i in m[1]}), 'markpairs-nodes')
    numbers = re.findall(r'\d+', doc.meta['corefud.MarkPairs'])
    equal([int(x) for x in numbers], [len(mentions), len(pairs), len(mentions) * (len(mentions) - 1) // 2], 'markpairs-numbers')
    text = lambda m: m[0] + ':' + span_text(m[1])
    for i, node in enumerate(nodes):
        value = str(node.misc['Mark'])
        if value not in ('', '1'):
            require(any(i in (a[1][0], b[1][0]) and sorted(value.split('+')) == sorted((text(a), text(b))) for a, b in pairs), 'markpairs-value', value)


    require(not pairs or any(str(node.misc['Mark']) not in ('', '1') for node in nodes), 'markpairs-value', case)


# ---------------------------------------------------------------- CountGaps

def run_gaps(shard, rec):
    n, first = shard['n'], shard['first']
    for rest in itertools.product(SENT, repeat=max(n - 1, 0)):
        rec.run({'kind': 'gaps', 'sents': ([first] if n else []) + list(rest)})


def gap_counts(sents):
    """Numbers of sequences of sentences without mentions, and of paragraphs without mentions, by length, per newdoc."""
    docs = []
    for i, (newdoc, newpar, mention) in enumerate(sents):
        if newdoc or not docs:
            docs.append([[]])
        elif newpar:
            docs[-1].append([])
        docs[-1][-1].append(mention is None)
    result = []
    for paragraphs in docs:
        seq = Counter(len(list(group)) for empty, group in itertools.groupby(x for p in paragraphs for x in p) if empty)
        result.append((seq, Counter(len(p) for p in paragraphs if all(p))))
    return result


def case_gaps(case, rec):
    from udapi.core.document import Document
    from udapi.block.corefud.countgaps import CountGaps
    block = CountGaps(report_per_newdoc=True)
    want, total = [], (Counter(), Counter())
    out = ''
    for _ in range(2):
        doc = Document()
        for newdoc, newpar, mention in case['sents']:
            doc, root, nodes, _ = make(2, {None: [], 'word': [['e1', [0], 0]], 'empty': [['e1', [1], 1]]}[mention], doc=doc)
            root.newdoc = 'd' if newdoc else None
            root.newpar = True if newpar else None
        out += apply(block, doc)
        counts = gap_counts(case['sents']) or [(Counter(), Counter())]
        sums = tuple(sum((c[k] for c in counts), Counter()) for k in (0, 1))
        want += [c[k] for c in counts + [sums] for k in (0, 1)]
        total = tuple(total[k] + sums[k] for k in (0, 1))
    with contextlib.redirect_stdout(io.StringIO()) as end:
        block.process_end()
    out += end.getvalue()
    got = []
    for i, header in enumerate(re.findall(r'^=+ (\w+) STATS', out, re.M)):
        equal(header, 'SEQ' if i % 2 == 0 else 'PAR', 'gaps-header', out)
    for section in out.split(' ============\n')[1:]:
        lines = section.split('\n')
        end = lines.index('-------')
        counter = Counter({int(l.split(':')[0]): int(l.split(':')[1]) for l in lines[:end]})
        require(lines[end + 1] == f'SUM: {sum(k * v for k, v in counter.items())}', 'gaps-sum', section)
        got.append(counter)
    equal(got, want + list(total), 'gaps', out)


# ---------------------------------------------------------------- MiscStats

VALUES = ({}, {'A': 'x'}, {'A': 'y', 'B': 'x'}, {'A[1]': 'x', 'A': 'x'}, {'B_b': 'p_q', 'A[2]': 'z'})


def run_misc(shard, rec):
    for pattern in itertools.product(range(len(VALUES)), repeat=4):
        for top in (10, 2, 1):
            rec.run({'kind': 'misc', 'pattern': pattern, 'top': top})


def case_misc(case, rec):
    from udapi.core.document import Document
    from udapi.block.corefud.miscstats import MiscStats
    from udapi.block.corefud.miscstatstex import MiscStatsTex
    want = {}
    plain, tex = MiscStats(maxvalues=case['top']), MiscStatsTex(maxvalues=case['top'])
    for half in (case['pattern'][:2], case['pattern'][2:]):
        doc = Document()
        root = doc.create_bundle().create_tree()
        for k in half:
            root.create_child(form='w').misc = VALUES[k]
            for name, value in VALUES[k].items():
                want.setdefault(name.split('[')[0], Counter())[value] += 1
        apply(plain, doc)
        apply(tex, doc)
    with contextlib.redirect_stdout(io.StringIO()) as out:
        plain.process_end()
    got, totals = {}, {}
    for block in out.getvalue().split('\n\n') if out.getvalue() else ():
        lines = block.strip('\n').split('\n')
        name, total = lines[0].split('\t')
        totals[name] = int(total)
        got[name] = [(l.split('\t')[1], int(l.split('\t')[2])) for l in lines[1:]]
    equal(totals, {name: sum(c.values()) for name, c in want.items()}, 'miscstats-totals', out.getvalue())
    for name, counter in want.items():
        top(got[name], counter, case['top'], 'miscstats')
    with contextlib.redirect_stdout(io.StringIO()) as out:
        tex.process_end()
    names = set()
    for line in out.getvalue().splitlines():
        found = re.match(r' \\item attribute \\attr\{(.*?)\}, (\d+) occurrences, values: (.*)$', line)
        require(found, 'miscstatstex-line', line)
        name = found.group(1).replace('\\_', '_')
        names.add(name)
        equal(int(found.group(2)), sum(want[name].values()), 'miscstatstex-total', line)
        values = re.findall(r'\\attr\{(.*?)\} ([\d.]+)~\\%', found.group(3))
        total = sum(want[name].values())
        equal(sorted((float(p) for _, p in values), reverse=True), [round(100 * f / total, 1) for _, f in want[name].most_common(case['top'])], 'miscstatstex-percent', line)
        for value, percent in values:
            equal(float(percent), round(100 * want[name][value.replace('\\_', '_')] / total, 1), 'miscstatstex-value', line)
    equal(names, set(want), 'miscstatstex-names')


def top(got, counter, count, sig):
    equal([f for _, f in got], [f for _, f in counter.most_common(count)], sig + '-frequencies')
    require(all(counter[v] == f for v, f in got) and len({v for v, _ in got}) == len(got), sig + '-values', got)


# ---------------------------------------------------------------- PrintEntities

def run_entities(shard, rec):
    for two in subsets(3):
        for three in intervals(3):
            for eids in (('e1', 'e1', 'e1'), ('e1', 'e2', 'e1'), ('e1', 'e2', 'x1')):
                mentions = [[eid, span, span[-1] if i % 2 else span[0]] for i, (eid, span) in enumerate(zip(eids, (shard['one'], two, three)))]
                if eids[0] == eids[1] and shard['one'] == two:
                    continue
                for forms in ('abc', 'aab', 'aaa'):
                    for options in ({}, {'aggregate_mentions': False}, {'mark_head': False}, {'print_ranges': False}, {'aggregate_mentions': 0, 'print_ranges': 0}, {'min_mentions': 2}, {'eid_re': 'e'}, {'eid_re': '.2'}):
                        rec.run({'kind': 'entities', 'mentions': mentions, 'forms': forms, 'options': options})


def case_entities(case, rec):
    from udapi.block.corefud.printentities import PrintEntities
    options, mentions = case['options'], case['mentions']
    doc, root, nodes, objects = make(3, mentions[:2], forms=case['forms'])
    doc, root2, nodes2, objects2 = make(3, mentions[2:], forms=case['forms'], doc=doc)
    doc.meta['docname'] = 'N'
    out = apply(PrintEntities(**options), doc)
    lines = out.splitlines()
    equal(lines.pop(0), 'Coref entities in document N:', 'printentities-docname')
    want = {}
    for tree, m in ((root, mentions[0]), (root, mentions[1]), (root2, mentions[2])):
        form = ' '.join(f"**{case['forms'][i]}**" if i == m[2] and options.get('mark_head', True) else case['forms'][i] for i in m[1])
        want.setdefault(m[0], []).append((form, tree.address() + ':' + span_text(m[1])))
    selected = [eid for eid in want if len(want[eid]) >= options.get('min_mentions', 0) and (not options.get('eid_re') or re.match(options['eid_re'], eid))]
    got, current = {}, None
    ranges = options.get('print_ranges', True)
    while lines:
        line = lines.pop(0)
        found = re.match(r' (\S+) has (\d+) mentions:$', line)
        if found:
            current = got.setdefault(found.group(1), [])
            equal(int(found.group(2)), len(want[found.group(1)]), 'printentities-count', line)
        elif options.get('aggregate_mentions', True):
            found = re.match(r' *(\d+): (.*)$', line)
            count, form = int(found.group(1)), found.group(2)
            addresses = [''] * count
            if ranges:
                addresses = [lines.pop(0)[8:]]
                if count > 1:
                    prefix, rest = addresses[0].split(' (', 1)
                    addresses = [prefix + x for x in rest[:-1].split(' ')]
            equal(len(addresses), count, 'printentities-ranges', out)
            current += [(form, a) for a in addresses]
        else:
            current.append((line.strip(), lines.pop(0).strip() if ranges else ''))
    equal(sorted(got), sorted(selected), 'printentities-selected', out)
    for eid in selected:
        equal(sorted(got[eid]), sorted((f, a if ranges else '') for f, a in want[eid]), 'printentities-mentions', out)


# ---------------------------------------------------------------- PrintMentions

TESTS = ('continuous', 'almost_continuous', 'treelet', 'forest', 'almost_forest', 'oneword', 'singleton', 'empty')
DEPRELS = ('nsubj', 'case', 'punct', 'cop', 'dep/PUNCT')
AUXILIARY = ('case', 'cc', 'conj', 'mark', 'appos', 'vocative', 'discourse')
LABELS = [f'{d}/{u}' for d in AUXILIARY + ('case:x', 'advmod', 'advmod:emph', 'advmod:x', 'dep', 'dep:x', 'det', 'punct', 'cop:x', 'nsubj') for u in ('ADP', 'SCONJ', 'CCONJ', 'PUNCT', 'NOUN')]


def sentence(heads, deprels, gap, parents):
    """A sentence with an empty node after the word `gap`."""
    from udapi.core.document import Document
    doc = Document()
    root = doc.create_bundle().create_tree()
    words = trees.build_into(root, heads)[1:]
    for node, deprel in zip(words, deprels):
        node.deprel, _, upos = deprel.partition('/')
        node.upos = upos or 'X'
    nodes = list(words)
    if gap is not None:
        empty = root.create_empty_child(form='E')
        empty.ord = f'{gap}.1'
        empty.deps = [{'parent': words[p - 1] if p else root, 'deprel': 'x'} for p in parents]
        nodes.insert(gap, empty)
    return doc, root, words, nodes


def run_mentions(shard, rec):
    heads = shard['heads']
    n = len(heads)
    plain = ('nsubj',) * n
    for gap in [None] + list(range(n + 1)):
        total = n + (gap is not None)
        for parents in ((),) if gap is None else [(p,) for p in range(n + 1)]:
            for members in subsets(total):
                for name in TESTS:
                    for value in ('only', 'exclude', 0, 1) if n < 4 else ('only',):
                        rec.run({'kind': 'mentions', 'heads': heads, 'deprels': plain, 'gap': gap, 'parents': parents, 'members': members, 'tests': {name: value}})
    if n < 4:
        for deprels in itertools.product(DEPRELS, repeat=n):
            for members in subsets(n):
                for name in ('forest', 'almost_forest'):
                    rec.run({'kind': 'mentions', 'heads': heads, 'deprels': deprels, 'gap': None, 'parents': (), 'members': members, 'tests': {name: 'only'}})
        for at, label in itertools.product(range(n), LABELS):
            for members in subsets(n):
                deprels = plain[:at] + (label,) + plain[at + 1:]
                rec.run({'kind': 'mentions', 'heads': heads, 'deprels': deprels, 'gap': None, 'parents': (), 'members': members, 'tests': {'almost_forest': 'only'}})
        for members in subsets(n):
            for one, two in itertools.combinations(TESTS, 2):
                rec.run({'kind': 'mentions', 'heads': heads, 'deprels': plain, 'gap': None, 'parents': (), 'members': members, 'tests': {one: 'only', two: 'exclude'}})


def mention_property(name, case, nodes, words, members, entity_size):
    chosen = [nodes[i] for i in members]
    inside = lambda node: any(node is c for c in chosen)
    if name == 'continuous':
        return not is_discontinuous(members)
    if name == 'almost_continuous':
        numbers = [words.index(c) for c in chosen if c in words]
        return not numbers or len(numbers) == numbers[-1] - numbers[0] + 1 or not is_discontinuous(members)
    if name == 'treelet':
        return sum(1 for c in chosen if not (inside(c.parent) if c.parent else any(inside(d['parent']) for d in c.deps))) <= 1
    if name in ('forest', 'almost_forest'):
        for c in chosen:
            children = [w for w in words if w.parent is c]
            if any(w.deprel.split(':')[0] == 'cop' for w in children):
                continue
            for w in children:
                if inside(w):
                    continue
                if name == 'forest':
                    return False
                outside = nodes.index(w) < members[0] or nodes.index(w) > members[-1]
                universal = w.deprel.split(':')[0]
                auxiliary = universal in AUXILIARY or w.deprel == 'advmod:emph' or (universal == 'dep' and w.upos in ('PUNCT', 'ADP', 'SCONJ', 'CCONJ'))
                if w.deprel == 'punct' and outside or auxiliary and not inside(c.parent):
                    continue
                return False
        return True
    return {'oneword': len(members) == 1, 'singleton': entity_size == 1, 'empty': any(c not in words for c in chosen)}[name]


def case_mentions(case, rec):
    from udapi.block.corefud.printmentions import PrintMentions
    for should in (1, 0):
        doc, root, words, nodes = sentence(case['heads'], case['deprels'], case['gap'], case['parents'])
        all_members = [case['members']] + ([[0]] if case['members'] != [0] and 'singleton' in case['tests'] and len(nodes) > 2 else [])
        for members in all_members:
            entity = doc.eid_to_entity.get('e1') or doc.create_coref_entity('e1')
            entity.create_mention(words=[nodes[i] for i in members], head=nodes[members[0]])
        with contextlib.redirect_stdout(io.StringIO()) as out:
            block = PrintMentions(color=False, attributes='form,misc', layout='align', shuffle=False, print_should=should, **case['tests'])
            block.apply_on_document(doc)
        out = out.getvalue()
        wanted = []
        for members in sorted(all_members, key=lambda m: (m[0], -len(m))):
            if all(mention_property(name, case, nodes, words, members, len(all_members)) == (value in ('only', 1)) for name, value in case['tests'].items()):
                wanted.append(members)
        equal([line[len('# Mention = '):] for line in out.splitlines() if line.startswith('# Mention')], [' '.join(nodes[i].form for i in m) for m in wanted], 'printmentions', out)
        require(out.endswith(f'######## Total matching/all mentions = {len(wanted)} / {total_mentions(all_members, case)}\n'), 'printmentions-total', out)
        require(not any(node.misc['Mark'] for node in nodes), 'printmentions-mark-left', out)
        marked = [line for line in out.splitlines() if 'Mark=1' in line]
        equal(len(marked), sum(len(m) for m in wanted), 'printmentions-marked', out)
        if not should:
            require(not any(node.misc['ShouldBeInSpanOf'] for node in nodes), 'printmentions-should', out)
        rec.step()


def total_mentions(all_members, case):
    value = case['tests'].get('singleton')
    if value is None or (len(all_members) == 1) == (value in ('only', 1)):
        return len(all_members)
    return 0


def run_options(shard, rec):
    for max_trees in (0, 1, 2, 3, 5):
        for total in (True, False, 0, 1):
            for shuffle in (True, False):
                for other in (0, 1, 5):
                    for html in (False, True):
                        rec.run({'kind': 'options', 'max_trees': max_trees, 'total': total, 'shuffle': shuffle, 'other': other, 'html': html})


def case_options(case, rec):
    from udapi.block.corefud.printmentions import PrintMentions
    doc, root, nodes, _ = make(4, [['e1', [0, 1], 0], ['e1', [2], 2], ['e2', [2, 3], 3]])
    make(2, [['e1', [0], 0]], doc=doc, forms='cd')
    forms = {'a b': Counter({'c': 2}), 'c': Counter({'a b': 1}), 'c d': Counter()}
    with contextlib.redirect_stdout(io.StringIO()) as out:
        block = PrintMentions(color=False, max_trees=case['max_trees'], print_total=case['total'], shuffle=case['shuffle'], print_other_forms=case['other'], html=case['html'])
        block.apply_on_document(doc)
    out = out.getvalue()
    printed = [line[len('# Mention = '):] for line in out.splitlines() if line.startswith('# Mention')]
    limit = case['max_trees'] or 4
    equal(len(printed), min(limit, 4), 'options-printed', out)
    order = ['a b', 'c', 'c d', 'c']
    if case['shuffle']:
        require(not Counter(printed) - Counter(order), 'options-mentions', out)
    else:
        equal(printed, ['a b', 'c d', 'c', 'c'][:limit], 'options-order', out)
    lines = out.splitlines()
    for i, line in enumerate(lines):
        if line.startswith('# Mention'):
            want = forms[line[len('# Mention = '):]]
            found = re.match(r'# (\d+) other forms:(.*)$', lines[i + 1])
            require(bool(found) == bool(want and case['other']), 'options-other', lines[i + 1])
            if found:
                got = Counter({f: int(c) for f, c in re.findall(r' "(.*?)"\((\d+)\)', found.group(2))})
                equal(got, want, 'options-other-forms', lines[i + 1])
    equal('######## Only first' in out, bool(case['max_trees'] and case['max_trees'] < 4), 'options-only-first', out)
    if case['total']:
        require('######## Total matching/all mentions = 4 / 4' in out, 'options-total', out)
    else:
        require('######## Total' not in out, 'options-no-total', out)
    for tree in doc.trees:
        for node in tree.descendants_and_empty:
            require(not node.misc['Mark'], 'options-mark-left', out)


# ---------------------------------------------------------------- Stats

STATS = ({}, {'report_basics': True}, {'m_len_max': 2, 'e_len_max': 1}, {'m_len_max': 0, 'e_len_max': 0}, {'exclude_singletons': True}, {'exclude_nonsingletons': True},
         {'report_mentions': False}, {'report_entities': False}, {'report_details': False}, {'report_mentions': False, 'report_details': False}, {'selected_upos': 'all'}, {'selected_upos': 'NOUN _'})


def run_stats(shard, rec):
    pool = subsets(3)
    for count in range(1, shard['count'] + 1):
        for rest in itertools.combinations(pool, count - 1):
            for eids in (('e1', 'e1', 'e1'), ('e1', 'e2', 'e1')):
                mentions = [[eid, span, span[-1] if i % 2 else span[0]] for i, (eid, span) in enumerate(zip(eids, [shard['one']] + list(rest)))]
                if any(a[:2] == b[:2] for a, b in itertools.combinations(mentions, 2)):
                    continue
                for heads in ((0, 1), (0, 0), (2, 0)):
                    for parent in (0, 1, 2, (0, 1), (1, 2)):
                        for options in STATS if heads == (0, 1) and parent == 1 else STATS[:1]:
                            rec.run({'kind': 'stats', 'mentions': mentions, 'heads': heads, 'parent': parent, 'options': options})


UPOS = ('NOUN', None, 'X')


def stats_doc(mentions, heads, parent, newdoc=True, doc=None):
    doc, root, nodes, _ = make(3, mentions, doc=doc)
    words = [nodes[0], nodes[2]]
    for word, head in zip(words, heads):
        if head == 0:
            word.parent = root
    for word, head in zip(words, heads):
        if head:
            word.parent = words[head - 1]
    nodes[1].deps = [{'parent': words[p - 1] if p else root, 'deprel': 'x'} for p in (parent if isinstance(parent, (tuple, list)) else [parent])]
    for node, upos in zip(nodes, UPOS):
        node.upos = upos
    root.newdoc = newdoc
    return doc


def expected_stats(sentences, options, newdocs):
    """sentences = list of (mentions, heads, parent) of one or more documents; mentions of one entity share its eid."""
    entities = {}
    for number, (mentions, heads, parent) in enumerate(sentences):
        for m in mentions:
            entities.setdefault(m[0], []).append((m, heads, parent))
    lengths = {eid: len(ms) for eid, ms in entities.items()}
    kept = {eid: ms for eid, ms in entities.items()
            if not (len(ms) == 1 and options.get('exclude_singletons')) and not (len(ms) > 1 and options.get('exclude_nonsingletons'))}
    ms = [m for group in kept.values() for m in group]
    words = 2 * len(sentences)
    result = {}
    if options.get('report_basics'):
        result.update(docs=newdocs, sents=len(sentences), words=words, empty=len(sentences))
    e_max, m_max = options.get('e_len_max', 5), options.get('m_len_max', 5)
    ratio = lambda a, b: a / b if b else 0.0
    if options.get('report_entities', True):
        result.update(entities=len(kept), entities_per1k=ratio(1000 * len(kept), words), longest_entity=max([len(g) for g in kept.values()], default=0), avg_entity=ratio(len(ms), len(kept)))
        for i in range(1, e_max + 1):
            result[f"c_len_{i}{'+' if i == e_max else ''}"] = ratio(100 * sum(1 for g in kept.values() if min(len(g), e_max) == i), len(kept))
    nonempty = [len([p for p in m[0][1] if p != 1]) for m in ms]
    if options.get('report_mentions', True):
        result.update(mentions=len(ms), mentions_per1k=ratio(1000 * len(ms), words), longest_mention=max(nonempty, default=0), avg_mention=ratio(sum(nonempty), len(ms)))
        for i in range(0, m_max + 1 if m_max else 0):
            result[f"m_len_{i}{'+' if i == m_max else ''}"] = ratio(100 * sum(1 for x in nonempty if min(x, m_max) == i), len(ms))
    if options.get('report_details', True):
        percent = lambda test: ratio(100 * sum(1 for m in ms if test(*m)), len(ms))

        def nontreelet(m, heads, parent):
            place = {0: 0, 1: 2}
            count = 0
            for p in m[1]:
                if p == 1:
                    ups = [{0: None, 1: 0, 2: 2}[up] for up in (parent if isinstance(parent, (tuple, list)) else [parent])]
                else:
                    head = heads[0 if p == 0 else 1]
                    ups = [place[head - 1] if head else None]
                count += not any(up in m[1] for up in ups)
            return count > 1
        result.update(with_empty=percent(lambda m, h, p: 1 in m[1]), with_gaps=percent(lambda m, h, p: is_discontinuous(m[1])), nontreelet=percent(nontreelet))
        selected = options.get('selected_upos', 'NOUN PRON PROPN DET ADJ VERB ADV NUM _').split()
        tag = lambda m: UPOS[m[2]] or '_'
        tags = selected + ['other']
        if selected == ['all']:
            tags = sorted({tag(m) for m, _, _ in ms})
        for upos in tags:
            result['head_upos=' + upos] = percent(lambda m, h, p: tag(m) == upos or (upos == 'other' and tag(m) not in selected))
    return result


def compare_stats(got, want, ctx):
    equal(sorted(got), sorted(want), 'stats-names', ctx)
    for name, value in want.items():
        digits = 0 if name.endswith('per1k') else 1
        number = float(got[name].replace(',', ''))
        require(abs(number - value) <= 0.5 * 10 ** -digits + 1e-9 if isinstance(value, float) else number == value, 'stats-value', lambda: f'{name} got {got[name]}, want {value}: {ctx}')


def parse_human(text):
    return dict(tuple(x.strip() for x in line.rsplit(' = ', 1)) for line in text.splitlines() if ' = ' in line)


def case_stats(case, rec):
    from udapi.block.corefud.stats import Stats
    options = case['options']
    want = expected_stats([(case['mentions'], case['heads'], case['parent'])], options, 1)
    for style in ('human', 'tex', 'tex-table', 'tex-doc'):
        block = Stats(style=style, **options)
        doc = stats_doc(case['mentions'], case['heads'], case['parent'])
        before = [(node.form, dict(node.misc)) for node in doc.nodes_and_empty]
        out = apply(block, doc)
        with contextlib.redirect_stdout(io.StringIO()) as end:
            block.process_end()
        out += end.getvalue()
        equal([(node.form, dict(node.misc)) for node in doc.nodes_and_empty], before, 'stats-changed')
        if style == 'human':
            compare_stats(parse_human(out), want, out)
            names = [line.rsplit(' = ', 1)[0].strip() for line in out.splitlines()]
        else:
            rows = [line for line in out.splitlines() if line.endswith(r'\\') and not line.startswith((' ', '&')) and '&' in line or re.match(r' +[\d,]+ &', line) or re.match(r' *[\d.]+ (&|\\\\)', line)]
            cells = [c.strip() for c in rows[-1].rstrip('\\ ').split('&')]
            compare_stats(dict(zip(names, cells)), want, out)
            equal(len(cells), len(names), 'stats-cells', out)
            if style != 'tex':
                check_header(out, names)
                require(re.search(r'^ *1 documents &$', out, re.M), 'stats-documents', out)
                require(out.count(r'\begin{tabular}') == out.count(r'\end{tabular}') == 1, 'stats-tabular', out)
                equal(out.count(r'\end{document}'), 1 if style == 'tex-doc' else 0, 'stats-end-document', out)
        rec.step()


def column_spans(line):
    """First and last column of each cell of a row, and whether it is one cell over several columns."""
    result, column = [], 1
    for cell in re.sub(r'\\\\.*', '', line).split('&'):
        match = re.match(r' *\\MC{(\d+)}', cell)
        width = int(match.group(1)) if match else 1
        result.append((column, column + width - 1, bool(match)))
        column += width
    return result


def check_header(out, names):
    """The columns declared, the header rows, the rules under their groups and the columns of the data fit together."""
    lines = out.splitlines()
    start = next(i for i, line in enumerate(lines) if r'\toprule' in line)
    declared = re.sub(r'@{.*?}', '', lines[start].split(r'\begin{tabular}{', 1)[1].split(r'\toprule')[0])
    equal(''.join(c for c in declared if c in 'lr'), 'l' + 'r' * len(names), 'stats-header-columns', out)
    for i in (1, 2, 3):
        spans = column_spans(lines[start + i])
        equal(spans[-1][1], len(names) + 1, 'stats-header-row', f'{i}: {out}')
        if i < 3:
            rules = [(int(a), int(b)) for a, b in re.findall(r'\\cmidrule\([lr]+\){(\d+)-(\d+)}', lines[start + i])]
            equal(rules, [(a, b) for a, b, group in spans if group], 'stats-header-rules', f'{i}: {out}')
        else:
            require(lines[start + i].endswith(r'\midrule'), 'stats-header-end', out)
    cells = [c.strip() for c in lines[start + 2].split(r'\\')[0].split('&')]
    numbers = [(int(c.rstrip('+')), c.endswith('+')) for c in cells if re.fullmatch(r'\d+\+?', c)]
    want = [(int(m.group(1)), bool(m.group(2))) for m in (re.fullmatch(r'[cm]_len_(\d+)(\+?)', name) for name in names) if m]
    equal(numbers, want, 'stats-header-lengths', out)
    tags = [name[len('head_upos='):] for name in names if name.startswith('head_upos=')]
    equal(cells[len(cells) - len(tags):] if tags else [], tags, 'stats-header-tags', out)


def run_statsdocs(shard, rec):
    pool = [[], [['e1', [0], 0]], [['e1', [0, 2], 2], ['e2', [1], 1]], [['e2', [1, 2], 2], ['e1', [0], 0], ['e3', [2], 2]]]
    for pattern in itertools.product(range(len(pool)), repeat=3):
        for cut in (1, 2, 3):
            for newdoc in (None, True, 'name'):
                for per_doc in (True, False):
                    for rows in (1, 2, 50):
                        rec.run({'kind': 'statsdocs', 'sents': [pool[k] for k in pattern], 'cut': cut, 'newdoc': newdoc, 'per_doc': per_doc, 'rows': rows})


def case_statsdocs(case, rec):
    from udapi.block.corefud.stats import Stats
    for style in ('human', 'tex-doc'):
        block = Stats(style=style, per_doc=case['per_doc'], report_basics=True, max_rows_per_page=case['rows'])
        out, wants, outs = '', [], []
        groups = [g for g in (case['sents'][:case['cut']], case['sents'][case['cut']:]) if g]
        for number, group in enumerate(groups):
            doc = None
            for mentions in group:
                doc = stats_doc([[f'{eid}.{number}', span, head] for eid, span, head in mentions], (0, 1), 1, newdoc=None, doc=doc)
            doc.bundles[0].trees[0].newdoc = case['newdoc']
            outs.append(apply(block, doc))
        with contextlib.redirect_stdout(io.StringIO()) as end:
            block.process_end()
        numbered = [[([[f'{eid}.{number}', span, head] for eid, span, head in mentions], (0, 1), 1) for mentions in group] for number, group in enumerate(groups)]
        newdocs = 1 if case['newdoc'] else 0
        options = {'report_basics': True}
        if style == 'human':
            if case['per_doc']:
                equal(end.getvalue(), '', 'stats-per-doc-end')
                for out, group in zip(outs, numbered):
                    compare_stats(parse_human(out), expected_stats(group, options, newdocs), out)
                    if case['newdoc'] == 'name':
                        require(out.startswith('name'), 'stats-docname', out)
            else:
                equal(''.join(outs), '', 'stats-not-per-doc')
                compare_stats(parse_human(end.getvalue()), expected_stats([s for g in numbered for s in g], options, newdocs * len(groups)), end.getvalue())
        else:
            everything = ''.join(outs) + end.getvalue()
            rows = re.findall(r'&[^&\n]*\d[^\n]*\\\\$', everything, re.M)
            for name in ('document', 'mypage', 'tabular'):
                equal(everything.count('\\begin{%s}' % name), everything.count('\\end{%s}' % name), 'stats-tex-' + name, everything)
            if case['per_doc']:
                equal(len(re.findall(r'^name +&', everything, re.M)), len(groups) if case['newdoc'] == 'name' else 0, 'stats-docname', everything)
                require(re.search(r'^document  ', everything, re.M), 'stats-header-first', everything)
                for page in everything.split('\\midrule')[1:]:
                    body = page.split('\\bottomrule')[0]
                    require(body.count('\\\\\n') <= case['rows'], 'stats-page-rows', everything)
            else:
                require(re.search(rf'^ *{len(groups)} documents &$', everything, re.M), 'stats-documents', everything)
                require(re.search(r'^dataset  ', everything, re.M), 'stats-header-first', everything)
        rec.step()
