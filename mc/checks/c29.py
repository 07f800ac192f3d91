"""C29: blocks transforming coreference annotation (udapi.block.corefud)."""
import contextlib
import io
import itertools

from mc.core import require, equal, raises
from mc import trees
from mc.checks.c28 import make, add, subsets, intervals

TITLE = ('All sets of mentions over sentences with empty nodes x hash orders of mentions x parameters: MergeSameSpan, FixInterleaved, MoveHead, GuessSpan, FixParentheses; '
         'all enhanced graphs: SingleParent, Delete; all link functions: Link2Cluster; all documents with up to 3 sentences: IndexClusters, FixEntityAcrossNewdoc, RemoveNoCorefEntities, FixToValidate')
ASSUMPTIONS = ['all mentions are within one sentence', 'Delete(empty=1): the root is reachable from every node', 'Link2Cluster: no annotation of entities before, ids of nodes are unique, bridging does not lead to the same cluster',
               'FixEntityAcrossNewdoc: bridging and split antecedents do not cross the boundaries of documents', 'GuessSpan: parents of empty nodes are words']


def BOUNDS(tier):
    big = tier != 'quick'
    return {'merge_mentions': 4 if big else 3, 'interleaved_nodes_pairs': 5 if big else 4, 'interleaved_nodes_triples': 4 if big else 3, 'movehead_words': 4 if big else 3,
            'delete_nodes': 5 if big else 4, 'link_nodes': 5 if big else 4, 'parentheses_words': 5 if big else 4, 'guess_words': 4 if big else 3}


FLAGS = ('same_entity_only', 'both_discontinuous', 'crossing_only', 'nested_same_subspan')


def shards(tier):
    bounds = BOUNDS(tier)
    result = []
    for one in subsets(3):
        for two in subsets(3):
            result.append({'kind': 'merge', 'one': one, 'two': two, 'n': bounds['merge_mentions']})
    for one in subsets(bounds['interleaved_nodes_pairs']):
        result.append({'kind': 'interleaved', 'n': bounds['interleaved_nodes_pairs'], 'one': one, 'count': 2})
    n = bounds['interleaved_nodes_triples']
    for one in subsets(n):
        for two in subsets(n):
            result.append({'kind': 'interleaved', 'n': n, 'one': one, 'two': two, 'count': 3})
    for one in intervals(5):
        result.append({'kind': 'interleaved', 'n': 5, 'one': one, 'count': 3, 'spans': 'intervals'})
    for n in range(1, bounds['movehead_words'] + 1):
        for heads in trees.head_vectors(n):
            result.append({'kind': 'movehead', 'heads': heads, 'empties': 2 if n < bounds['movehead_words'] else 1})
            result.append({'kind': 'guess', 'heads': heads, 'empties': 2 if n < bounds['movehead_words'] else 1})
    for n in (1, 2, 3):
        for heads in trees.head_vectors(n):
            result.append({'kind': 'single', 'heads': heads})
    for words, empties in ((1, 1), (1, 2), (2, 1), (3, 1), (2, 2)) + (((1, 3), (3, 2)) if bounds['delete_nodes'] == 5 else ()):
        targets = words + empties
        for first in sets_of(targets):
            result.append({'kind': 'delete', 'words': words, 'empties': empties, 'first': first, 'most': 2 if words + empties < 5 else 1})
    result += [{'kind': 'deletecoref'}, {'kind': 'misc'}, {'kind': 'concat'}]
    for n in range(1, bounds['link_nodes'] + 1):
        for first in range(-2, n):
            result.append({'kind': 'link', 'n': n, 'first': first})
    result.append({'kind': 'linkbridge'})
    for first in itertools.product((None, True), repeat=2):
        result.append({'kind': 'newdoc', 'first': first})
    result.append({'kind': 'index'})
    result.append({'kind': 'nocoref'})
    for n in range(1, bounds['parentheses_words'] + 1):
        for first in PARENS:
            result.append({'kind': 'parens', 'n': n, 'first': first})
    for n in (0, 1, 2, 3):
        result.append({'kind': 'validate', 'n': n})
    return result[::-1]


def sets_of(targets, most=2, least=1):
    return [c for k in range(least, most + 1) for c in itertools.combinations(range(targets), k)]


PARENS = ('a', '(', ')', '[', ']')


def run_shard(shard, rec):
    kind = shard['kind']
    globals()['run_' + kind](shard, rec)


def run_case(case, rec):
    rec.state(str(case))
    globals()['case_' + case['kind']](case, rec)
    rec.step()
    rec.trace()


# ---------------------------------------------------------------- helpers

@contextlib.contextmanager
def hash_order(mentions, order):
    """Mentions get the given hashes, so that every iteration order of a small set of mentions can be explored."""
    from udapi.core.coref import CorefMention
    ranks = {id(m): r for m, r in zip(mentions, order)}
    CorefMention.__hash__ = lambda self: ranks.get(id(self), 7)
    try:
        yield
    finally:
        del CorefMention.__hash__


def apply(block, doc):
    with contextlib.redirect_stdout(io.StringIO()) as out:
        block.apply_on_document(doc)
    return out.getvalue()


def check_backlinks(doc, nodes):
    """Nodes know exactly the mentions which include them, and entities know their mentions."""
    mentions = [m for e in doc.coref_entities for m in e.mentions]
    for m in mentions:
        require(m.words, 'mention-without-words', str(m))
        require(m.head in m.words, 'head-not-in-words', str(m))
        require([w.ord for w in m.words] == sorted(w.ord for w in m.words), 'words-not-sorted', str(m))
        require(len({id(w) for w in m.words}) == len(m.words), 'repeated-words', str(m))
    for e in doc.coref_entities:
        require(all(m.entity is e for m in e.mentions), 'mention-entity', str(e))
    for node in nodes:
        want = sorted(id(m) for m in mentions if any(w is node for w in m.words))
        equal(sorted(id(m) for m in node.coref_mentions), want, 'backlinks', f'{node} {[str(m) for m in node.coref_mentions]}')


def spans(doc, nodes):
    """Sorted list of (eid, positions, head position)."""
    place = {id(node): i for i, node in enumerate(nodes)}
    return sorted((e.eid, [place[id(w)] for w in m.words], place[id(m.head)]) for e in doc.coref_entities for m in e.mentions)


def is_discontinuous(positions):
    return positions[-1] - positions[0] + 1 != len(positions)


def subspans(positions):
    result, run = set(), [positions[0]]
    for p in positions[1:]:
        if p != run[-1] + 1:
            result.add(tuple(run))
            run = []
        run.append(p)
    result.add(tuple(run))
    return result


# ---------------------------------------------------------------- MergeSameSpan

def run_merge(shard, rec):
    one, two, count = shard['one'], shard['two'], shard['n']
    for rest in itertools.chain.from_iterable(itertools.product(subsets(3), repeat=k) for k in range(count - 1)):
        all_spans = [one, two] + list(rest)
        if len({tuple(s) for s in all_spans}) == len(all_spans):
            continue
        for eids in itertools.product(('e2', 'e10'), repeat=len(all_spans)):
            mentions = [[eid, span, span[-1] if i % 2 else span[0]] for i, (eid, span) in enumerate(zip(eids, all_spans))]
            for same in (False, True):
                rec.run({'kind': 'merge', 'mentions': mentions, 'same': same})


def case_merge(case, rec):
    from udapi.block.corefud.mergesamespan import MergeSameSpan
    mentions, same = case['mentions'], case['same']
    results = set()
    for order in itertools.permutations(range(len(mentions))) if len(mentions) < 4 else [(0, 1, 2, 3), (3, 2, 1, 0), (1, 0, 3, 2), (2, 3, 0, 1), (2, 0, 3, 1)]:
        doc, root, nodes, objects = make(3, mentions)
        with hash_order(objects, order):
            apply(MergeSameSpan(same_entity_only=same), doc)
            check_backlinks(doc, nodes)
            got = spans(doc, nodes)
        results.add(str(got))
        groups = {}
        for eid, span, head in mentions:
            groups.setdefault((tuple(span), eid if same else ''), []).append((eid, head))
        want = sorted((min(members)[0], list(span)) for (span, _), members in groups.items())
        equal([(eid, span) for eid, span, head in got], want, 'merge-same-span', order)
        for eid, span, head in got:
            require((eid, head) in groups[tuple(span), eid if same else ''], 'merge-head', got)
        rec.step()
    require(len(results) == 1, 'merge-nondeterministic', results)


# ---------------------------------------------------------------- FixInterleaved

def run_interleaved(shard, rec):
    n, one, count = shard['n'], shard['one'], shard['count']
    pool = intervals(n) if shard.get('spans') else subsets(n)
    rest = [[two] for two in pool] if count == 2 else [[shard['two'], three] for three in pool] if 'two' in shard else [list(c) for c in itertools.combinations(pool, 2)]
    for others in rest:
        all_spans = [one] + others
        for eids in (('e1', 'e1', 'e1'), ('e1', 'e2', 'e1'), ('e1', 'e2', 'e2')):
            if count == 2 and eids[0] == eids[2] and eids[1] == 'e2':
                continue
            mentions = [[eid, span, span[-1] if i % 2 else span[0]] for i, (eid, span) in enumerate(zip(eids, all_spans))]
            if any(a[:2] == b[:2] for a, b in itertools.combinations(mentions, 2)):
                continue
            for flags in (itertools.product((0, 1), repeat=4) if count == 2 else ((1, 0, 0, 1), (0, 0, 0, 1), (1, 0, 1, 0), (0, 0, 1, 0), (1, 1, 0, 1), (1, 0, 0, 0))):
                rec.run({'kind': 'interleaved', 'n': n, 'mentions': mentions, 'flags': dict(zip(FLAGS, flags))})


def conflict(one, two, flags):
    if flags['same_entity_only'] and one[0] != two[0]:
        return False
    a, b = one[1], two[1]
    if flags['both_discontinuous'] and not (is_discontinuous(a) and is_discontinuous(b)):
        return False
    if set(a) <= set(b) or set(b) <= set(a):
        return bool(flags['nested_same_subspan'] and subspans(a) & subspans(b))
    if flags['crossing_only']:
        return bool(set(a) & set(b))
    return not (a[-1] < b[0] or b[-1] < a[0])


def case_interleaved(case, rec):
    from udapi.block.corefud.fixinterleaved import FixInterleaved
    n, mentions, flags = case['n'], case['mentions'], case['flags']
    results = set()
    for order in itertools.permutations(range(len(mentions))):
        doc, root, nodes, objects = make(n, mentions)
        with hash_order(objects, order):
            apply(FixInterleaved(**flags), doc)
            check_backlinks(doc, nodes)
            got = spans(doc, nodes)
        results.add(str(got))
        conflicts = [(a, b) for a, b in itertools.combinations(mentions, 2) if conflict(a, b, flags)]
        if not conflicts:
            equal(got, sorted((e, s, h) for e, s, h in mentions), 'fixinterleaved-changed')
        for a, b in itertools.combinations(got, 2):
            require(not conflict(a, b, flags), 'fixinterleaved-left', lambda: f'{order} {got}')
            # A union of mentions is deleted if there already is a mention with the same span.
            require(a[1] != b[1] or sum(list(m[1]) == list(a[1]) for m in mentions) > 1, 'fixinterleaved-new-same-span', lambda: f'{order} {got}')
        for a in got:
            require(any(m[0] == a[0] and m[2] == a[2] and set(m[1]) <= set(a[1]) for m in mentions), 'fixinterleaved-unrelated', got)
            parts = [m[1] for m in mentions if set(m[1]) <= set(a[1])]
            equal({p for part in parts for p in part}, set(a[1]), 'fixinterleaved-not-union', got)
            if not any(a[0] == m[0] and a[1] == m[1] for m in mentions):
                require(any(m in pair for pair in conflicts for m in parts_of(a, mentions)), 'fixinterleaved-enlarged', got)
        equal({p for a in got for p in a[1]}, {p for m in mentions for p in m[1]}, 'fixinterleaved-coverage', got)
        for m in mentions:
            if not any(m in pair for pair in conflicts) and len(conflicts) < 2 and len({tuple(x[1]) for x in mentions}) == len(mentions):
                require((m[0], m[1], m[2]) in got or any(set(m[1]) < set(a[1]) or conflict(m, a, flags) for a in unions(conflicts)), 'fixinterleaved-lost', lambda: f'{got} {m}')
        if len(mentions) == 2 and conflicts:
            equal(len(got), 1, 'fixinterleaved-pair', got)
        rec.step()
    require(len(results) == 1, 'fixinterleaved-nondeterministic', results)


def parts_of(mention, mentions):
    return [m for m in mentions if set(m[1]) <= set(mention[1])]


def unions(conflicts):
    return [[pair[0][0], sorted(set(pair[0][1]) | set(pair[1][1]))] for pair in conflicts]


# ---------------------------------------------------------------- MoveHead, GuessSpan

def sentence(heads, empties):
    """Words and up to two empty nodes (after the first word, and at the end)."""
    from udapi.core.document import Document
    doc = Document()
    root = doc.create_bundle().create_tree()
    words = trees.build_into(root, heads)[1:]
    extra = []
    for k in range(empties):
        node = (words[0] if k == 0 else words[-1]).create_empty_child('dep', after=True)
        node.form = f'E{k}'
        node.deps = []
        extra.append(node)
    nodes = sorted(words + extra, key=lambda node: float(str(node.ord)))
    return doc, root, words, extra, nodes


def run_movehead(shard, rec):
    heads, empties = shard['heads'], shard['empties']
    n = len(heads)
    targets = range(n + 1)
    options = [c for k in (1, 2) for c in itertools.permutations(targets, k)]
    for count in range(empties + 1):
        total = n + count
        for deps in itertools.product(options if count < 2 else [c for c in options if len(c) == 1] + [('E',), ()], repeat=count):
            for members in subsets(total):
                for head in members:
                    for keep in (True, False):
                        rec.run({'kind': 'movehead', 'heads': heads, 'deps': deps, 'members': members, 'head': head, 'keep': keep})
    for own in itertools.product([(), (0,)] + [(i,) for i in range(1, n + 1)], repeat=n):
        if any(i + 1 in o for i, o in enumerate(own)) or n > 3:
            continue
        for members in subsets(n):
            rec.run({'kind': 'movehead', 'heads': heads, 'deps': (), 'own': own, 'members': members, 'head': members[-1], 'keep': False})
            rec.run({'kind': 'movehead', 'heads': heads, 'deps': (), 'own': own, 'members': members, 'head': members[-1], 'keep': True})


def chain(node):
    result = [node]
    while result[-1].parent is not None:
        result.append(result[-1].parent)
    return result


def set_deps(root, words, extra, deps):
    for k, (node, parents) in enumerate(zip(extra, deps)):
        node.deps = [{'parent': extra[1 - k] if p == 'E' else words[p - 1] if p else root, 'deprel': f'd{i}'} for i, p in enumerate(parents)]


def expected_head(words_in, head, keep, marks):
    """Return the head and the category of the mention; `marks` are pairs of a node and its mark."""
    inside = lambda node: any(node is w for w in words_in)
    basic = [w for w in words_in if w.parent is None or not inside(w.parent)]
    if len(basic) == 1:
        return basic[0], 'treelet'
    eparents = lambda w: [d['parent'] for d in w.deps] if w.raw_deps != '_' else [w.parent] if w.parent else []
    tops = [w for w in basic if not any(inside(p) for p in eparents(w))] or [w for w in basic if not all(inside(p) for p in eparents(w))]
    if not tops:
        return head, 'cycle'
    if len(tops) == 1:
        return tops[0], 'treelet'
    anchors = [w for w in tops if not w.is_empty()]
    for w in tops:
        if w.is_empty():
            found = [d['parent'] for d in w.deps if not d['parent'].is_empty()][:1]
            anchors += found
            if not found:
                marks.append((w, 'no-parent-of-empty'))
    if anchors:
        common = [a for a in chain(anchors[0]) if all(any(a is b for b in chain(other)) for other in anchors)]
        if any(common[0] is w for w in tops):
            return common[0], 'gappy'
        if inside(common[0]):
            marks += [(common[0], 'highest-in-mwords'), (head, 'highest-head')]
    return head if keep and any(head is w for w in tops) else tops[0], 'nontreelet'


def case_movehead(case, rec):
    from udapi.block.corefud.movehead import MoveHead
    for bugs in ('warn', 'mark', ''):
        doc, root, words, extra, nodes = sentence(case['heads'], len(case['deps']))
        set_deps(root, words, extra, case['deps'])
        for node, own in zip(words, case.get('own', ())):
            if own:
                node.deps = [{'parent': words[p - 1] if p else root, 'deprel': 'x'} for p in own]
        members = [nodes[i] for i in case['members']]
        mention = doc.create_coref_entity('e1').create_mention(words=members, head=nodes[case['head']])
        before = [(node.form, str(node.raw_deps), node.parent) for node in nodes]
        marks = []
        want, category = expected_head(members, nodes[case['head']], case['keep'], marks)
        block = MoveHead(bugs=bugs, keep_head_if_possible=case['keep'])
        apply(block, doc)
        block.process_end()
        require(mention.head is want, 'movehead', lambda: f'got {mention.head}, want {want}')
        equal([id(w) for w in mention.words], [id(w) for w in members], 'movehead-words')
        equal([(node.form, str(node.raw_deps), node.parent) for node in nodes], before, 'movehead-changed')
        marked = {id(node): mark for node, mark in marks} if bugs == 'mark' and len(members) > 1 else {}
        equal([str(node.misc['Bug']) for node in nodes], [marked.get(id(node), '') for node in nodes], 'movehead-marks')
        counts = {'total': 1, 'single-word': 1}
        if len(members) > 1:
            counts = {'total': 1, category: 1, category + ('-kept' if want is nodes[case['head']] else '-moved'): 1}
        equal(dict(block.counter), counts, 'movehead-counter')
        check_backlinks(doc, nodes)
        rec.step()


def run_guess(shard, rec):
    heads, empties = shard['heads'], shard['empties']
    n = len(heads)
    options = [()] + [c for k in (1, 2) for c in itertools.combinations(range(n + 1), k)]
    for gaps in itertools.product(range(n + 1), repeat=empties):
        if list(gaps) != sorted(gaps):
            continue
        for deps in itertools.product(options if empties == 1 else [o for o in options if len(o) < 2], repeat=empties):
            for head in range(n + empties):
                rec.run({'kind': 'guess', 'heads': heads, 'gaps': gaps, 'deps': deps, 'head': head})


def case_guess(case, rec):
    from udapi.core.document import Document
    from udapi.block.corefud.guessspan import GuessSpan
    doc = Document()
    root = doc.create_bundle().create_tree()
    words = trees.build_into(root, case['heads'])[1:]
    extra, used = [], {}
    for k, (gap, parents) in enumerate(zip(case['gaps'], case['deps'])):
        used[gap] = used.get(gap, 0) + 1
        node = root.create_empty_child(form=f'E{k}')
        node.ord = f'{gap}.{used[gap]}'
        node.deps = [{'parent': words[p - 1] if p else root, 'deprel': 'x'} for p in parents]
        extra.append((node, gap, parents))
    nodes = words + [e[0] for e in extra]
    head = nodes[case['head']]
    mention = doc.create_coref_entity('e1').create_mention(words=[head], head=head)
    apply(GuessSpan(), doc)
    require(mention.head is head, 'guessspan-head')
    inside = {i for i, node in enumerate(nodes) if any(head is a for a in chain(node))}
    numbers = [i + 1 for i in inside if i < len(words)]
    want = set(inside)
    if numbers:
        first, last = min(numbers), max(numbers)
        for k, (node, gap, parents) in enumerate(extra):
            if first - 1 <= gap <= last and any(p in numbers for p in parents):
                want.add(len(words) + k)
            elif first <= gap < last and gap in numbers and gap + 1 in numbers:
                want.add(len(words) + k)
        equal([node.form for node in mention.words], [node.form for node in sorted((nodes[i] for i in want), key=lambda x: float(str(x.ord)))], 'guessspan')
    else:
        require([node for node in mention.words if node is not head] == [], 'guessspan-empty', [w.form for w in mention.words])
    check_backlinks(doc, nodes)


# ---------------------------------------------------------------- SingleParent, Delete

def run_single(shard, rec):
    heads = shard['heads']
    targets = list(range(len(heads) + 1)) + ['E']
    for count in range(4):
        for deps in itertools.product(targets, repeat=count):
            rec.run({'kind': 'single', 'heads': heads, 'deps': deps})


def case_single(case, rec):
    from udapi.block.corefud.singleparent import SingleParent
    doc, root, words, extra, nodes = sentence(case['heads'], 2)
    target = lambda p: extra[1] if p == 'E' else words[p - 1] if p else root
    deps = [{'parent': target(p), 'deprel': f'd{i}'} for i, p in enumerate(case['deps'])]
    extra[0].deps = [dict(d) for d in deps]
    other = [{'parent': words[0], 'deprel': 'other'}]
    extra[1].deps = [dict(d) for d in other]
    words[-1].deps = [{'parent': extra[0], 'deprel': 'x'}, {'parent': root, 'deprel': 'y'}]
    apply(SingleParent(), doc)
    got = extra[0].deps
    if len(deps) < 2:
        equal(got, deps, 'singleparent-changed')
    else:
        real = [d for d in deps if not d['parent'].is_empty()]
        if not real:
            equal(got, [], 'singleparent-none')
        else:
            depth = min(len(chain(d['parent'])) for d in real)
            highest = [d['parent'] for d in real if len(chain(d['parent'])) == depth]
            require(any(got == [d for d in deps if d['parent'] is p] for p in highest), 'singleparent', lambda: f'{got}')
    equal(extra[1].deps, other, 'singleparent-other')
    equal(len(words[-1].deps), 2, 'singleparent-word')


def run_delete(shard, rec):
    words, empties = shard['words'], shard['empties']
    total = words + empties
    pool = sets_of(total, shard['most'])
    for rest in itertools.product(pool, repeat=total - 1):
        deps = [shard['first']] + list(rest)
        if reaches(graph_of(deps, words)):
            rec.run({'kind': 'delete', 'words': words, 'deps': deps})


def graph_of(deps, words):
    """Targets of the i-th node are numbered 0 = root, 1.. = the other nodes (without the i-th one)."""
    return {i + 1: [t if t <= i else t + 1 for t in targets] for i, targets in enumerate(deps)}


def reaches(graph):
    good = {0}
    while True:
        new = {node for node, targets in graph.items() if node not in good and any(t in good for t in targets)}
        if not new:
            return len(good) == len(graph) + 1
        good |= new


def case_delete(case, rec):
    from udapi.block.corefud.delete import Delete
    words_count = case['words']
    graph = graph_of(case['deps'], words_count)
    doc, root, words, extra, nodes = sentence(tuple([0] * words_count), 0)
    numbered = [root] + words
    for k in range(len(case['deps']) - words_count):
        node = root.create_empty_child(form=f'E{k}')
        node.ord = f'{min(k, words_count)}.1'
        extra.append(node)
    # The order of empty nodes in the graph follows the words.
    numbered += extra
    index = {id(node): i for i, node in enumerate(numbered)}
    for i, targets in graph.items():
        numbered[i].deps = [{'parent': numbered[t], 'deprel': f'd{i}'} for t in targets]
        numbered[i].misc['Functor'] = f'{numbered[targets[0]].ord}:F'
        numbered[i].misc['SpaceAfter'] = 'No'
    apply(Delete(empty=True, coref=False), doc)
    equal(root.empty_nodes, [], 'delete-empty')
    trees.check_tree(root, words)
    empties = {index[id(e)] for e in extra}
    result = {}
    for i, node in enumerate(words, 1):
        require('.' not in node.raw_deps, 'delete-reference', node.raw_deps)
        got = [(index[id(d['parent'])], d['deprel']) for d in node.deps]
        equal(len(set(got)), len(got), 'delete-duplicate', node.raw_deps)
        kept = [(t, f'd{i}') for t in graph[i] if t not in empties]
        result[i] = [t for t, _ in got]
        if len(kept) == len(graph[i]):
            equal(got, kept, 'delete-changed', node.raw_deps)
        else:
            # Parents of the (chains of) empty nodes.
            stack, seen, propagated = [t for t in graph[i] if t in empties], set(), set()
            while stack:
                e = stack.pop()
                if e not in seen:
                    seen.add(e)
                    stack += [t for t in graph[e] if t in empties]
                    propagated |= {(t, f'd{e}') for t in graph[e] if t not in empties and t != i}
            require(set(kept) <= set(got), 'delete-lost', lambda: f'{got} {kept}')
            require(set(got) <= set(kept) | propagated | {(0, 'root')}, 'delete-added', lambda: f'{got} {kept} {propagated}')
            without = {j: [t for t in graph[j] if t not in empties] for j in range(1, words_count + 1)}
            if reachable(without, i):
                equal(got, kept, 'delete-just-remove', node.raw_deps)
        require(i not in result[i], 'delete-self-loop', node.raw_deps)
        functor = str(node.misc['Functor'])
        equal(functor, '' if graph[i][0] in empties else f'{numbered[graph[i][0]].ord}:F', 'delete-functor')
        equal(node.misc['SpaceAfter'], 'No', 'delete-misc')
    require(reaches(result), 'delete-unreachable-root', result)


def reachable(graph, start):
    seen, stack = set(), [start]
    while stack:
        node = stack.pop()
        if node == 0:
            return True
        if node not in seen:
            seen.add(node)
            stack += graph[node]
    return False


def run_deletecoref(shard, rec):
    for options in itertools.product((False, True), repeat=3):
        for loaded in (False, True):
            for mentions in ([], [['e1', [0], 0]], [['e1', [0, 1], 0], ['e1', [1], 1]], [['e1', [0, 2], 0], ['e2', [1], 1]], [['e1', [0], 0], ['e2', [2], 2], ['e3', [1, 2], 1]]):
                for links in (0, 1):
                    rec.run({'kind': 'deletecoref', 'options': options, 'loaded': loaded, 'mentions': mentions, 'links': links})


def case_deletecoref(case, rec):
    from udapi.core.document import Document
    from udapi.core.coref import store_coref_to_misc
    from udapi.block.corefud.delete import Delete
    coref, empty, misc = case['options']
    doc, root, nodes, objects = make(3, case['mentions'])
    nodes[2].misc['Foo'] = 'bar'
    nodes[1].misc['Foo'] = 'empty'
    entities = [e for e in doc.coref_entities]
    if case['links'] and len(entities) > 1:
        objects[0].bridging.append((entities[1], 'part'))
        if len(entities) > 2:
            entities[0].split_ante = [entities[1], entities[2]]
    if not case['loaded']:
        store_coref_to_misc(doc)
        text = doc.to_conllu_string()
        doc = Document()
        doc.from_conllu_string(text)
        root = doc.bundles[0].trees[0]
        nodes = root.descendants_and_empty
    if empty and not coref and any(1 in m[1] for m in case['mentions']):
        return     # mentions of deleted nodes cannot be kept
    if misc and not coref and not case['loaded']:
        return     # the annotation which is kept is stored in MISC
    before = spans(doc, nodes) if case['loaded'] else None
    apply(Delete(coref=coref, empty=empty, misc=misc), doc)
    equal(len(root.empty_nodes), 0 if empty else 1, 'deletecoref-empty')
    nodes = root.descendants_and_empty
    for node in nodes:
        equal(node.no_space_after, node.form == 'a', 'deletecoref-space')
        equal(node.misc['Foo'], '' if misc else {'c': 'bar', 'b': 'empty'}.get(node.form, ''), 'deletecoref-misc')
        if coref:
            require(not {'Entity', 'Bridge', 'SplitAnte'} & set(node.misc), 'deletecoref-attributes', str(node.misc))
            equal(node.coref_mentions, [], 'deletecoref-mentions')
    if coref:
        equal(doc.coref_entities, [], 'deletecoref-entities')
    elif before is not None and not empty:
        equal(spans(doc, nodes), before, 'deletecoref-kept')
    text = doc.to_conllu_string()
    require(not coref or not any(a in text for a in ('Entity=', 'Bridge=', 'SplitAnte=')), 'deletecoref-text', text)


# ---------------------------------------------------------------- RemoveMisc, ConcatMentionMisc

MISC = ('A', 'A[1]', 'A[23]', 'B', 'AB', 'B[x]', 'xA')


def run_misc(shard, rec):
    for mask in range(1 << len(MISC)):
        for names in ('', 'A', 'B', 'A,B', 'AB', 'A,zz', 'xA,AB'):
            rec.run({'kind': 'misc', 'present': [m for i, m in enumerate(MISC) if mask >> i & 1], 'names': names})


def case_misc(case, rec):
    from udapi.block.corefud.removemisc import RemoveMisc
    doc, root, nodes, _ = make(3, [])
    for node in nodes:
        node.misc = {name: f'v{i}' for i, name in enumerate(case['present'])}
    apply(RemoveMisc(attrnames=case['names']), doc)
    names = case['names'].split(',')
    for node in nodes:
        want = {}
        for i, name in enumerate(case['present']):
            base = name.split('[')[0] if name.endswith(('[1]', '[23]')) else name
            if base not in names:
                want[name] = f'v{i}'
        equal(dict(node.misc), want, 'removemisc')


CONCAT = ('MentionMisc', 'MentionMisc_a', 'MentionMisc_b', 'MentionMisc_a[1]', 'MentionMisc_b[1]', 'MentionMisc[1]', 'MentionMisc_c[12]', 'XMentionMisc_a', 'MentionMiscs')


def run_concat(shard, rec):
    for mask in range(1 << len(CONCAT)):
        for value in ('v', 'v,w'):
            rec.run({'kind': 'concat', 'present': [m for i, m in enumerate(CONCAT) if mask >> i & 1], 'value': value})


def case_concat(case, rec):
    from udapi.block.corefud.concatmentionmisc import ConcatMentionMisc
    doc, root, nodes, _ = make(2, [])
    for node in nodes:
        node.misc = {name: case['value'] + name[-2] for name in case['present']}
    apply(ConcatMentionMisc(), doc)
    want = {}
    for name in case['present']:
        value = case['value'] + name[-2]
        if name.startswith('MentionMisc_'):
            inner, _, index = name[len('MentionMisc_'):].partition('[')
            want.setdefault('MentionMisc' + ('[' + index if index else ''), []).append(inner + ':' + value.replace(',', '%2C'))
        elif name.startswith('MentionMisc') and name[-1] != 's':
            want.setdefault(name, []).append(value)
        else:
            want[name] = [value]
    for node in nodes:
        equal(sorted(node.misc), sorted(want), 'concat-names')
        for name, values in want.items():
            items = ','.join(sorted(','.join(values).split(',')))
            equal(','.join(sorted(node.misc[name].split(','))), items, 'concat-values', name)


# ---------------------------------------------------------------- Link2Cluster

def run_link(shard, rec):
    n, first = shard['n'], shard['first']
    for rest in itertools.product(range(-2, n), repeat=n - 1):
        for delete in (True, False):
            for counter in (1, 0, 7):
                rec.run({'kind': 'link', 'links': [first] + list(rest), 'delete': delete, 'counter': counter})


def clusters(links):
    """-1 = no antecedent, -2 = an id which does not exist; an antecedent equal to the node itself is ignored."""
    n = len(links)
    group = list(range(n))
    for i, ante in enumerate(links):
        if ante >= 0 and ante != i:
            old, new = group[i], group[ante]
            group = [new if g == old else g for g in group]
    sets = {}
    for i, g in enumerate(group):
        sets.setdefault(g, set()).add(i)
    return [s for s in sets.values() if len(s) > 1]


def link_doc(links, names=('id', 'ante', 'info', 'type')):
    doc, root, nodes, _ = make(len(links), [], forms='abcdefgh')
    for i, ante in enumerate(links):
        nodes[i].misc[names[0]] = f'n{i}'
        if ante != -1:
            nodes[i].misc[names[1]] = 'missing' if ante == -2 else f'n{ante}'
        nodes[i].misc[names[2]] = f'i{i}'
        if i % 2:
            nodes[i].misc[names[3]] = f't{i}'
    return doc, root, nodes


def case_link(case, rec):
    from udapi.block.corefud.link2cluster import Link2Cluster
    links = case['links']
    doc, root, nodes = link_doc(links)
    block = Link2Cluster(id_attr='id', ante_attr='ante', delete_orig_attrs=case['delete'], infstat_attr='info', coreftype_attr='type', eid_counter=case['counter'])
    apply(block, doc)
    check_clusters(doc, nodes, links, case)
    numbers = sorted(int(e.eid[1:]) for e in doc.coref_entities)
    require(all(k >= (case['counter'] or 1) for k in numbers), 'link-eids', numbers)
    if sum(ante >= 0 and ante != i for i, ante in enumerate(links)) == 1:
        equal(numbers, [case['counter'] or 1], 'link-first-eid')
    if case['delete'] and case['counter'] == 1:
        plain, _, nodes = link_doc(links, ('proiel-id', 'antecedent-proiel-id', 'information-status', 'coreftype'))
        apply(Link2Cluster(), plain)
        check_clusters(plain, nodes, links, case, ('proiel-id', 'antecedent-proiel-id', 'information-status', 'coreftype'))
        equal(sorted(int(e.eid[1:]) for e in plain.coref_entities), numbers, 'link-default-eids')
    second, root, nodes = link_doc(links)
    old = {e.eid for e in doc.coref_entities}
    apply(block, second)
    check_clusters(second, nodes, links, case)
    if case['counter']:
        require(not old & {e.eid for e in second.coref_entities}, 'link-eids-not-unique')


def check_clusters(doc, nodes, links, case, names=('id', 'ante', 'info', 'type')):
    check_backlinks(doc, nodes)
    place = {id(node): i for i, node in enumerate(nodes)}
    got = sorted(sorted(place[id(m.head)] for m in e.mentions) for e in doc.coref_entities)
    equal(got, sorted(sorted(c) for c in clusters(links)), 'link-clusters')
    for entity in doc.coref_entities:
        heads = [place[id(m.head)] for m in entity.mentions]
        equal(heads, sorted(heads), 'link-mentions-order')
    members = {i for c in clusters(links) for i in c}
    for i, node in enumerate(nodes):
        equal(len(node.coref_mentions), 1 if i in members else 0, 'link-mentions')
        for mention in node.coref_mentions:
            equal([w.form for w in mention.words], [node.form], 'link-words')
            equal(mention.other['infstat'], f'i{i}', 'link-infstat')
            equal(mention.other['coreftype'], f't{i}' if i % 2 else '', 'link-coreftype')
            require(i % 2 or 'coreftype' not in str(mention.other), 'link-coreftype-empty')
        ante = links[i]
        want = [f'n{i}', '' if ante == -1 else 'missing' if ante == -2 else f'n{ante}', f'i{i}', f't{i}' if i % 2 else '']
        got = [node.misc[name] for name in names]
        # the attributes of words in no cluster are stored nowhere else
        equal(got, ['', '', *want[2:]] if case['delete'] and i not in members else ['', '', '', ''] if case['delete'] else want, 'link-attributes')


def run_linkbridge(shard, rec):
    n = 4
    for links in itertools.product(range(-1, n), repeat=n):
        sets = clusters(links)
        for bridges in itertools.product(range(-2, n), repeat=2):
            full = list(bridges) + [-1, -1]
            if any(t >= 0 and t != i and any({i, t} <= s for s in sets) for i, t in enumerate(full)):
                continue
            rec.run({'kind': 'linkbridge', 'links': links, 'bridges': full})
            if links[2:] == (-1, -1):
                rec.run({'kind': 'linkbridge', 'links': links, 'bridges': full, 'keep': 1})
            rec.run({'kind': 'linkbridge', 'links': links, 'bridges': full[::-1]}) if not any(t >= 0 and t != i and any({i, t} <= s for s in sets) for i, t in enumerate(full[::-1])) else None


def case_linkbridge(case, rec):
    from udapi.block.corefud.link2cluster import Link2Cluster
    links, bridges = case['links'], case['bridges']
    doc, root, nodes = link_doc(links)
    for i, target in enumerate(bridges):
        if target != -1:
            nodes[i].misc['br'] = 'missing' if target == -2 else f'n{target}'
            nodes[i].misc['rel'] = f'r{i}'
    apply(Link2Cluster(id_attr='id', ante_attr='ante', infstat_attr=None, coreftype_attr=None, bridge_attr='br', bridge_relation_attr='rel',
                       delete_orig_attrs=not case.get('keep')), doc)
    check_backlinks(doc, nodes)
    sets = [set(s) for s in clusters(links)]
    for i, target in enumerate(bridges):
        if target >= 0 and target != i:
            for x in (i, target):
                if not any(x in s for s in sets):
                    sets.append({x})
    place = {id(node): i for i, node in enumerate(nodes)}
    entities = [e for e in doc.coref_entities]
    equal(sorted(sorted(place[id(m.head)] for m in e.mentions) for e in entities), sorted(sorted(s) for s in sets), 'linkbridge-clusters')
    for i, target in enumerate(bridges):
        got = []
        for m in nodes[i].coref_mentions:
            got += [(sorted(place[id(x.head)] for x in b.target.mentions), b.relation) for b in m.bridging]
        want = [(sorted(next(s for s in sets if target in s)), f'r{i}')] if target >= 0 and target != i else []
        equal(got, want, 'linkbridge-bridges')
        if case.get('keep'):
            equal([nodes[i].misc['id'], nodes[i].misc['br'], nodes[i].misc['rel']],
                  [f'n{i}', '' if target == -1 else 'missing' if target == -2 else f'n{target}', f'r{i}' if target != -1 else ''], 'linkbridge-deleted')
        else:
            require('br' not in nodes[i].misc and 'rel' not in nodes[i].misc, 'linkbridge-kept', str(nodes[i].misc))


# ---------------------------------------------------------------- IndexClusters

def run_index(shard, rec):
    for eids in itertools.permutations(('e2', 'e1', 'x', 'e10'), 3):
        for pattern in itertools.product(range(3), repeat=4):
            for prefix, start in (('e', 1), ('e', 2), ('zz', 0)):
                rec.run({'kind': 'index', 'eids': eids, 'pattern': pattern, 'prefix': prefix, 'start': start})


def index_doc(eids, pattern):
    doc = None
    for s in range(2):
        mentions = [[eids[p], [i], i] for i, p in enumerate(pattern[2 * s:2 * s + 2])]
        mentions = [m for i, m in enumerate(mentions)]
        doc, root, nodes, _ = make(2, mentions, doc=doc)
    entities = doc.coref_entities
    if len(entities) > 1:
        entities[0].mentions[0].bridging.append((entities[1], 'part'))
    if len(entities) > 2:
        entities[2].split_ante = entities[:2]
    return doc


def case_index(case, rec):
    from udapi.core.document import Document
    from udapi.block.corefud.indexclusters import IndexClusters
    block = IndexClusters(start=case['start'], prefix=case['prefix'])
    empty = Document()
    empty.create_bundle().create_tree().create_child(form='x')
    number = case['start']
    for step in range(4):
        if step == 1:
            apply(block, empty)
            continue
        doc = index_doc(case['eids'], case['pattern'])
        if step == 3:
            text = doc.to_conllu_string()
            doc = Document()
            doc.from_conllu_string(text)
        entities = doc.coref_entities
        snapshot = lambda: [(e.etype, [id(m) for m in e.mentions], [[(id(b.target), b.relation) for b in m.bridging] for m in e.mentions], [id(x) for x in e.split_ante]) for e in entities]
        before = snapshot()
        apply(block, doc)
        equal(snapshot(), before, 'index-changed')
        equal([e.eid for e in entities], [f"{case['prefix']}{number + i}" for i in range(len(entities))], 'index-eids')
        if step == 3:
            require(all(a < b for a, b in zip(entities, entities[1:])), 'index-order')
        equal({eid: id(e) for eid, e in doc.eid_to_entity.items()}, {e.eid: id(e) for e in entities}, 'index-dict')
        number += len(entities)
        want = snapshot_by_eid(doc)
        again = Document()
        again.from_conllu_string(doc.to_conllu_string())
        equal(snapshot_by_eid(again), want, 'index-stored')


def snapshot_by_eid(doc):
    return {e.eid: (e.etype or '', [(m.words[0].root.bundle.number, m.span, str(m.head.ord), sorted((b.target.eid, b.relation) for b in m.bridging)) for m in e.mentions], [x.eid for x in e.split_ante])
            for e in doc.coref_entities}


# ---------------------------------------------------------------- FixEntityAcrossNewdoc, RemoveNoCorefEntities

SENT = (), ('e1',), ('e2',), ('e1', 'e2'), ('e1', 'e1')


def run_newdoc(shard, rec):
    for patterns in itertools.product(SENT, repeat=3):
        for third in ((None, True) if len(shard['first']) == 2 else ()):
            for fields in ('eid-etype-head-other', 'eid-etype-head'):
                rec.run({'kind': 'newdoc', 'patterns': patterns, 'newdocs': [shard['first'][0], shard['first'][1], third], 'fields': fields})
    for patterns in itertools.product((('e1',), ('e2',), ('e1', 'e2')), repeat=3):
        rec.run({'kind': 'newdoc', 'patterns': patterns, 'newdocs': [shard['first'][0], shard['first'][1], 'third'], 'fields': 'eid-etype-head-other', 'links': 1})


def case_newdoc(case, rec):
    from udapi.core.document import Document
    from udapi.block.corefud.fixentityacrossnewdoc import FixEntityAcrossNewdoc
    for loaded in (0, 1):
        doc, all_nodes = None, []
        for pattern, newdoc in zip(case['patterns'], case['newdocs']):
            doc, root, nodes, _ = make(2, [[eid, [i], i] for i, eid in enumerate(pattern)], doc=doc)
            root.newdoc = newdoc
            all_nodes.append(nodes)
        doc.meta['global.Entity'] = case['fields']
        number, numbers = 0, []
        for i, newdoc in enumerate(case['newdocs']):
            number += 1 if newdoc and i else 0
            numbers.append(number)
        bridges = set()
        if case.get('links'):
            for s, pattern in enumerate(case['patterns']):
                if len(pattern) == 2:
                    mention = all_nodes[s][0].coref_mentions[0]
                    mention.bridging.append((doc.eid_to_entity['e2'], 'part'))
                    bridges.add((s, 'e2'))
        if loaded:
            text = doc.to_conllu_string()
            doc = Document()
            doc.from_conllu_string(text)
            all_nodes = [list(tree.descendants_and_empty) for tree in doc.trees]
        apply(FixEntityAcrossNewdoc(), doc)
        equal(doc.meta['global.Entity'], case['fields'] if any(case['patterns']) else doc.meta['global.Entity'], 'newdoc-global-entity')
        check_newdoc(doc, all_nodes, case, numbers, bridges)
        again = Document()
        again.from_conllu_string(doc.to_conllu_string())
        check_newdoc(again, [list(tree.descendants_and_empty) for tree in again.trees], case, numbers, bridges)
        rec.step()


def check_newdoc(doc, all_nodes, case, numbers, bridges):
    check_backlinks(doc, [n for nodes in all_nodes for n in nodes])
    names = {}
    for s, (pattern, nodes) in enumerate(zip(case['patterns'], all_nodes)):
        for i, node in enumerate(nodes):
            got = [m.entity.eid for m in node.coref_mentions]
            equal(len(got), 1 if i < len(pattern) else 0, 'newdoc-mentions')
            for eid in got:
                names.setdefault((numbers[s], pattern[i]), set()).add(eid)
                require(eid.endswith('.' + pattern[i]), 'newdoc-eid', eid)
                for m in node.coref_mentions:
                    equal([b.target.eid.rpartition('.')[2] for b in m.bridging], [e for t, e in bridges if t == s and i == 0], 'newdoc-bridges')
                    for b in m.bridging:
                        equal(b.target.eid.split('.')[0], eid.split('.')[0], 'newdoc-bridge-doc')
    require(all(len(v) == 1 for v in names.values()), 'newdoc-split', names)
    equal(len(set.union(set(), *names.values())), len(names), 'newdoc-not-unique', names)
    equal(len(doc.coref_entities), len(names), 'newdoc-entities')
    prefixes = {}
    for (number, _), eids in names.items():
        prefixes.setdefault(number, set()).update(e.split('.')[0] for e in eids)
    require(all(len(v) == 1 for v in prefixes.values()), 'newdoc-prefix', prefixes)


def run_nocoref(shard, rec):
    names = ('e1', 'NOCOREF', 'NOCOREFperson', 'xNOCOREF', 'nocoref')
    for first in itertools.product(names, repeat=2):
        for second in itertools.product(names, repeat=2):
            for links in (0, 1, 2):
                rec.run({'kind': 'nocoref', 'eids': first + second, 'links': links})


def case_nocoref(case, rec):
    from udapi.core.document import Document
    from udapi.block.corefud.removenocorefentities import RemoveNoCorefEntities
    eids = case['eids']
    doc, root, one, _ = make(2, [[eids[0], [0], 0], [eids[1], [1], 1]])
    doc, root, two, _ = make(3, [[eids[2], [0, 1], 1], [eids[3], [1, 2], 1]], doc=doc)
    entities = doc.coref_entities
    if case['links'] == 1 and len(entities) > 1:
        entities[0].mentions[0].bridging.append((entities[1], 'part'))
        entities[1].mentions[0].bridging.append((entities[0], 'x'))
    if case['links'] == 2 and len(entities) > 2:
        entities[0].split_ante = entities[1:3]
    apply(RemoveNoCorefEntities(), doc)
    good = {e for e in eids if not e.startswith('NOCOREF')}
    equal({e.eid for e in doc.coref_entities}, good, 'nocoref-entities')
    check_backlinks(doc, one + two)
    equal(len(doc.coref_mentions), sum(1 for e in eids if e in good), 'nocoref-mentions')
    want = snapshot_by_eid(doc)
    again = Document()
    again.from_conllu_string(doc.to_conllu_string())
    got = snapshot_by_eid(again)
    equal(set(got), good, 'nocoref-stored')
    equal([v[1][0][:3] for v in got.values()], [want[k][1][0][:3] for k in got], 'nocoref-stored-mentions')
    for eid, (etype, mentions, split) in got.items():
        require(set(split) <= good and all(t in good for m in mentions for t, _ in m[3]), 'nocoref-links', got)
        wanted = [sorted((t, r) for t, r in m[3] if t in good) for m in want[eid][1]]
        equal([m[3] for m in mentions], wanted, 'nocoref-bridges')
    if case['links'] == 2 and len(entities) > 2:
        kept = [e.eid for e in entities[1:3]]
        if entities[0].eid in good and set(kept) <= good:
            equal(sorted(got[entities[0].eid][2]), sorted(kept), 'nocoref-split')


# ---------------------------------------------------------------- FixParentheses

def run_parens(shard, rec):
    n, first = shard['n'], shard['first']
    for rest in itertools.product(PARENS, repeat=n - 1):
        lemmas = [first] + list(rest)
        if set(lemmas) == {'a'}:
            continue
        for gap in range(-1, n):
            total = n + (gap >= 0)
            pool = intervals(total) if gap >= 0 or n > 3 else subsets(total)
            for span in pool:
                for mark in (True, False):
                    rec.run({'kind': 'parens', 'lemmas': lemmas, 'gap': gap, 'span': span, 'mark': mark})


def case_parens(case, rec):
    from udapi.core.document import Document
    from udapi.block.corefud.fixparentheses import FixParentheses
    doc = Document()
    root = doc.create_bundle().create_tree()
    words = [root.create_child(form=l, lemma=l) for l in case['lemmas']]
    nodes = list(words)
    if case['gap'] >= 0:
        empty = words[case['gap']].create_empty_child('dep', after=True)
        empty.form = empty.lemma = 'E'
        nodes.insert(case['gap'] + 1, empty)
    members = [nodes[i] for i in case['span']]
    entity = doc.create_coref_entity('e1')
    mention = entity.create_mention(words=members, head=members[-1])
    if len(nodes) > 1 and nodes[1].lemma in ('a', 'E'):
        entity.create_mention(words=[nodes[1]], head=nodes[1])
    apply(FixParentheses(mark=case['mark']), doc)
    check_backlinks(doc, nodes)
    got = [i for i, node in enumerate(nodes) if any(node is w for w in mention.words)]
    inside = [node.lemma for node in members]
    added = []
    for opening, closing in ('()', '[]'):
        span = [node for node in nodes if any(node is m for m in members + added)]
        start, end = span[0], span[-1]
        number = words.index(end) if end in words else None
        if opening in inside and closing not in inside:
            if number is not None and number + 1 < len(words) and words[number + 1].lemma == closing:
                added.append(words[number + 1])
        elif closing in inside and opening not in inside:
            number = words.index(start) if start in words else None
            if number and words[number - 1].lemma == opening:
                added.append(words[number - 1])
    want = sorted(case['span'] + [nodes.index(a) for a in added])
    equal(got, want, 'fixparentheses', [node.lemma for node in mention.words])
    require(mention.head is members[-1], 'fixparentheses-head')
    marked = [node for node in nodes if node.misc['Mark']]
    equal([id(m) for m in marked], [id(n) for n in nodes if any(n is a for a in added)] if case['mark'] else [], 'fixparentheses-mark')


# ---------------------------------------------------------------- FixToValidate

def run_validate(shard, rec):
    n = shard['n']
    for heads in trees.head_vectors(n) if n else [()]:
        for deprels in itertools.product(('root', 'x'), repeat=n):
            for upos in itertools.product(('PUNCT', 'CCONJ', 'ADJ', 'NOUN', 'PROPN', 'VERB') if n < 3 else ('PUNCT', 'CCONJ', 'NOUN', 'VERB'), repeat=n):
                rec.run({'kind': 'validate', 'heads': heads, 'deprels': deprels, 'upos': upos})
    for follow in itertools.product((0, 1), repeat=3):
        for second in (0, 1):
            rec.run({'kind': 'spaces', 'n': n, 'newdoc': follow[0], 'newpar': follow[1], 'space': follow[2], 'second': second})


def case_validate(case, rec):
    from udapi.block.corefud.fixtovalidate import FixToValidate
    from udapi.core.document import Document
    heads, deprels, upos = case['heads'], case['deprels'], case['upos']
    doc = Document()
    root = doc.create_bundle().create_tree()
    nodes = trees.build_into(root, heads)
    for i, node in enumerate(nodes[1:]):
        node.deprel, node.upos = deprels[i], upos[i]
    apply(FixToValidate(), doc)
    trees.check_tree(root, nodes[1:])
    for i, node in enumerate(nodes[1:]):
        old = heads[i]
        require((node.deprel == 'root') == (node.parent is root), 'validate-root', f'{node.form} {node.deprel} of {node.parent.form}')
        if not old:
            require(node.parent is root, 'validate-moved-root')
        elif deprels[i] != 'root':
            require(node.parent is nodes[old] and node.deprel == deprels[i], 'validate-changed', node.form)
        else:
            # children of punctuation are moved to its parent, unless it is the artificial root
            higher = []
            while heads[old - 1] and (not higher or upos[higher[-1] - 1] == 'PUNCT'):
                higher.append(heads[old - 1])
                old = heads[old - 1]
            old = heads[i]
            if upos[old - 1] != 'PUNCT' or not heads[old - 1]:
                require(node.parent is nodes[old], 'validate-moved', node.form)
            else:
                require(any(node.parent is nodes[k] for k in higher), 'validate-parent', node.form)
            pair = (upos[i], upos[old - 1])
            equal(node.deprel, 'cc' if pair[0] == 'CCONJ' else 'amod' if pair == ('ADJ', 'PROPN') else 'obl' if pair == ('NOUN', 'VERB') else 'parataxis', 'validate-deprel', node.form)
        equal(node.upos, upos[i], 'validate-upos')


def case_spaces(case, rec):
    from udapi.block.corefud.fixtovalidate import FixToValidate
    from udapi.core.document import Document
    doc = Document()
    first = doc.create_bundle().create_tree()
    nodes = trees.build_into(first, tuple([0] * case['n']))[1:]
    for node in nodes:
        if case['space']:
            node.misc['SpaceAfter'] = 'No'
        node.deprel = 'root'
    second = doc.create_bundle().create_tree()
    if case['second']:
        second.create_child(form='x', deprel='root').misc['SpaceAfter'] = 'No'
    second.newdoc = 'd' if case['newdoc'] else None
    second.newpar = True if case['newpar'] else None
    third = doc.create_bundle().create_tree()
    third.newpar = True
    apply(FixToValidate(), doc)
    for i, node in enumerate(nodes):
        last = i == len(nodes) - 1 and (case['newdoc'] or case['newpar'] or not case['second'])
        if last and not case['second'] and not (case['newdoc'] or case['newpar']):
            continue      # the last word before the paragraph, but in an earlier sentence
        equal(node.no_space_after, bool(case['space']) and not last, 'validate-space', i)
    for node in second.descendants:
        equal(node.no_space_after, False, 'validate-space-second')
