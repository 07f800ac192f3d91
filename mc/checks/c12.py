"""C12: spans (strings such as 3-5,6,7.1) and sets of nodes are inverse to each other."""
import itertools

from mc.core import require, equal, raises
from mc import trees

TITLE = ('All non-empty sets of words and empty nodes of small sentences (all placements of the empty nodes) <-> span strings, all '
         'span strings with up to three ranges, and mention.span, vs. an independent definition over the node sequence')
ASSUMPTIONS = ['ids in a span string are not longer than the sentence (open-ended ranges are explored separately)']


def BOUNDS(tier):
    return {'nodes_incl_empty': 7 if tier == 'quick' else 9, 'long': '12 empty nodes in one place; 12 words', 'ranges': 3}


def layouts(size):
    """(number of words, number of empty nodes in each gap) with the given total."""
    for words in range(1, size + 1):
        for gaps in itertools.product(range(size - words + 1), repeat=words + 1):
            if sum(gaps) == size - words:
                yield [words, list(gaps)]


def shards(tier):
    result = [{'layout': l} for size in range(1, BOUNDS(tier)['nodes_incl_empty'] + 1) for l in layouts(size)]
    for gaps in ([12, 0, 0], [0, 12, 0], [0, 11, 2], [1, 0, 12]):
        result.append({'layout': [2, gaps], 'intervals': 1})
    for gaps in ([0] * 13, [0] * 9 + [1, 1, 0, 1]):
        result.append({'layout': [12, gaps], 'intervals': 1})
    # big shards first
    return result[::-1]


def ids_of(layout):
    words, gaps = layout
    ids = [f'0.{k}' for k in range(1, gaps[0] + 1)]
    for w in range(1, words + 1):
        ids.append(str(w))
        ids += [f'{w}.{k}' for k in range(1, gaps[w] + 1)]
    return ids


def run_shard(shard, rec):
    layout = shard['layout']
    n = len(ids_of(layout))
    if shard.get('intervals'):
        cuts = list(itertools.combinations(range(n + 1), 2))
        for one in cuts:
            rec.run({'layout': layout, 'set': list(range(*one))})
        for one, two in itertools.combinations(cuts, 2):
            if one[1] < two[0]:
                rec.run({'layout': layout, 'set': [*range(*one), *range(*two)]})
                rec.run({'layout': layout, 'ranges': [list(two), list(one)]})
        return
    for size in range(1, n + 1):
        for subset in itertools.combinations(range(n), size):
            rec.run({'layout': layout, 'set': list(subset)})
    if n <= 5:
        cuts = list(itertools.combinations(range(n + 1), 2))
        for k in (1, 2, 3):
            for ranges in itertools.product(cuts, repeat=k):
                rec.run({'layout': layout, 'ranges': [list(r) for r in ranges]})
        rec.run({'layout': layout, 'outside': 1})


def make(layout):
    from udapi.core.document import Document
    words, gaps = layout
    doc = Document()
    root = doc.create_bundle().create_tree()
    nodes = [root.create_child(form=f'w{i}') for i in range(1, words + 1)]
    order = []
    for k in range(gaps[0]):
        order.append(nodes[0].create_empty_child('dep', after=False) if not order else order[-1].create_empty_child('dep'))
    for node, count in zip(nodes, gaps[1:]):
        order.append(node)
        for _ in range(count):
            order.append(order[-1].create_empty_child('dep'))
    return doc, root, order


def span_of(ids, subset):
    """Maximal runs of the sequence of all nodes."""
    runs = []
    for i in sorted(subset):
        if runs and runs[-1][1] == i - 1:
            runs[-1][1] = i
        else:
            runs.append([i, i])
    return ','.join(ids[a] if a == b else f'{ids[a]}-{ids[b]}' for a, b in runs)


def run_case(case, rec):
    from udapi.core.coref import nodes_to_span, span_to_nodes
    layout = case['layout']
    ids = ids_of(layout)
    doc, root, order = make(layout)
    equal([str(n.ord) for n in order], ids, 'ids', str(layout))
    if 'outside' in case:
        last = layout[0]
        require(span_to_nodes(root, f'{last + 1}-{last + 5}') == [], 'span-behind-the-end', str(layout))
        equal(span_to_nodes(root, f'0-{last + 5}'), order, 'open-range', str(layout))
        require(isinstance(raises(span_to_nodes, root, 'x'), ValueError), 'invalid-span-accepted', '')
        return
    if 'ranges' in case:
        ranges = case['ranges']
        span = ','.join(ids[a] if b == a + 1 else f'{ids[a]}-{ids[b - 1]}' for a, b in ranges)
        want = [order[i] for i in range(len(ids)) if any(a <= i < b for a, b in ranges)]
        got = span_to_nodes(root, span)
        require(len(got) == len(want) and all(g is w for g, w in zip(got, want)), 'span_to_nodes',
                lambda: f'{ids} {span}: {[str(n.ord) for n in got]}')
        rec.step()
        rec.trace()
        rec.state((tuple(ids), span))
        return
    subset = case['set']
    want = span_of(ids, subset)
    nodes = [order[i] for i in subset]
    orders = [nodes, nodes[::-1], nodes[1::2] + nodes[::2]]
    for given in orders:
        equal(nodes_to_span(given), want, 'nodes_to_span', f'{ids} {subset}')
        rec.step()
    got = span_to_nodes(root, want)
    require(len(got) == len(nodes) and all(g is w for g, w in zip(got, nodes)), 'span_to_nodes',
            lambda: f'{ids} {want}: {[str(n.ord) for n in got]}')
    # the same via a mention
    entity = doc.create_coref_entity('e1')
    head = nodes[len(nodes) // 2]
    mention = entity.create_mention(head=head, words=nodes[::-1])
    equal(mention.span, want, 'mention-span', f'{ids} {subset}')
    other = doc.create_coref_entity('e2').create_mention(head=head, span=want)
    require(len(other.words) == len(nodes) and all(g is w for g, w in zip(other.words, nodes)), 'mention-words',
            lambda: f'{ids} {want}: {other.words}')
    mention.span = str(head.ord)
    require(mention.words == [head], 'mention-span-set', lambda: f'{ids} {mention.words}')
    mention.span = want
    require(mention.words == nodes, 'mention-span-set', lambda: f'{ids} {want} {mention.words}')
    for node in order:
        require(len(node.coref_mentions) == (2 if node in nodes else 0), 'word-mention-links', lambda: f'{ids} {subset} {node}')
    rec.step(5)
    rec.trace()
    rec.state((tuple(ids), want))
