"""Plain-data model of coreference annotation, an independent serializer and parser of the CorefUD Entity/Bridge/SplitAnte attributes.

A mention is a dict: eid, items (sorted positions in `ids` of its sentence), sent, head (a position), other (dict), bridging [(eid, relation)].
"""
import re

CHUNK = re.compile(r'\([^()]+\)|\([^()]+|[^()]+\)')


def runs(items):
    result = []
    for i in sorted(items):
        if result and result[-1][1] == i - 1:
            result[-1][1] = i
        else:
            result.append([i, i])
    return result


def same_entity_conflict(one, two):
    """Two mentions (sets of positions) of one entity which the format cannot express."""
    one, two = runs(one), runs(two)
    if any(r in two for r in one):
        return True
    if len(one) == 1 and len(two) == 1:
        (a, b), (c, d) = one[0], two[0]
        low, high = max(a, c), min(b, d)
        nested = (a <= c and d <= b) or (c <= a and b <= d)
        return low < high and not nested
    for outer, inner in ((one, two), (two, one)):
        low, high = inner[0][0], inner[-1][1]
        if high < outer[0][0] or low > outer[-1][1]:
            return False
        if any(a <= low and (high < b or (high == b and len(inner) == 1)) for a, b in outer):
            return False
        if any(a[1] < low and high < b[0] for a, b in zip(outer, outer[1:])):
            return False
    return True


def parse(sentences, fields):
    """sentences: list of lists of (id, misc dict). Return mentions, Bridge and SplitAnte pairs."""
    mentions, links, splits = [], [], []
    for s, nodes in enumerate(sentences):
        opened, partial = {}, {}
        order = []
        for pos, (_, misc) in enumerate(nodes):
            text = misc.get('Entity', '')
            chunks = CHUNK.findall(text)
            assert ''.join(chunks) == text, text
            seen_opening = False
            for chunk in chunks:
                if chunk[0] == '(':
                    seen_opening = seen_opening or chunk[-1] != ')'
                    values = dict(zip(fields, chunk.strip('()').split('-')))
                    eid = values.pop('eid', None) or values.pop('GRP')
                    part, total = 1, 1
                    found = re.match(r'(.*)\[(\d+)/(\d+)\]$', eid)
                    if found:
                        eid, part, total = found.group(1), int(found.group(2)), int(found.group(3))
                    if part == 1:
                        mention = {'eid': eid, 'sent': s, 'items': [], 'values': values, 'total': total}
                        mentions.append(mention)
                        order.append(mention)
                        if total > 1:
                            partial.setdefault(eid, []).append(mention)
                    else:
                        mention = [m for m in partial[eid] if m['part'] == part - 1][-1]
                        assert mention['total'] == total
                    mention['part'] = part
                    mention['values'] = values
                    opened.setdefault((eid, part if found else 0, total if found else 0), []).append((mention, pos))
                    if chunk[-1] != ')':
                        continue
                    key = (eid, part if found else 0, total if found else 0)
                else:
                    assert not seen_opening, f'closing after opening in {text}'
                    found = re.match(r'(.*)\[(\d+)/(\d+)\]$', chunk[:-1])
                    key = (found.group(1), int(found.group(2)), int(found.group(3))) if found else (chunk[:-1], 0, 0)
                mention, start = opened[key].pop()
                mention['items'] += range(start, pos + 1)
            for link in misc.get('Bridge', '').split(','):
                if link:
                    target, source = link.split('<')
                    source, _, relation = source.partition(':')
                    links.append((s, pos, source, target, relation))
            for link in misc.get('SplitAnte', '').split(','):
                if link:
                    ante, this = link.split('<')
                    splits.append((this, ante))
        assert not any(opened.values()), opened
    return mentions, links, splits


def serialize(mentions, n, permute=None):
    """Entity attributes of one sentence with n nodes: closings before openings, otherwise any order given by `permute`.

    Returns a list of lists of alternatives (each a list of chunk strings) per node.
    """
    import itertools
    result = []
    for pos in range(n):
        closing, opening, single = [], [], []
        for number, m in enumerate(mentions):
            parts = runs(m['items'])
            for k, (a, b) in enumerate(parts, 1):
                index = f'[{k}/{len(parts)}]' if len(parts) > 1 else ''
                full = f"({m['eid']}{index}-{m.get('etype', '')}-{m['items'].index(m['head']) + 1}"
                if a == b == pos:
                    single.append((0, m['eid'], '', full + ')'))
                elif a == pos:
                    opening.append((b - a, m['eid'], 'open', full))
                elif b == pos:
                    closing.append((b - a, m['eid'], 'close', f"{m['eid']}{index})"))
        variants = []
        for order in itertools.permutations(closing + opening + single):
            good = True
            for x, y in itertools.combinations(order, 2):
                if x[2] == 'open' and y[2] == 'close':
                    good = False      # Rule1
                if x[1] == y[1] and x[2] == y[2] == 'open' and x[0] < y[0]:
                    good = False      # Rule2 (only needed within one entity)
                if x[1] == y[1] and x[2] == y[2] == 'close' and x[0] > y[0]:
                    good = False
                if x[1] == y[1] and '' in (x[2], y[2]) and not (x[2] == 'open' or y[2] == 'close'):
                    good = False      # a single-word chunk of the same entity stays nested
            if good:
                variants.append(''.join(o[3] for o in order))
        result.append(variants)
    return result


def observe(doc):
    """Plain data of the coreference in a real document."""
    def place(node):
        return (tree_number[node.root], str(node.ord))
    tree_number = {tree: i for i, tree in enumerate(doc.trees)}
    result = {}
    for eid, entity in doc.eid_to_entity.items():
        mentions = []
        for m in entity.mentions:
            mentions.append(([place(w) for w in m.words], place(m.head), dict(m.other),
                             sorted((b.target.eid, b.relation) for b in m.bridging)))
        result[eid] = (entity.etype or '', mentions, [e.eid for e in entity.split_ante])
    return result
