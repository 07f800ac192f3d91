"""C14: navigation in trees and documents vs. the definitions, on all trees up to the bound."""
import itertools

from mc.core import require, equal
from mc import trees

TITLE = ('All dependency trees up to the bound: every navigation property and method for every word (and pair, triple of words) vs. its definition by '
         'brute force over the head vector; word-order comparison across trees and zones; relation parts')
ASSUMPTIONS = ['following_only and preceding_only are not combined']


def BOUNDS(tier):
    big = tier != 'quick'
    return {'words': 6 if big else 5, 'long_trees_words': '12 (typical shapes with any one word re-attached)', 'treelet_words': 6 if big else 5, 'treelet_nodes': 4 if big else 3, 'documents': '3 bundles x 2 zones'}


def shards(tier):
    bounds = BOUNDS(tier)
    result = []
    for n in range(0, bounds['words'] + 1):
        count = len(trees.head_vectors(n)) if n else 1
        result += [{'kind': 'tree', 'n': n, 'from': i, 'to': i + 200} for i in range(0, count, 200)]
        if n:
            result += [{'kind': 'treelet', 'n': n, 'from': i, 'to': i + 200, 'max': bounds['treelet_nodes']} for i in range(0, count, 200)]
    long = [{'kind': kind, 'n': 12, 'from': i, 'to': i + 100, 'max': 2} for i in range(0, len(trees.near_long_trees()), 100) for kind in ('tree', 'treelet')]
    return long + result[::-1] + [{'kind': 'document'}, {'kind': 'deprel'}]


def run_shard(shard, rec):
    kind = shard['kind']
    if kind in ('tree', 'treelet'):
        n = shard['n']
        for heads in (trees.near_long_trees() if n == 12 else trees.head_vectors(n) if n else [()])[shard['from']:shard['to']]:
            rec.run({'kind': kind, 'heads': heads, 'max': shard.get('max')})
    elif kind == 'document':
        for zones in itertools.product(['a', 'b', 'ab', 'ba', ''], repeat=3):
            rec.run({'kind': kind, 'zones': zones})
        # the order of sentences does not depend on their ids
        for ids in itertools.product(['2', '11', 'x', 'X/', '2'], repeat=3):
            rec.run({'kind': kind, 'zones': ['', 'a', ''], 'ids': ids})
            rec.run({'kind': kind, 'zones': ['ab', 'a', 'b'], 'ids': ids})
    else:
        for deprel in (None, '', 'a', 'a:b', 'a:b:c', ':b', 'a:'):
            for oper in ('read', 'u', 's'):
                for value in ((None,) if oper == 'read' else (None, '', 'x', 'x:y') if oper == 's' else ('', 'x')):
                    rec.run({'kind': kind, 'deprel': deprel, 'oper': oper, 'value': value})


def run_case(case, rec):
    globals()['case_' + case['kind']](case, rec)
    rec.trace()
    rec.state(str(case))


def below(heads):
    """node -> set of proper descendants"""
    result = {i: set() for i in range(len(heads) + 1)}
    for i in range(1, len(heads) + 1):
        climb = i
        while climb:
            climb = heads[climb - 1]
            result[climb].add(i)
    return result


def case_tree(case, rec):
    heads = case['heads']
    n = len(heads)
    nodes = trees.build(heads, in_doc=True)
    root = nodes[0]
    for i, node in enumerate(nodes[1:], 1):
        node.feats['F'] = str(i)
        node.misc = f'A={i}|B'
    under = below(heads)
    ords = lambda found: [x.ord for x in found]
    where = str(heads)
    equal([x.ord for x in root.descendants], list(range(1, n + 1)), 'root-descendants', where)
    equal(root.is_root(), True, 'is_root', where)
    for i, node in enumerate(nodes):
        spot = f'{heads} node {i}'
        children = [c for c in range(1, n + 1) if heads[c - 1] == i]
        descendants = sorted(under[i])
        siblings = [c for c in range(1, n + 1) if i and c != i and heads[c - 1] == heads[i - 1]]
        for name, want in (('children', children), ('descendants', descendants)) + ((('siblings', siblings),) if i else ()):
            variants = [({}, want), ({'add_self': True}, sorted(want + [i])), ({'following_only': True}, [x for x in want if x > i]),
                        ({'preceding_only': True}, [x for x in want if x < i]),
                        ({'following_only': True, 'add_self': True}, sorted([i] + [x for x in want if x > i])),
                        ({'preceding_only': True, 'add_self': True}, [x for x in want if x < i] + [i])]
            equal(ords(getattr(node, name)), want, name, spot)
            for args, expected in variants:
                equal(ords(getattr(node, name)(**args)), expected, f'{name}-{"-".join(args) or "call"}', spot)
                rec.step()
            # the results are copies
            found = getattr(node, name)
            found.append('garbage')
            equal(ords(getattr(node, name)), want, f'{name}-aliased', spot)
        equal(sorted(ords(node.unordered_descendants())), descendants, 'unordered_descendants', spot)
        equal(node.is_leaf(), not children, 'is_leaf', spot)
        equal(node.is_root(), i == 0, 'is_root', spot)
        equal(node.is_empty(), False, 'is_empty', spot)
        require(node.root is root, 'root', spot)
        equal(node.prev_node and node.prev_node.ord, i - 1 if i else None, 'prev_node', spot)
        equal(node.next_node and node.next_node.ord, i + 1 if i < n else None, 'next_node', spot)
        for j, other in enumerate(nodes):
            equal(node.is_descendant_of(other), i in under[j], 'is_descendant_of', f'{spot} {j}')
            equal(node.precedes(other), i < j, 'precedes', f'{spot} {j}')
            equal(node < other, i < j, 'less-than', f'{spot} {j}')
            rec.step(3)
        if i:
            require(node.parent is nodes[heads[i - 1]], 'parent', spot)
            equal(node.address(), f'1#{i}', 'address', spot)
            depth, climb = 0, i
            while climb:
                depth, climb = depth + 1, heads[climb - 1]
            head = heads[i - 1]
            direction = 'root' if head == 0 else 'left' if i < head else 'right'
            got = node.get_attrs(['dir', 'edge', 'children', 'siblings', 'depth', 'form', 'feats[F]', 'misc[A]', 'feats', 'ord'])
            want = [direction, str(i - head if head else 0), str(len(children)), str(len(siblings)), str(depth), trees.LABELS[i - 1], str(i), str(i), f'F={i}',
                    str(i)]
            equal(got, want, 'get_attrs', spot)
            got = node.get_attrs(['p_form', 'c_form', 'l_form', 'r_form', 'misc_split', 'c_feats[F]', 'p_depth', 'c_edge'], undefs='?', stringify=False)
            label = lambda k: '<ROOT>' if k == 0 else trees.LABELS[k - 1]
            want = [label(head)] + [label(c) for c in children] + [label(i - 1)] + ([label(i + 1)] if i < n else [])
            want += [f'A={i}', 'B'] + [str(c) for c in children] + [depth - 1] + [c - i for c in children]
            equal(got, want, 'get_attrs-relatives', spot)
            equal(node.get_attrs(['xpos'], undefs='?'), ['?'], 'get_attrs-undefs', spot)
            equal(node.get_attrs(['xpos', 'form']), [None, trees.LABELS[i - 1]], 'get_attrs-undefined', spot)
            rec.step(4)


def case_treelet(case, rec):
    from udapi.core.node import find_minimal_common_treelet
    heads = case['heads']
    n = len(heads)
    nodes = trees.build(heads)
    above = {}
    for i in range(n + 1):
        chain, climb = [i], i
        while climb:
            climb = heads[climb - 1]
            chain.append(climb)
        above[i] = chain
    for size in range(1, case['max'] + 1):
        for chosen in itertools.permutations(range(n + 1), size):
            common = set(above[chosen[0]])
            for i in chosen[1:]:
                common &= set(above[i])
            highest = max(common, key=lambda i: len(above[i]))
            treelet = set()
            for i in chosen:
                for x in above[i]:
                    treelet.add(x)
                    if x == highest:
                        break
            top, added = find_minimal_common_treelet(*[nodes[i] for i in chosen])
            added = sorted(x.ord for x in added)
            require(top is nodes[highest] and added == sorted(treelet - set(chosen)), 'treelet',
                    lambda: f'{heads} {chosen}: got {top.ord} {added}, want {highest} {sorted(treelet - set(chosen))}')
            rec.step()


def case_document(case, rec):
    from udapi.core.document import Document
    from mc.core import raises
    doc = Document()
    found = []
    for number, zones in enumerate(case['zones']):
        bundle = doc.create_bundle()
        for zone in zones or ['']:
            tree = bundle.create_tree(zone=zone)
            for i in range(2):
                found.append((zone, number, i, tree.create_child(form=f'{zone}{number}{i}')))
            equal(found[-1][3].address(), f'{number + 1}{"/" + zone if zone else ""}#2', 'address', str(case))
    for bundle, name in zip(doc.bundles, case.get('ids', ())):
        bundle.bundle_id = name
    equal([n.form for n in doc.nodes], [f[3].form for f in found], 'doc-nodes', str(case))
    equal([t.zone for t in doc.trees], [z for zones in case['zones'] for z in (zones or [''])], 'doc-trees', str(case))
    for one, two in itertools.product(found, repeat=2):
        if one[0] == two[0]:
            equal(one[3].precedes(two[3]), one[1:3] < two[1:3], 'precedes-across-trees', f'{case} {one} {two}')
        else:
            require(isinstance(raises(one[3].precedes, two[3]), ValueError), 'precedes-across-zones', f'{case} {one} {two}')
        rec.step()
    other = Document().create_bundle().create_tree(zone=found[0][0]).create_child(form='x')
    require(isinstance(raises(found[0][3].precedes, other), ValueError), 'precedes-across-documents', str(case))


def case_deprel(case, rec):
    nodes = trees.build((0,))
    node = nodes[1]
    deprel, oper, value = case['deprel'], case['oper'], case['value']
    node.deprel = deprel
    universal, specific = (None, None) if deprel is None else deprel.partition(':')[::2]
    equal((node.udeprel, node.sdeprel), (universal, specific), 'read', str(case))
    rec.step()
    if oper == 'u':
        node.udeprel = value
        equal(node.deprel, value + ':' + specific if specific else value, 'set-udeprel', str(case))
    elif oper == 's' and deprel is not None:
        node.sdeprel = value
        equal(node.deprel, universal + ':' + value if value else universal, 'set-sdeprel', str(case))
