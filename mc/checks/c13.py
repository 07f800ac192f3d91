"""C13: projectivity: the two predicates, projectivization and deprojectivization, on all trees up to the bound."""
import itertools

from mc.core import require, equal
from mc import trees

TITLE = ('All dependency trees up to the bound: is_nonprojective and is_nonprojective_gap of every word vs. their definitions; transform.Proj '
         '(both lifting orders, both label styles), transform.Deproj and transform.Flatten vs. their specifications')
ASSUMPTIONS = ['Deproj is only required to restore trees in which one word was lifted and all relations differ (it is a heuristic)']


def BOUNDS(tier):
    return {'words': 6 if tier == 'quick' else 7, 'long_trees_words': '12 (typical shapes with any one word re-attached)', 'deproj_words': 4 if tier == 'quick' else 5}


def shards(tier):
    result = []
    for n in range(1, BOUNDS(tier)['words'] + 1):
        count = len(trees.head_vectors(n))
        step = 400
        result += [{'n': n, 'from': i, 'to': min(count, i + step)} for i in range(0, count, step)]
    result = result[::-1] + [{'n': 12, 'from': i, 'to': i + 100} for i in range(0, len(trees.near_long_trees()), 100)] + [{'n': 0, 'from': 0, 'to': 1}]
    for n in range(1, BOUNDS(tier)['deproj_words'] + 1):
        count = len(trees.head_vectors(n))
        result += [{'n': n, 'from': i, 'to': min(count, i + 50), 'deproj': 1} for i in range(0, count, 50)]
    return result


def run_shard(shard, rec):
    if 'deproj' in shard:
        for heads in trees.head_vectors(shard['n'])[shard['from']:shard['to']]:
            for deprels in itertools.product('xy', repeat=shard['n']):
                rec.run({'heads': heads, 'block': 'deproj', 'deprels': deprels})
        return
    for heads in (trees.near_long_trees() if shard['n'] == 12 else trees.head_vectors(shard['n']))[shard['from']:shard['to']]:
        rec.run({'heads': heads, 'block': None})
        if trees.shape is not None:
            for order in ('deepest', 'shortest'):
                for label in ('misc', 'deprel'):
                    rec.run({'heads': heads, 'block': [order, label]})
        rec.run({'heads': heads, 'block': 'flatten'})
        rec.run({'heads': heads, 'block': 'root.flatten'})


def dominated(heads, node):
    result = {node}
    changed = True
    while changed:
        changed = False
        for i, h in enumerate(heads, 1):
            if h in result and i not in result:
                result.add(i)
                changed = True
    return result


def nonprojective(heads, node):
    parent = heads[node - 1]
    if parent == 0:
        return False
    below = dominated(heads, parent)
    return any(x not in below for x in range(min(node, parent) + 1, max(node, parent)))


def gap(heads, node):
    for x in range(1, len(heads) + 1):
        span = dominated(heads, x)
        if node not in span and min(span) < node < max(span):
            return True
    return False


def ancestors(heads, node):
    result = []
    while node:
        node = heads[node - 1]
        result.append(node)
    return result


def make(heads):
    nodes = trees.build(heads, in_doc=True)
    for i, node in enumerate(nodes[1:], 1):
        node.deprel = f'r{i}' + (':s' if i % 2 else '')
        node.misc['M'] = str(i)
    return nodes


def run_case(case, rec):
    heads = case['heads']
    n = len(heads)
    nodes = make(heads)
    root = nodes[0]
    rec.state(str(case))
    if case['block'] is None:
        for i in range(1, n + 1):
            equal(nodes[i].is_nonprojective(), nonprojective(heads, i), 'is_nonprojective', f'{heads} {i}')
            equal(nodes[i].is_nonprojective_gap(), gap(heads, i), 'is_nonprojective_gap', f'{heads} {i}')
            rec.step(2)
        equal(root.is_nonprojective(), False, 'is_nonprojective-root', f'{heads}')
        equal(root.is_nonprojective_gap(), False, 'is_nonprojective_gap-root', f'{heads}')
        rec.trace()
        return
    if case['block'] == 'flatten':
        from udapi.block.transform.flatten import Flatten
        for one in (False, True):
            Flatten(oneroot=one).process_tree(root)
            rec.step()
            want = [0] + [1 if one else 0] * (n - 1) if n else []
            equal([x.parent.ord for x in nodes[1:]], want, 'flatten', f'{heads} {one}')
            equal([x.deprel for x in nodes[1:]], [('dep' if one and i else 'root') for i in range(n)], 'flatten-deprel', f'{heads} {one}')
            equal([x.ord for x in nodes[1:]], list(range(1, n + 1)), 'order-changed', str(heads))
            trees.check_tree(root)
        rec.trace()
        return
    if case['block'] == 'root.flatten':
        for i, node in enumerate(nodes[1:]):
            node.deprel = ('punct', 'x:y')[i % 2]
        root.flatten(*case.get('args', ()))
        rec.step()
        equal([x.parent.ord for x in nodes[1:]], [0] * n, 'flatten', str(heads))
        equal([x.deprel for x in nodes[1:]], ['root'] * n, 'flatten-deprel', str(heads))
        equal([x.form for x in root.descendants], [x.form for x in nodes[1:]], 'order-changed', str(heads))
        trees.check_tree(root)
        rec.trace()
        return
    if case['block'] == 'deproj':
        case_deproj(case, rec)
        rec.trace()
        return
    order, label = case['block']
    from udapi.block.transform.proj import Proj
    from udapi.block.transform.deproj import Deproj
    Proj(lifting_order=order, label=label).process_tree(root)
    rec.step()
    trees.check_tree(root)
    new = tuple(x.parent.ord for x in nodes[1:])
    where = f'{heads} {order} {label}: {new}'
    equal([x.form for x in root.descendants], [x.form for x in nodes[1:]], 'order-changed', where)
    require(not any(nonprojective(new, i) for i in range(1, n + 1)), 'still-nonprojective', where)
    lifted = [i for i in range(1, n + 1) if new[i - 1] != heads[i - 1]]
    if not any(nonprojective(heads, i) for i in range(1, n + 1)):
        require(not lifted, 'projective-tree-changed', where)
    for i in range(1, n + 1):
        mark = f'r{heads[i - 1]}'
        deprel = f'r{i}' + (':s' if i % 2 else '')
        misc = f'M={i}'
        if i in lifted:
            require(new[i - 1] in ancestors(heads, heads[i - 1]), 'not-lifted-to-ancestor', where)
            if label == 'misc':
                misc += f'|pproj={mark}'
            else:
                deprel = f"r{i}:{'s' if i % 2 else ''}+{mark}"
        equal(nodes[i].deprel, deprel, 'deprel', where)
        equal(str(nodes[i].misc), misc, 'misc', where)
    for node in nodes[1:]:
        Deproj(label=label).process_node(node)
        rec.step()
    trees.check_tree(root)
    if len(lifted) <= 1:
        equal(tuple(x.parent.ord for x in nodes[1:]), heads, 'not-restored', where)
        if label == 'deprel':
            equal([x.deprel for x in nodes[1:]], [f'r{i}' + (':s' if i % 2 else '') for i in range(1, n + 1)], 'deprel-not-restored', where)
    else:
        rec.count('restored' if tuple(x.parent.ord for x in nodes[1:]) == heads else 'not_restored')
    rec.trace()


def case_deproj(case, rec):
    """The new parent is the nearest candidate below the current parent (breadth first, left to right, not in the node's own subtree)."""
    from udapi.block.transform.deproj import Deproj
    heads = case['heads']
    n = len(heads)
    for target in range(1, n + 1):
        for label in ('misc', 'deprel'):
            nodes = trees.build(heads, in_doc=True)
            for i, node in enumerate(nodes[1:], 1):
                node.deprel = case['deprels'][i - 1] + (':s' if i % 2 else '')
            old = nodes[target].deprel
            if label == 'misc':
                nodes[target].misc['pproj'] = 'x'
            else:
                nodes[target].sdeprel = nodes[target].sdeprel + '+x'
            Deproj(label=label).process_tree(nodes[0])
            rec.step()
            where = f'{case} {target} {label}'
            level, found = [heads[target - 1]], heads[target - 1]
            while level and found == heads[target - 1]:
                level = [c for p in level for c in range(1, n + 1) if heads[c - 1] == p and c != target]
                found = next((c for c in level if case['deprels'][c - 1] == 'x'), found)
            want = list(heads)
            want[target - 1] = found
            equal([x.parent.ord for x in nodes[1:]], want, 'deprojectivized', where)
            equal(nodes[target].deprel, old, 'deprel', where)
            trees.check_tree(nodes[0])
