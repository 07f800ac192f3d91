"""C02: word-order moves agree with the list-permutation model.

Every tree with <=N words x every node x every reference x every shift method x every flag combination.
Oracle: the expected permutation is computed on a plain list of labels.
"""
from mc.core import Fail, require, raises
from mc.trees import head_vectors, build, ModelTree, LABELS, check_tree, long_trees

TITLE = 'All shift_* calls (4 methods x node x reference x flags) in all trees with <=N words vs. a list model'
ASSUMPTIONS = ['If the reference node lies inside the moved subtree (or is the moved node) and its position is '
               'not determined by the documentation, any position after/before the rest of the reference '
               'subtree is accepted, but the block and all other words must keep their relative order.']
SHIFTS = ('shift_after_node', 'shift_before_node', 'shift_after_subtree', 'shift_before_subtree')


def BOUNDS(tier):
    return {'max_words': 5 if tier == 'quick' else 6, 'pairs_of_moves_max_words': 3 if tier == 'quick' else 4,
            'long_trees_words': 12}


def shards(tier):
    bounds = BOUNDS(tier)
    result = []
    for n in range(1, bounds['max_words'] + 1):
        count = len(head_vectors(n))
        step = 40
        result += [{'n': n, 'from': i, 'to': min(count, i + step), 'depth': 1} for i in range(0, count, step)]
    for n in range(2, bounds['pairs_of_moves_max_words'] + 1):
        count = len(head_vectors(n))
        result += [{'n': n, 'from': i, 'to': i + 1, 'depth': 2} for i in range(count)]
    result += [{'long': heads, 'depth': 1} for heads in long_trees()]
    return result[::-1]


def moves(n):
    for name in SHIFTS:
        for lab in LABELS[:n]:
            for ref in [None] + list(LABELS[:n]):
                for without in (False, True):
                    for skip in (False, True):
                        yield [name, lab, ref, without, skip]


def run_shard(shard, rec):
    for heads in [shard['long']] if 'long' in shard else head_vectors(shard['n'])[shard['from']:shard['to']]:
        for move in moves(len(heads)):
            if shard['depth'] == 1:
                rec.run({'heads': list(heads), 'moves': [move]})
            else:
                if move[4]:
                    continue
                for second in moves(shard['n']):
                    if not second[4]:
                        rec.run({'heads': list(heads), 'moves': [move, second]})


def run_case(case, rec):
    heads = case['heads']
    nodes = build(heads)
    root = nodes[0]
    real = {LABELS[i]: nodes[i + 1] for i in range(len(heads))}
    real[None] = root
    model = ModelTree.from_heads(heads)
    for move in case['moves']:
        one_move(move, model, real, root)
        rec.step()
    check_tree(root, [real[x] for x in model.order], str(case))
    got = tuple((w.form, w.parent.form if w.parent is not root else None) for w in root.descendants)
    want = tuple((x, model.head[x]) for x in model.order)
    require(got == want, 'heads-changed-by-move', f'{got} {want}')
    rec.trace()
    rec.state((want, tuple(heads)))


def one_move(move, model, real, root):
    name, lab, ref, without, skip = move
    before = list(model.order)
    moved = [lab] if without else model.subtree(lab)
    exc = raises(getattr(real[lab], name), real[ref], without_children=without, skip_if_descendant=skip)
    after = [w.form for w in root.descendants]
    where = f'heads {model.head} {before} {move} -> {after}'
    if ref is None and 'before' in name:
        require(exc is not None, 'before-root-not-refused', where)
        require(after == before, 'refused-move-changed-order', where)
        return
    if ref is not None and ref != lab and not without and model.dominates(lab, ref):
        require((exc is None) == skip, 'move-to-own-descendant', where)
        require(after == before, 'refused-move-changed-order', where)
        return
    if exc is not None:
        raise Fail('move-raised-' + type(exc).__name__, f'{where}: {exc}')
    rest = [x for x in before if x not in moved]
    require(sorted(after) == sorted(before), 'move-lost-words', where)
    require([x for x in after if x not in moved] == rest, 'other-words-reordered', where)
    start = after.index(moved[0])
    require(after[start:start + len(moved)] == moved, 'moved-block-not-contiguous-or-reordered', where)
    if 'subtree' in name:
        refset = set(model.subtree(ref))
    else:
        refset = {ref} if ref is not None else set()
    remaining = [x for x in rest if x in refset]
    # The exact position is given by the documentation unless the reference overlaps the moved block.
    overlap = (refset & set(moved)) - ({lab} if ref != lab else set())
    if not overlap:
        if 'after' in name:
            pos = max((rest.index(x) for x in remaining), default=-1) + 1
        else:
            pos = min(rest.index(x) for x in remaining)
        require(after == rest[:pos] + moved + rest[pos:], 'wrong-position',
                lambda: f'{where}, expected {rest[:pos] + moved + rest[pos:]}')
    elif ref == lab and (without or len(moved) == 1) and 'node' in name:
        require(after == before, 'shift-relative-to-itself', where)
    elif 'after' in name:
        require(all(after.index(x) < start for x in remaining), 'not-after-reference', where)
    else:
        require(all(after.index(x) > start for x in remaining), 'not-before-reference', where)
    model.order = after
