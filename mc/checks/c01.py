"""C01: tree integrity under editing.

Inductive exploration: every tree with at most N words is an initial state, every editing operation
with every choice of arguments is applied to it (so every transition out of every tree of that size is
covered), plus all operation sequences of depth 2 and 3 from every smaller tree.
Oracle: the well-formedness invariant observed via the public API, and a plain list+dict model of heads.
"""
import itertools

from mc.core import Fail, require, raises
from mc.trees import (head_vectors, build, new_root, build_into, check_tree, shape, ModelTree, LABELS, long_trees)

TITLE = ('Every editing operation with every argument from every tree with <=N words (transition-complete), '
         'and all operation sequences of bounded depth from smaller trees, on the real Node/Root objects')
ASSUMPTIONS = ['operations are applied to nodes which are in the tree (or were deleted as part of a deleted subtree)',
               'a second tree with 2 words is present for cross-tree operations']


def BOUNDS(tier):
    if tier == 'quick':
        return {'depth1_max_words': 5, 'depth2_max_words': 3, 'depth3_max_words': 1, 'lean': True, 'long_trees_words': 12}
    return {'depth1_max_words': 6, 'depth2_max_words': 3, 'depth3_max_words': 2, 'lean': False, 'long_trees_words': 12}


def shards(tier):
    result = []
    bounds = BOUNDS(tier)
    for n in range(bounds['depth1_max_words'] + 1):
        count = len(head_vectors(n)) if n else 1
        size = 30 if n < 6 else 120
        for start in range(0, count, size):
            result.append({'depth': 1, 'n': n, 'from': start, 'to': min(count, start + size)})
    for depth, limit in ((2, bounds['depth2_max_words']), (3, bounds['depth3_max_words'])):
        for n in range(limit + 1):
            for i in range(len(head_vectors(n)) if n else 1):
                # split by the first operation to balance the load
                for part in range(8 if n > 1 else 1):
                    result.append({'depth': depth, 'n': n, 'from': i, 'to': i + 1, 'part': part,
                                   'parts': 8 if n > 1 else 1, 'lean': bounds['lean']})
    for heads in long_trees():
        result += [{'long': heads, 'n': 12, 'depth': 1, 'lean': True, 'part': part, 'parts': 4} for part in range(4)]
    result.sort(key=lambda s: -(s['n'] * s['depth']))
    return result


def vectors(n):
    return head_vectors(n) if n else [()]


class World:
    """Two real trees and their models."""
    def __init__(self, heads):
        self.t = new_root()
        self.u = new_root()
        nodes = build_into(self.t, heads)
        unodes = build_into(self.u, (0, 1), 'pq')
        self.node = {LABELS[i]: nodes[i + 1] for i in range(len(heads))}
        self.node.update(p=unodes[1], q=unodes[2])
        self.mt = ModelTree.from_heads(heads)
        self.mu = ModelTree('pq', {'p': None, 'q': 'p'})
        self.stale = []
        self.fresh = 0

    def real(self, label, root):
        return root if label is None else self.node[label]

    def check(self, where):
        for root, model in ((self.t, self.mt), (self.u, self.mu)):
            check_tree(root, [self.node[x] for x in model.order], where)
            got = shape(root)
            require(got == model.shape(), 'tree-differs-from-model',
                    lambda: f'{where}: got {got}, model {model.shape()}')


SHIFTS = ('shift_after_node', 'shift_before_node', 'shift_after_subtree', 'shift_before_subtree')
KINDS = ('create', 'parent', 'parent_none', 'parent_other', 'parent_empty', 'root_parent', 'shift', 'root_shift',
         'remove', 'stale', 'flatten', 'steal', 'steal_mixed')


def operations(mt, mu, stale, lean=False):
    """All operations applicable in the given model state (lean: without mere flag variations)."""
    labels = list(mt.order)
    refs = [None] + labels
    for lab in refs:
        yield ['create', lab]
    for lab in labels:
        for ref in refs:
            yield ['parent', lab, ref]
        yield ['parent_none', lab]
        yield ['parent_other', lab, None]
        for ref in mu.order:
            yield ['parent_other', lab, ref]
        yield ['parent_empty', lab]
        for mode in (None, 'rehang') if lean else (None, 'rehang', 'warn', 'rehang_warn'):
            yield ['remove', lab, mode]
        for ref in refs:
            for kind in SHIFTS:
                for without in (False, True):
                    for skip in (False, True):
                        if lean and skip and (without or ref in (None, lab) or not mt.dominates(lab, ref)):
                            continue
                        yield ['shift', kind, lab, ref, without, skip]
    for lab in stale:
        for mode in (None, 'rehang'):
            yield ['stale', lab, mode]
    yield ['root_parent', labels[0] if labels else None]
    if labels:
        yield ['root_shift', labels[-1]]
    yield ['flatten']
    for size in range(1, len(labels) + 1 if len(labels) < 10 else 3):
        for chosen in itertools.combinations(labels, size):
            yield ['steal', list(chosen)]
            if size == 2:
                yield ['steal', list(reversed(chosen))]
    if labels and mu.order:
        yield ['steal_mixed', [labels[0], mu.order[0]]]


def apply(world, oper, where):
    """Apply one operation on the real trees and on the model; check refusals."""
    kind = oper[0]
    mt, mu, t, u = world.mt, world.mu, world.t, world.u
    refused = False
    exc = None
    if kind == 'create':
        label = 'xyz'[world.fresh]
        world.fresh += 1
        node = world.real(oper[1], t).create_child(form=label)
        world.node[label] = node
        mt.order.append(label)
        mt.head[label] = oper[1]
    elif kind == 'parent':
        lab, ref = oper[1], oper[2]
        refused = ref is not None and mt.dominates(lab, ref)
        exc = raises(setattr, world.node[lab], 'parent', world.real(ref, t))
        if not refused:
            mt.head[lab] = ref
    elif kind == 'parent_none':
        refused = True
        exc = raises(setattr, world.node[oper[1]], 'parent', None)
    elif kind == 'parent_other':
        refused = True
        exc = raises(setattr, world.node[oper[1]], 'parent', world.real(oper[2], u))
    elif kind == 'parent_empty':
        refused = True
        empty = t.create_empty_child(form='E')
        empty.ord = '0.1'
        exc = raises(setattr, world.node[oper[1]], 'parent', empty)
        t.empty_nodes.remove(empty)
    elif kind == 'root_parent':
        refused = True
        exc = raises(setattr, t, 'parent', world.real(oper[1], u))
    elif kind == 'root_shift':
        refused = True
        exc = raises(t.shift, world.node[oper[1]])
    elif kind == 'remove':
        node = world.node[oper[1]]
        gone = mt.remove(oper[1], rehang=bool(oper[2]) and oper[2].startswith('rehang'))
        if oper[2] is None:
            node.remove()
        else:
            node.remove(children=oper[2])
        world.stale += [x for x in sorted(gone) if x != oper[1]]
    elif kind == 'stale':
        raises(world.node[oper[1]].remove, oper[2])
    elif kind == 'flatten':
        t.flatten()
        for lab in mt.head:
            mt.head[lab] = None
    elif kind == 'steal':
        chosen = set(oper[1])
        u.steal_nodes([world.node[x] for x in oper[1]])
        for lab in [x for x in mt.order if x in chosen]:
            mu.order.append(lab)
            mu.head[lab] = mt.head[lab] if mt.head[lab] in chosen else None
        mt.order = [x for x in mt.order if x not in chosen]
        mt.head = {x: (h if h not in chosen else None) for x, h in mt.head.items() if x not in chosen}
    elif kind == 'steal_mixed':
        refused = True
        exc = raises(new_root().steal_nodes, [world.node[x] for x in oper[1]])
    elif kind == 'shift':
        _, name, lab, ref, without, skip = oper
        below = ref != lab and ref is not None and mt.dominates(lab, ref)
        if ref is None and 'before' in name:
            refused = True
        elif below and not without:
            refused = not skip
        exc = raises(getattr(world.node[lab], name), world.real(ref, t), without_children=without,
                     skip_if_descendant=skip)
        if exc is None and not refused:
            order = [w.form for w in t.descendants]
            if sorted(order) == sorted(mt.order):
                mt.order = order
    else:
        raise AssertionError(kind)
    if refused:
        require(exc is not None, 'not-refused-' + kind, where)
    elif exc is not None:
        raise Fail('unexpectedly-refused-' + kind, f'{where}: {type(exc).__name__}: {exc}')


def run_case(case, rec):
    heads, history = tuple(case['heads']), case['ops']
    world = World(heads)
    for i, oper in enumerate(history):
        where = f'heads={heads} after {history[:i + 1]}'
        apply(world, oper, where)
        rec.step()
        if i == len(history) - 1:
            world.check(where)
    if not history:
        world.check(f'heads={heads}')
    rec.trace()
    rec.state((world.mt.shape(), world.mu.shape()))
    return world


def model_after(heads, history):
    """The model state after the history (shift positions taken from the real run)."""
    world = World(tuple(heads))
    for oper in history:
        apply(world, oper, 'replay')
    return world.mt, world.mu, world.stale


def run_shard(shard, rec):
    for heads in [tuple(shard['long'])] if 'long' in shard else vectors(shard['n'])[shard['from']:shard['to']]:
        rec.run({'heads': list(heads), 'ops': []})
        extend(heads, [], shard['depth'], shard, rec)


def extend(heads, prefix, depth, shard, rec):
    mt, mu, stale = model_after(heads, prefix)
    for i, oper in enumerate(operations(mt, mu, stale, shard.get('lean', False))):
        if not prefix and i % shard.get('parts', 1) != shard.get('part', 0):
            continue
        history = prefix + [oper]
        good = rec.run({'heads': list(heads), 'ops': history})
        # Errors which were already reported are not extended. Refused operations changed nothing.
        if good and len(history) < depth:
            extend(heads, history, depth, shard, rec)
