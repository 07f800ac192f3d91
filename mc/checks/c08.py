"""C08: empty nodes keep their place and their ids stay unique, consecutive and ordered."""
import itertools

from mc.enhanced import World, Prune
from mc.trees import head_vectors, long_trees, LABELS

TITLE = ('All trees x all distributions of empty nodes (incl. more than nine in one place) x all histories of bounded length '
         'of creating/removing empty nodes, removing and moving words, vs. a sequence model')
ASSUMPTIONS = ['initial ids of empty nodes are consecutive']


def BOUNDS(tier):
    if tier == 'quick':
        return {'length_1': 'up to 3 words, up to 2 empty nodes per gap (4 words: up to 1)', 'length_2': 'up to 2 words, up to 2 per gap; 3 words: up to 1 in total',
                'length_3': '1 word, up to 2 per gap', 'long_runs': '8-12 empty nodes in one gap of 1-2 words (chain), length 2'}
    return {'length_1': 'up to 4 words, up to 2 empty nodes per gap', 'length_2': 'up to 3 words, up to 1 (2 words: 2) per gap',
            'length_3': 'up to 2 words, up to 2 per gap', 'long_runs': '8-12 empty nodes in one gap of 1-2 words, length 3'}


def plan(tier):
    quick = tier == 'quick'
    result = []
    for n, most, length in ((1, 2, 1), (2, 2, 1), (3, 2, 1), (4, 1 if quick else 2, 1),
                            (1, 2, 2), (2, 2, 2), (3, 1, 2), (1, 2, 3)) + (() if quick else ((2, 2, 3),)):
        for heads in head_vectors(n):
            if quick and length == 2 and n == 3:
                result.append({'heads': heads, 'gaps': [[0, 1]] * 4, 'length': length, 'total': 1})
                continue
            if n == 4 or length > 1:
                for first in range(most + 1):
                    result.append({'heads': heads, 'gaps': [[first], *[list(range(most + 1))] * n], 'length': length})
            else:
                result.append({'heads': heads, 'gaps': [list(range(most + 1))] * (n + 1), 'length': length})
    for heads in head_vectors(1) + ([(0, 1)] if quick else head_vectors(2)):
        n = len(heads)
        for where in range(n + 1):
            for count in range(8, 13):
                gaps = [[0, 1] if n == 1 or not quick else [0] for _ in range(n + 1)]
                gaps[where] = [count]
                result.append({'heads': heads, 'gaps': gaps, 'length': (3 if not quick and n == 1 else 2)})
    for heads in long_trees():
        for gaps in ({9: 1, 10: 1}, {0: 1, 12: 1}, {1: 1, 11: 2}, {i: 1 for i in range(13)}):
            result.append({'heads': heads, 'gaps': [[gaps.get(i, 0)] for i in range(13)], 'length': 1})
    return result


def shards(tier):
    return plan(tier)


def operations(n, gaps):
    words = list(LABELS[:n])
    empties = [f'E{i}.{j}' for i in range(n + 1) for j in range(1, gaps[i] + 1)]
    if len(empties) > 6:
        empties = [e for e in empties if int(e.split('.')[1]) in (1, 2, 8, 9, 10, 11, 12)]
    ops = []
    for x in words:
        ops += [['emptychild', x, True], ['emptychild', x, False], ['remove', x, False], ['remove', x, True]]
        for ref in [''] + words:
            if ref != x:
                for method in ('after', 'before', 'after_subtree', 'before_subtree'):
                    for alone in (True, False):
                        ops.append(['shift', method, x, ref, alone])
    ops += [['remove', e, False] for e in empties] + [['emptychild', e, True] for e in empties[-1:]] + [['child', '']]
    return ops


def run_shard(shard, rec):
    for gaps in itertools.product(*shard['gaps']):
        if sum(gaps) > shard.get('total', 99):
            continue
        ops = operations(len(shard['heads']), gaps)
        for seq in itertools.product(ops, repeat=shard['length']):
            rec.run({'heads': shard['heads'], 'gaps': gaps, 'ops': list(seq)})


def run_case(case, rec):
    world = World(case['heads'], case['gaps'])
    if world.empties:
        world.do_setdeps(world.seq[-1], [(min(world.empties), 'x')])
    try:
        for op in case['ops']:
            world.do(op)
            rec.step()
    except Prune:
        rec.count('pruned')
        return
    world.check()
    if len(case['ops']) == 1 or len(world.empties) > 8:
        world.check_text()
    rec.trace()
    rec.state((tuple(world.seq), tuple(sorted(world.head.items()))))
