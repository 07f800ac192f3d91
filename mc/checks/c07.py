"""C07: enhanced dependencies: string and list views agree and follow the nodes under all histories."""
import itertools

from mc.enhanced import World, Prune

TITLE = ('All histories of bounded length over reads/writes of both views of enhanced dependencies, re-ordering, insertion and '
         'deletion of words and empty nodes, on sentences with unread (lazy) enhanced dependencies, vs. a graph model')
ASSUMPTIONS = ['initial ids of empty nodes are consecutive', 'edges point to existing nodes of the same sentence']
INITS = [
    {'heads': (0, 1, 2), 'gaps': (0, 1, 0, 1),
     'deps': {'a': [('', 'root')], 'b': [('E1.1', 'x:y'), ('a', 'obj')], 'c': [('b', 'conj')],
              'E1.1': [('c', 'e')], 'E3.1': [('E1.1', 'f')]}},
    {'heads': (2, 0, 1), 'gaps': (1, 0, 2, 0),
     'deps': {'a': [('c', 'p')], 'b': [('', 'root'), ('E2.2', 'q')], 'c': [('E2.1', 'r')],
              'E0.1': [('b', 's')], 'E2.1': [('E0.1', 't'), ('a', 'u')], 'E2.2': [('b', 'v')]}},
    # two-digit ids; operations on the words number 9, 10 and 12
    {'heads': tuple(range(12)), 'gaps': (1, *[0] * 8, 1, 1, 0, 1), 'rename': {'a': 'i', 'b': 'j', 'c': 'l'}, 'length': 2,
     'deps': {'a': [('l', 'w')], 'i': [('', 'root'), ('E10.1', 'n')], 'j': [('E9.1', 'x:y'), ('i', 'obj')], 'k': [('a', 'z')], 'l': [('j', 'conj'), ('k', 'v')],
              'E0.1': [('E12.1', 'e')], 'E9.1': [('l', 'e')], 'E10.1': [('E9.1', 'g')], 'E12.1': [('E10.1', 'f'), ('b', 'h')]}},
]


def operations(init):
    empties = sorted({x for x in init['deps'] if x.startswith('E')})
    nodes = ['a', 'b', 'c'] + empties
    first, last = empties[0], empties[-1]
    ops = [['deps', x] for x in nodes] + [['raw', x] for x in nodes]
    for x in ('a', last):
        ops += [['setraw', x, '_'], ['setraw', x, '2:x|3:y:z'], ['setdeps', x, []],
                ['setdeps', x, [('c', 'l'), (first, 'm')]], ['append', x, '', 'app:a'], ['append', x, 'b', 'app'],
                ['clear', x], ['pop', x], ['relabel', x, 'nn'], ['reattach', x, 'c']]
    ops += [['setraw', 'b', '1.1:emp'], ['setraw', 'b', '0:root|0.1:k']]
    ops += [['shift', 'after', 'a', 'c', True], ['shift', 'before', 'c', 'a', True], ['shift', 'after', 'b', 'c', True],
            ['shift', 'after', 'a', 'b', True], ['shift', 'before', 'c', 'b', False], ['shift', 'before_subtree', 'b', 'a', False],
            ['shift', 'after_subtree', 'a', 'b', False], ['shift', 'after_subtree', 'a', '', True]]
    ops += [['remove', 'a', True], ['remove', 'b', True], ['remove', 'c', False], ['remove', 'b', False]]
    ops += [['remove', x, False] for x in empties]
    if 'rename' in init:
        ops = [rename(op, init['rename']) for op in ops]
        b = init['rename']['b']
        return ops + [['setraw', b, '10:x|12:y:z|9.1:w'], ['setraw', 'a', '11:k|10.1:m'], ['emptychild', b, True], ['emptychild', 'a', False], ['child', b], ['remove', 'a', True]]
    ops += [['emptychild', 'b', True], ['emptychild', 'b', False], ['emptychild', first, True], ['emptychild', first, False], ['emptychild', last, False], ['child', 'a']]
    return ops


def rename(value, names):
    if isinstance(value, (list, tuple)):
        return type(value)([value[0], *(rename(x, names) for x in value[1:])] if isinstance(value, list) and value and value[0] not in names
                           else [rename(x, names) for x in value])
    return names.get(value, value) if isinstance(value, str) else value


def BOUNDS(tier):
    return {'history_length': 3 if tier == 'quick' else 4, 'initial_sentences': len(INITS),
            'operations': [len(operations(i)) for i in INITS]}


def shards(tier):
    length = BOUNDS(tier)['history_length']
    return [{'init': i, 'first': j, 'length': min(length, init.get('length', 9))} for i, init in enumerate(INITS) for j in range(len(operations(init)))]


def run_shard(shard, rec):
    ops = operations(INITS[shard['init']])
    first = ops[shard['first']]
    if shard['first'] == 0:
        rec.run({'init': shard['init'], 'ops': []})
    for length in range(shard['length']):
        for rest in itertools.product(ops, repeat=length):
            rec.run({'init': shard['init'], 'ops': [first, *rest]})


def run_case(case, rec):
    init = INITS[case['init']]
    world = World(init['heads'], init['gaps'], init['deps'])
    try:
        for op in case['ops']:
            world.do(op)
            rec.step()
    except Prune:
        rec.count('pruned')
        return
    world.check()
    for label in world.seq:
        world.check_deps(label)
    if len(case['ops']) <= 2:
        world.check_text()
    rec.trace()
    rec.state((case['init'], tuple(world.seq), tuple(sorted((k, tuple(v)) for k, v in world.deps.items()))))
