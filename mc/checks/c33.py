"""C33: the blocks in mwe work with exactly the multiword expressions annotated in MISC."""
import contextlib
import io
import itertools

from mc.core import require, equal
from mc import trees

TITLE = ('All assignments of (overlapping, interrupted, typed, untyped and malformed) Mwe annotations to the words of small trees: '
         'mwe.Normalize, mwe.ToSubDeprels and mwe.Possessives vs. the expressions which are annotated')
ASSUMPTIONS = ['all the words of one expression which give its type give the same one', 'a word lists every expression once']
TYPES = {'1': 'VID', '2': 'LVC.cause', '10': 'IAV'}
# what the word belongs to: (number, is the type given?)
KINDS = [(), (('1', 0),), (('1', 1),), (('2', 0),), (('2', 1),), (('10', 1),), (('1', 0), ('2', 1)), (('2', 0), ('1', 1)), (('10', 0), ('1', 1), ('2', 0)), (('x', 0),), (('1', 0), ('x', 0)), (('x', 1), ('2', 1))]


def BOUNDS(tier):
    return {'words': 4 if tier == 'quick' else 5, 'words_in_trees': 3 if tier == 'quick' else 4, 'kinds_of_annotation': len(KINDS), 'long_sentence': 12}


def shards(tier):
    bounds = BOUNDS(tier)
    result = [{'kind': 'normalize', 'n': n, 'first': k} for n in range(1, bounds['words'] + 1) for k in range(len(KINDS))]
    result += [{'kind': 'tree', 'heads': list(heads)} for n in range(1, bounds['words_in_trees'] + 1) for heads in trees.head_vectors(n)]
    result += [{'kind': 'possessives', 'heads': list(heads)} for n in (1, 2, 3, 4) for heads in trees.head_vectors(n) if heads.count(0) == 1]
    result += [{'kind': 'long', 'size': size} for size in (1, 2, 3)]
    return result[::-1]


def run_shard(shard, rec):
    kind = shard['kind']
    if kind == 'normalize':
        for rest in itertools.product(range(len(KINDS)), repeat=shard['n'] - 1):
            rec.run({'kind': kind, 'words': [shard['first'], *rest]})
    elif kind == 'long':
        for part in itertools.product(range(len(KINDS)), repeat=shard['size']):
            rec.run({'kind': 'normalize', 'words': (list(part) * 12)[:12]})
            rec.run({'kind': 'tree', 'heads': list(range(12)), 'words': (list(part) * 12)[:12]})
            rec.run({'kind': 'tree', 'heads': [*range(2, 13), 0], 'words': (list(part) * 12)[:12]})
    elif kind == 'tree':
        n = len(shard['heads'])
        for words in itertools.product(range(len(KINDS) if n < 4 else 7), repeat=n):
            rec.run({'kind': kind, 'heads': shard['heads'], 'words': list(words)})
    else:
        n = len(shard['heads'])
        for words in itertools.product((0, 1, 3, 6) if n < 4 else (0, 1, 6), repeat=n):
            for pronouns in itertools.product((0, 1) if n == 4 else (0, 1, 2, 3), repeat=n):
                if any(p == 1 for p in pronouns) or n < 3:
                    rec.run({'kind': kind, 'heads': shard['heads'], 'words': list(words), 'pronouns': list(pronouns)})


def annotation(word):
    result = []
    for number, typed in KINDS[word]:
        if number == 'x':
            result.append(('1:V:W', 'VID:1')[typed])
        else:
            result.append(f'{number}:{TYPES[number]}' if typed else number)
    return ';'.join(result)


def expressions(words):
    """{number: (positions of words, type or None)}"""
    found = {}
    for i, word in enumerate(words):
        for number, typed in KINDS[word]:
            if number != 'x':
                members, kind = found.get(number, ([], None))
                found[number] = members + [i], TYPES[number] if typed else kind
    return found


def prepare(case):
    words = case['words']
    nodes = trees.build(tuple(case.get('heads') or [0] * len(words)), in_doc=True)
    for i, (node, word) in enumerate(zip(nodes[1:], words)):
        node.form, node.deprel = f'w{i}', f'd{i}'
        node.misc['A'], node.misc['Z'] = 'a', str(i)
        if annotation(word):
            node.misc['Mwe'] = annotation(word)
    return nodes[0], nodes[1:]


def run_case(case, rec):
    rec.step()
    rec.trace()
    rec.state(str(case))
    globals()['case_' + case['kind']](case, rec)


def case_normalize(case, rec):
    from udapi.block.mwe.normalize import Normalize
    root, nodes = prepare(case)
    found = expressions(case['words'])
    for again in (0, 1):
        Normalize().process_tree(root)
        for i, (node, word) in enumerate(zip(nodes, case['words'])):
            want = []
            for number, _ in KINDS[word]:
                if number != 'x':
                    members, kind = found[number]
                    want.append(f'{number}:{kind}' if kind and members[0] == i else number)
            equal(node.misc['Mwe'], ';'.join(want), 'normalized' if not again else 'normalized-again', f'{case} {i}')
            equal([node.misc['A'], node.misc['Z'], node.form, node.deprel], ['a', str(i), f'w{i}', f'd{i}'], 'normalize-changed', f'{case} {i}')
            require(want or 'Mwe' not in node.misc, 'normalize-empty', str(case))


def case_tree(case, rec):
    from udapi.block.mwe.tosubdeprels import ToSubDeprels
    root, nodes = prepare(case)
    found = expressions(case['words'])
    ToSubDeprels().process_tree(root)
    for i, (node, word) in enumerate(zip(nodes, case['words'])):
        want = f'd{i}'
        for number, _ in KINDS[word]:
            if number != 'x' and found[number][1] and case['heads'][i] and case['heads'][i] - 1 in found[number][0]:
                want += ':' + found[number][1].lower().replace('.', '')
        equal(node.deprel, want, 'deprel', f'{case} {i}')
        equal([node.parent.ord, node.misc['Mwe'], node.misc['A'], node.misc['Z'], node.form], [case['heads'][i], annotation(word), 'a', str(i), f'w{i}'], 'deprels-changed', f'{case} {i}')


def case_possessives(case, rec):
    from udapi.block.mwe.possessives import Possessives
    root, nodes = prepare(case)
    heads, words = case['heads'], case['words']
    for node, pronoun in zip(nodes, case['pronouns']):
        node.upos = ('NOUN', 'PRON', 'PRON', 'DET')[pronoun]
        if pronoun in (1, 3):
            node.feats['Poss'] = 'Yes'
    before = [(n.form, n.parent.ord, n.deprel, str(n.misc), str(n.feats)) for n in nodes]
    handle = io.StringIO()
    with contextlib.redirect_stdout(handle):
        Possessives().process_tree(root)
    equal([(n.form, n.parent.ord, n.deprel, str(n.misc), str(n.feats)) for n in nodes], before, 'possessives-changed', str(case))
    want = []
    for number, (members, _) in expressions(words).items():
        tops = [i for i in members if heads[i] - 1 not in members]
        under = []
        for i in range(len(nodes)):
            k = heads[i] - 1
            while k >= 0 and k not in tops:
                k = heads[k] - 1
            if k >= 0:
                under.append(i)
        inside = [i for i in under if case['pronouns'][i] == 1 and i in members]
        outside = [i for i in under if case['pronouns'][i] == 1 and i not in members]
        if inside or outside:
            want.append('both' if inside and outside else 'in' if inside else 'out')
    lines = handle.getvalue().splitlines()
    equal([line.split(':')[0] for line in lines], want, 'possessives', str(case))
