"""C25: the ud.Fix* blocks establish their postconditions and change nothing else."""
import contextlib
import io
import itertools

from mc.core import require, equal, scratch
from mc import trees

TITLE = ('All trees up to the bound x all assignments of the relevant deprels/UPOS: ud.FixChain, FixRightheaded, FixRoot, FixLeaf, FixPunctChild, FixMultiSubjects, FixCompoundName, '
         'FixAdvmodByUpos, FixPseudoCop, Basic2Enhanced, AddPunctType, SetTranslation and PrintFixed vs. oracles of their documented results')
ASSUMPTIONS = ['FixCompoundName: exact result required if no compound name is nested in another one, otherwise only a tree with unchanged words',
               'FixPseudoCop: one pseudocopula in a sentence, not attached to the root', 'PrintFixed: fixed words follow their head',
               'Basic2Enhanced: empty nodes have DEPS']


def BOUNDS(tier):
    big = tier != 'quick'
    return {'words': 5 if big else 4, 'labels_per_block': 6}


TREE_BLOCKS = {
    'chain': ('fixed', 'flat', 'flat:x', 'dep', 'fix'),
    'rightheaded': ('flat', 'fixed:x', 'dep', 'conj'),
    'rightconj': ('conj', 'dep', 'conj:x', 'flat'),
    'root': ('root', 'root:x', 'dep', 'rooted'),
    'leaf': ('aux', 'cc', 'conj', 'fixed', 'dep', 'case:x'),
    'punctchild': ('punct', 'dep', 'punct:x'),
    'multisubj': ('nsubj', 'csubj:pass', 'nsubj:outer', 'csubj:x:outer', 'dep', 'nsubjx', 'csubj:outerx'),
    'compound': ('Pcompound', 'Pdep', 'Xcompound', 'Pcompound:x', '1compound'),
}


def vectors(n):
    return trees.head_vectors(n) if n else [()]


def shards(tier):
    result = []
    for kind in TREE_BLOCKS:
        for n in range(0, 5):
            step = 25 if n < 4 else 8
            result += [{'kind': kind, 'n': n, 'from': i, 'to': i + step} for i in range(0, len(vectors(n)), step)]
        if tier != 'quick':
            result += [{'kind': kind, 'n': 5, 'from': i, 'to': i + 16, 'labels': 3} for i in range(0, len(vectors(5)), 16)]
    result += [{'kind': 'long', 'block': kind} for kind in TREE_BLOCKS]
    result += [{'kind': kind} for kind in ('advmod', 'punct_type', 'translation')]
    result += [{'kind': kind, 'n': n} for kind in ('pseudocop', 'enhanced', 'printfixed') for n in range(1, 5)]
    return result[::-1]


def run_shard(shard, rec):
    kind = shard['kind']
    if kind in TREE_BLOCKS:
        n = shard['n']
        for heads in vectors(n)[shard['from']:shard['to']]:
            for labels in itertools.product(TREE_BLOCKS[kind][:shard.get('labels', 9)], repeat=n):
                rec.run({'kind': kind, 'heads': heads, 'labels': labels})
    elif kind == 'long':
        # trees of 12 words with labels repeated periodically
        for heads in trees.long_trees():
            for size in (1, 2, 3):
                for part in itertools.product(TREE_BLOCKS[shard['block']][:9 if size < 3 else 4], repeat=size):
                    rec.run({'kind': shard['block'], 'heads': heads, 'labels': (part * 12)[:12]})
    elif kind == 'advmod':
        for deprel in ADVMOD_DEPRELS:
            for upos in UPOS:
                for parent in UPOS:
                    rec.run({'kind': kind, 'deprel': deprel, 'upos': upos, 'parent': parent})
    elif kind == 'punct_type':
        for form in list(PUNCT) + ['w', '..', '--', '…!', '']:
            for upos in ('PUNCT', 'SYM', 'NOUN'):
                for old in ('_', 'PunctSide=Ini', 'PunctSide=Fin|PunctType=Peri', 'Case=Nom|PunctType=Dash'):
                    rec.run({'kind': kind, 'form': form, 'upos': upos, 'old': old})
    elif kind == 'translation':
        for lines in range(0, 4):
            for final in (0, 1):
                for overwrite in (0, 1):
                    for layout in itertools.product(range(len(COMMENTS)), repeat=2):
                        rec.run({'kind': kind, 'lines': lines, 'final': final, 'overwrite': overwrite, 'layout': layout})
    elif kind == 'pseudocop':
        n = shard['n']
        for heads in vectors(n):
            for which in range(1, n + 1):
                if heads[which - 1]:
                    for labels in itertools.product(('nsubj', 'amod', 'mark', 'obl:x', 'det'), repeat=n - 1):
                        if n < 4 or labels[0] in ('nsubj', 'det'):
                            for mode in range(6):
                                rec.run({'kind': kind, 'heads': heads, 'which': which, 'labels': labels, 'mode': mode})
    elif kind == 'enhanced':
        n = shard['n']
        for heads in vectors(n):
            for given in itertools.product(range(3), repeat=n):
                for empties in (0, 1):
                    rec.run({'kind': kind, 'heads': heads, 'given': given, 'empties': empties})
    elif kind == 'printfixed':
        n = shard['n']
        for heads in vectors(n):
            for labels in itertools.product(('fixed', 'dep', 'fixed:x'), repeat=n):
                if all(not label.startswith('fixed') or 0 < head < i for i, (head, label) in enumerate(zip(heads, labels), 1)):
                    for mode in range(len(KNOWN)):
                        rec.run({'kind': kind, 'heads': heads, 'labels': labels, 'mode': mode})


def run_case(case, rec):
    if case['kind'] in TREE_BLOCKS:
        tree_case(case, rec)
    else:
        globals()['case_' + case['kind']](case, rec)
    rec.trace()
    rec.state(str(case))


def u(label):
    return label.split(':')[0]


def chain(heads, i):
    """Proper ancestors of i, the root (0) included."""
    result = []
    while i:
        i = heads[i - 1]
        result.append(i)
    return result


# ---------------------------------------------------------------- blocks changing the tree
def tree_case(case, rec):
    kind, heads, labels = case['kind'], case['heads'], case['labels']
    nodes = trees.build(heads, in_doc=True)
    root = nodes[0]
    n = len(heads)
    for node, label in zip(nodes[1:], labels):
        node.deprel = label
        node.misc['N'] = str(node.ord)
        node.feats['A'] = label[0].upper()
    if kind == 'compound':
        for node, label in zip(nodes[1:], labels):
            node.deprel, node.upos = label[1:], 'X' if label[0] == 'X' else 'PROPN'
            if label[0] == '1':
                node.form += '1'
        labels = [label[1:] for label in labels]
    forms, upos = [node.form for node in nodes[1:]], [node.upos for node in nodes[1:]]
    if kind == 'leaf':
        for i, node in enumerate(nodes[1:], 1):
            node.deps = [{'parent': node.parent, 'deprel': 'e1'}, {'parent': nodes[1 + i % n], 'deprel': 'e2'}]
    block, options = BLOCKS[kind]()
    block(**options).run(root.document)
    rec.step()
    trees.check_tree(root)
    equal(root.descendants, nodes[1:], 'words-moved', str(case))
    got = [(node.parent.ord, node.deprel) for node in nodes[1:]]
    for i, node in enumerate(nodes[1:], 1):
        equal([node.form, node.upos, str(node.misc), str(node.feats)], [forms[i - 1], upos[i - 1], f'N={i}', 'A=' + case['labels'][i - 1][0].upper()], 'attributes', str(case))
    globals()['want_' + kind](heads, labels, got, nodes, case)


def BLOCK(name, **options):
    def load():
        import importlib
        return getattr(importlib.import_module('udapi.block.ud.' + name.lower()), name), options
    return load


BLOCKS = {'chain': BLOCK('FixChain'), 'rightheaded': BLOCK('FixRightheaded'), 'rightconj': BLOCK('FixRightheaded', deprels='conj'), 'root': BLOCK('FixRoot'), 'leaf': BLOCK('FixLeaf'),
          'punctchild': BLOCK('FixPunctChild'), 'multisubj': BLOCK('FixMultiSubjects'), 'compound': BLOCK('FixCompoundName')}


def want_chain(heads, labels, got, _nodes, case):
    want = []
    for i, label in enumerate(labels, 1):
        head = heads[i - 1]
        if u(label) in ('fixed', 'flat'):
            head = next(a for a in chain(heads, i) if not a or u(labels[a - 1]) != u(label))
        want.append((head, label))
    equal(got, want, 'fix-chain', str(case))


def components(heads, labels, wanted):
    """Partition of words connected by edges with the given deprels, as {word: smallest member}, and the component of the parent of each component."""
    n = len(heads)
    comp = list(range(n + 1))
    changed = True
    while changed:
        changed = False
        for i, (head, label) in enumerate(zip(heads, labels), 1):
            if head and u(label) in wanted and comp[i] != comp[head]:
                comp[i] = comp[head] = min(comp[i], comp[head])
                changed = True
    above = {}
    for i, (head, label) in enumerate(zip(heads, labels), 1):
        if comp[i] != comp[head]:
            above[comp[i]] = (comp[head], label)
    return comp, above


def want_rightheaded(heads, labels, got, nodes, case):
    wanted = ('flat', 'fixed', 'appos', 'goeswith', 'list')
    for i, (head, label) in enumerate(got, 1):
        require(not (u(label) in wanted and i < head), 'right-headed', f'{case} -> {got}')
    equal(sorted(label for _, label in got), sorted(labels), 'rightheaded-labels', str(case))
    if not any(u(label) in wanted and i < head for i, (head, label) in enumerate(zip(heads, labels), 1)):
        equal(got, list(zip(heads, labels)), 'rightheaded-needless', str(case))
    before, after = components(heads, labels, wanted), components([h for h, _ in got], [label for _, label in got], wanted)
    equal(after, before, 'rightheaded-phrases', f'{case} -> {got}')
    # dependents of a former head are now dependents of the new one
    for i, (head, label) in enumerate(zip(heads, labels), 1):
        first = [k for k, (h, l) in enumerate(zip(heads, labels), 1) if h == head and head and u(l) in wanted and k < head]
        if first and u(labels[head - 1]) not in wanted and \
                not any(u(labels[k - 1]) in wanted and k < heads[k - 1] for k in range(1, len(heads) + 1) if heads[k - 1] != head):
            new_head = first[0]
            if i == new_head:
                equal(got[i - 1], (heads[head - 1], labels[head - 1]), 'rightheaded-head', f'{case} -> {got}')
                equal(got[head - 1], (new_head, labels[i - 1]), 'rightheaded-old-head', f'{case} -> {got}')
            else:
                equal(got[i - 1], (new_head, label), 'rightheaded-sibling', f'{case} -> {got}')


def want_rightconj(heads, labels, got, nodes, case):
    for i, (head, label) in enumerate(got, 1):
        require(not (u(label) == 'conj' and i < head), 'right-headed', f'{case} -> {got}')
    equal(sorted(label for _, label in got), sorted(labels), 'rightheaded-labels', str(case))
    wrong = [i for i, (head, label) in enumerate(zip(heads, labels), 1) if u(label) == 'conj' and i < head]
    if len(wrong) < 2:
        want = list(zip(heads, labels))
        for i in wrong:
            # only the two conjuncts are exchanged, as it is not known to which of them the other dependents belong
            head = heads[i - 1]
            want[i - 1], want[head - 1] = want[head - 1], (i, labels[i - 1])
            if u(want[i - 1][1]) == 'conj' and i < want[i - 1][0]:
                return
        equal(got, want, 'rightheaded-conj', str(case))


def want_root(heads, labels, got, _nodes, case):
    tops = [i for i, head in enumerate(heads, 1) if not head]
    want = []
    for i, (head, label) in enumerate(zip(heads, labels), 1):
        if not head:
            if i == tops[0]:
                label = label if u(label) == 'root' else 'root'
            else:
                head, label = tops[0], 'parataxis'
        elif u(label) == 'root':
            label = 'parataxis'
        want.append((head, label))
    equal(got, want, 'fix-root', str(case))


def want_leaf(heads, labels, got, nodes, case):
    function = ('aux', 'cop', 'case', 'mark', 'cc')
    want = []
    n = len(heads)
    for i, (head, label) in enumerate(zip(heads, labels), 1):
        new = head
        if head and u(labels[head - 1]) in function:
            allowed = ('fixed', 'punct', 'goeswith', 'reparandum') + (('conj', 'cc') if u(labels[head - 1]) != 'cc' else ())
            if u(label) not in allowed:
                new = next(a for a in chain(heads, i) if not a or u(labels[a - 1]) not in function)
        want.append((new, label))
        deps = [(head, 'e1'), (1 + i % n, 'e2')]
        if new != head:
            deps = [(new if p == head else p, d) for p, d in deps]
        equal([(d['parent'].ord, d['deprel']) for d in nodes[i].deps], deps, 'fix-leaf-enhanced', str(case))
    equal(got, want, 'fix-leaf', str(case))


def want_punctchild(heads, labels, got, _nodes, case):
    want = [(next(a for a in chain(heads, i) if not a or labels[a - 1] != 'punct'), label) for i, label in enumerate(labels, 1)]
    equal(got, want, 'fix-punct-child', str(case))


def want_multisubj(heads, labels, got, _nodes, case):
    seen, want = set(), []
    for head, label in zip(heads, labels):
        if head and u(label) in ('nsubj', 'csubj') and not label.endswith(':outer'):
            if head in seen:
                label = 'obl' if label[0] == 'n' else 'advcl'
            seen.add(head)
        want.append((head, label))
    equal(got, want, 'fix-multi-subjects', str(case))


def want_compound(heads, labels, got, nodes, case):
    n = len(heads)
    propn = [0] + [int(label[0] != 'X') for label in case['labels']]
    digit = [0] + [int(label[0] == '1') for label in case['labels']]
    is_part = [0] + [int(propn[i] and u(labels[i - 1]) == 'compound' and propn[heads[i - 1]]) for i in range(1, n + 1)]
    if any(is_part[i] and is_part[heads[i - 1]] for i in range(1, n + 1)):
        return
    want = list(zip(heads, labels))
    for head in range(1, n + 1):
        parts = [i for i in range(1, n + 1) if is_part[i] and heads[i - 1] == head]
        if parts and not any(digit[i] for i in parts + [head]):
            words = sorted(parts + [head])
            first = words[0]
            if first != head:
                want[first - 1] = (heads[head - 1], labels[head - 1])
            for i in words[1:]:
                want[i - 1] = (first, 'flat:name')
    equal(got, want, 'fix-compound-name', str(case))


# ---------------------------------------------------------------- ud.FixAdvmodByUpos
UPOS = ('ADJ', 'ADP', 'ADV', 'AUX', 'CCONJ', 'DET', 'INTJ', 'NOUN', 'NUM', 'PART', 'PRON', 'PROPN', 'PUNCT', 'SCONJ', 'SYM', 'VERB', 'X')
ADVMOD_DEPRELS = ('advmod', 'advmod:emph', 'advmodx', 'expl', 'expl:pv', 'aux', 'cop', 'aux:pass', 'case', 'mark', 'cc', 'det', 'det:x', 'nummod', 'punct', 'nsubj', 'obl', 'root')
CHANGES = {
    'advmod': {'NOUN': 'obl', 'PROPN': 'obl', 'PRON': 'obl', 'DET': 'obl', 'NUM': 'obl', 'VERB': 'advcl', 'AUX': 'aux', 'CCONJ': 'cc', 'INTJ': 'discourse'},
    'expl': {'AUX': 'aux', 'ADP': 'case', 'CCONJ': 'cc'},
    'aux': {upos: 'dep' for upos in UPOS if upos != 'AUX'},
    'cop': {upos: 'dep' for upos in UPOS if upos != 'AUX'},
    'case': {'DET': 'det'},
    'mark': {'PRON': 'nsubj', 'DET': 'nsubj', 'INTJ': 'discourse'},
    'cc': {'AUX': 'aux', 'DET': 'det', 'INTJ': 'discourse'},
    'det': {'NOUN': 'nmod', 'ADJ': 'amod', 'ADV': 'advmod', 'AUX': 'aux', 'VERB': 'dep', 'X': 'dep'},
    'nummod': {'PRON': 'nmod', 'DET': 'det'},
    'punct': {upos: 'dep' for upos in UPOS if upos != 'PUNCT'},
}


def case_advmod(case, rec):
    from udapi.block.ud.fixadvmodbyupos import FixAdvmodByUpos
    nodes = trees.build((0, 1), in_doc=True)
    nodes[1].upos, nodes[1].deprel = case['parent'], 'root'
    nodes[2].upos, nodes[2].deprel = case['upos'], case['deprel']
    FixAdvmodByUpos().run(nodes[0].document)
    rec.step()
    base, upos = u(case['deprel']), case['upos']
    want = CHANGES.get(base, {}).get(upos, case['deprel'])
    if base == 'advmod' and want == case['deprel'] and upos != 'ADV':
        want = ('mark' if case['parent'] == 'VERB' else 'case') if upos in ('ADP', 'SCONJ') else 'dep'
    equal([(n.parent.ord, n.deprel, n.upos) for n in nodes[1:]], [(0, 'root', case['parent']), (1, want, upos)], 'fix-advmod', str(case))


# ---------------------------------------------------------------- ud.AddPunctType
PUNCT = {'(': ('Brck', 'Ini'), ')': ('Brck', 'Fin'), '[': ('Brck', 'Ini'), ']': ('Brck', 'Fin'), '{': ('Brck', 'Ini'), '}': ('Brck', 'Fin'),
         '.': ('Peri', ''), '...': ('Elip', ''), '…': ('Elip', ''), ',': ('Comm', ''), ';': ('Semi', ''), ':': ('Colo', ''), '!': ('Excl', 'Fin'), '¡': ('Excl', 'Ini'),
         '?': ('Qest', 'Fin'), '¿': ('Qest', 'Ini'), '/': ('Colo', ''), '-': ('Dash', ''), '–': ('Dash', ''), '—': ('Dash', ''), '"': ('Quot', ''), "'": ('Quot', ''),
         '`': ('Quot', ''), '“': ('Quot', ''), '”': ('Quot', ''), '„': ('Quot', ''), '‘': ('Quot', ''), '’': ('Quot', ''), '‚': ('Quot', ''), '«': ('Quot', ''),
         '»': ('Quot', ''), '‹': ('Quot', ''), '›': ('Quot', ''), '《': ('Quot', 'Ini'), '》': ('Quot', 'Fin'), '「': ('Quot', 'Ini'), '」': ('Quot', 'Fin'),
         '『': ('Quot', 'Ini'), '』': ('Quot', 'Fin')}


def case_punct_type(case, rec):
    from udapi.block.ud.addpuncttype import AddPunctType
    nodes = trees.build((0, 1), in_doc=True)
    nodes[2].form, nodes[2].upos, nodes[2].feats = case['form'], case['upos'], case['old']
    AddPunctType().run(nodes[0].document)
    rec.step()
    kind, side = PUNCT.get(case['form'], ('', '')) if case['upos'] == 'PUNCT' else ('', '')
    want = {'Case': 'Nom'} if 'Case' in case['old'] else {}
    if kind:
        want['PunctType'] = kind
    if side:
        want['PunctSide'] = side
    equal([dict(nodes[1].feats), dict(nodes[2].feats)], [{}, want], 'add-punct-type', str(case))


# ---------------------------------------------------------------- ud.SetTranslation
COMMENTS = ((), (' a = b',), (' text_en = old',), (' a = b', ' text_en = old', ' c'), (' text_enx = y', ' x text_en = z'))


def case_translation(case, rec):
    from udapi.block.ud.settranslation import SetTranslation
    from udapi.core.document import Document
    doc = Document()
    for layout in case['layout']:
        root = trees.build_into(doc.create_bundle().create_tree(), (0,))[0]
        if COMMENTS[layout]:
            root.comment = '\n'.join(COMMENTS[layout]) + ('\n' if case['final'] else '')
    with scratch() as path:
        name = f'{path}/translations.txt'
        with open(name, 'w', encoding='utf-8') as handle:
            handle.write('\n'.join(f'Sentence {i}.' for i in range(case['lines'])) + ('\n' if case['final'] and case['lines'] else ''))
        SetTranslation(file=name, **({'overwrite': True} if case['overwrite'] else {} if sum(case['layout']) % 2 else {'overwrite': False})).run(doc)
    rec.step()
    for i, (layout, bundle) in enumerate(zip(case['layout'], doc.bundles)):
        want = list(COMMENTS[layout])
        if i < case['lines']:
            if ' text_en = old' not in want:
                want.append(f' text_en = Sentence {i}.')
            elif case['overwrite']:
                want[want.index(' text_en = old')] = f' text_en = Sentence {i}.'
        comment = bundle.trees[0].comment
        equal(comment.rstrip('\n').split('\n') if comment else [], want, 'set-translation', str(case))


# ---------------------------------------------------------------- ud.FixPseudoCop
def case_pseudocop(case, rec):
    from udapi.block.ud.fixpseudocop import FixPseudoCop
    heads, which, mode = case['heads'], case['which'], case['mode']
    labels = list(case['labels'])
    labels.insert(which - 1, ('cop', 'cop:x', 'aux', 'aux', 'dep', 'cop')[mode])
    nodes = trees.build(heads, in_doc=True)
    for node, label in zip(nodes[1:], labels):
        node.deprel = label
    nodes[which].lemma = 'be' if mode < 5 else 'seem'
    nodes[which].upos = 'AUX'
    noncopaux = mode in (3, 4)
    FixPseudoCop(lemmas='become,be,see', **({'noncopaux': True} if noncopaux else {'noncopaux': False} if which % 2 else {})).run(nodes[0].document)
    rec.step()
    trees.check_tree(nodes[0])
    want = list(zip(heads, labels))
    upos = 'AUX'
    if mode in (0, 1, 3):
        pred = heads[which - 1]
        want[which - 1] = (heads[pred - 1], labels[pred - 1])
        want[pred - 1] = (which, 'xcomp')
        upos = 'VERB'
        for i, head in enumerate(heads, 1):
            if head == pred and i != which and u(labels[i - 1]) in ('nsubj', 'obl', 'mark'):
                want[i - 1] = (which, labels[i - 1])
    elif mode == 4:
        upos = 'VERB'
    equal([(n.parent.ord, n.deprel) for n in nodes[1:]], want, 'fix-pseudo-cop', str(case))
    equal([n.upos for n in nodes[1:]], ['X' if i != which else upos for i in range(1, len(heads) + 1)], 'fix-pseudo-cop-upos', str(case))


# ---------------------------------------------------------------- ud.Basic2Enhanced
def case_enhanced(case, rec):
    from udapi.block.ud.basic2enhanced import Basic2Enhanced
    heads = case['heads']
    nodes = trees.build(heads, in_doc=True)
    want = []
    for i, (node, given) in enumerate(zip(nodes[1:], case['given']), 1):
        node.deprel = f'd{i}:x'
        if given == 1:
            node.raw_deps = '0:other|1:second'
        elif given == 2:
            equal(node.deps, [], 'enhanced-deps', str(case))
        want.append('0:other|1:second' if given == 1 else f'{heads[i - 1]}:d{i}:x')
    empty = None
    if case['empties']:
        empty = nodes[1].create_empty_child('conj')
    Basic2Enhanced().run(nodes[0].document)
    rec.step()
    equal([n.raw_deps for n in nodes[1:]], want, 'basic2enhanced', str(case))
    for node, raw in zip(nodes[1:], want):
        equal([(d['parent'].ord, d['deprel']) for d in node.deps], [(int(x.split(':', 1)[0]), x.split(':', 1)[1]) for x in raw.split('|')], 'basic2enhanced-deps', str(case))
    if empty:
        equal(empty.raw_deps, '1:conj', 'basic2enhanced-empty', str(case))
    equal([n.parent.ord for n in nodes[1:]], list(heads), 'basic2enhanced-tree', str(case))


# ---------------------------------------------------------------- ud.PrintFixed
KNOWN = [[], ['a b'], ['a b', 'b a'], ['a b a', 'b a'], ['b a b', 'a b a b'], ['a b a b', 'a b c'], ['a c']]


def case_printfixed(case, rec):
    from udapi.block.ud.printfixed import PrintFixed
    heads, labels, mode = case['heads'], case['labels'], case['mode']
    n = len(heads)
    nodes = trees.build(heads, in_doc=True)
    forms = [('A', 'b', 'a', 'B')[i] for i in range(n)]
    upos = [('X', 'ADP', 'X', 'DET')[i] for i in range(n)]
    for i, node in enumerate(nodes[1:]):
        node.form, node.deprel, node.upos = forms[i], labels[i], upos[i]
    known = KNOWN[mode]
    only_forms = mode % 2 == 0
    handle = io.StringIO()
    with scratch() as path:
        name = f'{path}/known.txt'
        with open(name, 'w', encoding='utf-8') as file:
            file.write(''.join(line + '\n' for line in known))
        with contextlib.redirect_stdout(handle):
            PrintFixed(only_forms=only_forms, known_expressions=name if known else None).run(nodes[0].document)
    rec.step()
    want = []
    for i in range(1, n + 1):
        fixed = [k for k in range(1, n + 1) if heads[k - 1] == i and u(labels[k - 1]) == 'fixed']
        if fixed:
            inside = [k == i or k in fixed for k in range(i, fixed[-1] + 1)]
            text = ' '.join(forms[k - 1].lower() if own else 'X' for k, own in enumerate(inside, i))
            tags = ' '.join(upos[k - 1] if own else 'X' for k, own in enumerate(inside, i))
            want.append(text if only_forms else f'{text} / {tags} / {labels[i - 1]}')
        else:
            for length in range(2, n - i + 2):
                text = ' '.join(forms[k - 1].lower() for k in range(i, i + length))
                if text in known:
                    tags = ' '.join(upos[i - 1:i - 1 + length])
                    want.append(text if only_forms else f'{text} / {tags} / NOT FIXED')
                    break
    equal(handle.getvalue(), ''.join(line + '\n' for line in want), 'print-fixed', str(case))
