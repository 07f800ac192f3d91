"""C32: ud.Convert1to2 makes exactly the documented changes from UD v1 to UD v2."""
import contextlib
import io
import itertools
import logging

from mc import trees
from mc.core import Fail, require, raises

TITLE = ('All trees of up to four (five) words over the labels each of the documented changes looks at, every change alone and all of them together, with every '
         'combination of skipped changes on the smaller ones; every result is compared with a reference written from the documentation of the block, and '
         'converted again')
ASSUMPTIONS = ['conjuncts follow the head of their coordination, as in all UD v1 treebanks (otherwise only the structure of the tree is checked)',
               'the depth of nested ellipses is two']
LOCAL = ['upos', 'upos_copula', 'deprel_simple', 'neg', 'nmod', 'feats']
ALL = LOCAL + ['remnants', 'goeswith', 'flat', 'coord', 'text']
RENAMED = {'mwe': 'fixed', 'dobj': 'obj', 'nsubjpass': 'nsubj:pass', 'csubjpass': 'csubj:pass', 'auxpass': 'aux:pass', 'name': 'flat:name', 'foreign': 'flat'}
PRIORITY = ['nsubj', 'obj', 'iobj', 'obl', 'advmod', 'csubj', 'xcomp', 'ccomp', 'advcl']


def BOUNDS(tier):
    big = tier != 'quick'
    return {'local_words': 2, 'nmod_words': 4 if big else 3, 'flat_words': 5 if big else 4, 'coord_words': 5 if big else 4, 'remnant_words': 6 if big else 5,
            'all_words': 4 if big else 3, 'text_words': 3, 'long_trees_words': 12}


ONE_DEPRELS = ['mwe', 'dobj', 'nsubjpass', 'csubjpass', 'auxpass', 'name', 'foreign', 'neg', 'cop', 'nmod', 'nmod:tmod', 'nmod:poss', 'mwe:x', 'name:y', 'dobj:z',
               'foreign:w', 'neg:v', 'dep', 'conj', 'amwe']
ONE_UPOS = ['CONJ', 'CCONJ', 'AUX', 'PRON', 'NOUN', 'VERB', 'ADV', 'PART', 'DET', 'INTJ', 'ADJ', 'X']
ONE_FEATS = ['_', 'Negative=Neg', 'Negative=Pos|Polarity=Neg', 'Aspect=Pro', 'VerbForm=Trans', 'Definite=Red', 'Foreign=Foreign', 'Tense=Nar', 'NumType=Gen',
             'PronType=Neg', 'PronType=Ind,Neg', 'PronType=Int', 'Aspect=Perf|Definite=Def|Foreign=Yes|Tense=Past|VerbForm=Fin', 'NumType=Gen|Tense=Nar']
NMOD = [('nmod', 'NOUN'), ('nmod:tmod', 'VERB'), ('nmod:poss', 'PRON'), ('nmod:x', 'ADJ'), ('cop', 'NOUN'), ('nsubjpass', 'ADV'), ('dep', 'X'), ('neg', 'INTJ')]
FLAT = ['flat', 'goeswith', 'name', 'foreign', 'dep', 'flat:z']
COORD = ['cc', 'punct,', 'punct;', 'punct.', 'conj', 'dep', 'cc:preconj']
MIXED = [('name', 'PROPN', '_', 'a'), ('nmod', 'NOUN', '_', 'a'), ('cop', 'CONJ', 'Negative=Neg', 'a'), ('neg', 'INTJ', '_', 'a'), ('goeswith', 'VERB', '_', 'a'),
         ('remnant', 'NOUN', 'Tense=Nar', 'a'), ('dobj', 'ADJ', 'Foreign=Foreign', 'a'), ('foreign', 'ADV', '_', 'a'), ('conj', 'DET', 'PronType=Neg', 'a'),
         ('cc', 'CONJ', '_', 'a'), ('punct', 'PUNCT', '_', ',')]
TEXTS = [None, 'a b c', 'a  b c ', 'a bc', 'ab c', 'abc', 'x', '']


def shards(tier):
    bounds = BOUNDS(tier)
    result = [{'kind': 'one', 'deprel': i} for i in range(len(ONE_DEPRELS))]
    result += [{'kind': 'pair', 'deprel': i} for i in range(len(ONE_DEPRELS))]
    for kind, top, labels in (('nmod', bounds['nmod_words'], NMOD), ('flat', bounds['flat_words'], FLAT), ('coord', bounds['coord_words'], COORD),
                              ('all', bounds['all_words'], MIXED)):
        for n in range(1, top + 1):
            for first in range(len(labels)):
                for heads in trees.head_vectors(n):
                    if n < 5:
                        if heads[0] == 0 or n == 1:
                            result.append({'kind': kind, 'n': n, 'first': first, 'head': None})
                            break
                    else:
                        break
                if n >= 5:
                    result += [{'kind': kind, 'n': n, 'first': first, 'head': head} for head in (0, 2, 3, 4, 5)]
    for n in range(1, bounds['remnant_words'] + 1):
        result += [{'kind': 'remnant', 'n': n, 'head': head} for head in range(n + 1) if head != 1]
    result += [{'kind': 'long', 'shape': i} for i in range(len(trees.long_trees()))]
    result += [{'kind': 'text'}, {'kind': 'skip'}, {'kind': 'stats'}]
    for shard in result:
        shard['bounds'] = bounds
    return result


def run_shard(shard, rec):
    kind, bounds = shard['kind'], shard['bounds']
    if kind == 'one':
        deprel = ONE_DEPRELS[shard['deprel']]
        for upos, feats in itertools.product(ONE_UPOS, ONE_FEATS):
            if 'Negative=Pos' in feats and deprel.startswith('neg'):
                continue  # contradictory
            rec.run({'kind': 'local', 'heads': [0], 'words': [[deprel, upos, feats, 'a']]})
    elif kind == 'pair':
        deprel = ONE_DEPRELS[shard['deprel']]
        for upos, feats, other, parent in itertools.product(ONE_UPOS, ('_', 'PronType=Neg', 'Negative=Neg'), ('root', 'cop', 'nsubj', 'dobj'), ONE_UPOS):
            for heads in ([2, 0], [0, 1], [0, 0]):
                words = [[deprel, upos, feats, 'a'], [other, parent, '_', 'a']]
                rec.run({'kind': 'local', 'heads': heads, 'words': words if heads[0] else words[::-1]})
    elif kind in ('nmod', 'flat', 'coord', 'all'):
        labels = {'nmod': NMOD, 'flat': FLAT, 'coord': COORD, 'all': MIXED}[kind]
        n = shard['n']
        for heads in trees.head_vectors(n):
            if shard['head'] is not None and heads[0] != shard['head']:
                continue
            if kind in ('coord', 'all') and n > 3 and sum(h == 0 for h in heads) > 1:
                continue
            for rest in itertools.product(labels, repeat=n - 1):
                words = [expand(kind, label) for label in (labels[shard['first']],) + rest]
                rec.run({'kind': 'local' if kind == 'nmod' else kind, 'heads': list(heads), 'words': words})
    elif kind == 'long':
        # trees of 12 words with labels repeated periodically
        heads = trees.long_trees()[shard['shape']]
        for name, labels in (('nmod', NMOD), ('flat', FLAT), ('coord', COORD), ('all', MIXED)):
            if name not in ('coord', 'all') or heads.count(0) == 1:
                for size in (1, 2) if name != 'coord' else (1, 2, 3):
                    for part in itertools.product(labels, repeat=size):
                        rec.run({'kind': 'local' if name == 'nmod' else name, 'heads': list(heads), 'words': [expand(name, label) for label in (part * 12)[:12]]})
        for part in itertools.product(('remnant', 'nsubj', 'dep'), repeat=4):
            if 'remnant' in part and heads.count(0) == 1:
                rec.run({'kind': 'remnant', 'heads': list(heads), 'words': [[label, 'NOUN', '_', 'a'] for label in part * 3]})
    elif kind == 'remnant':
        n = shard['n']
        for heads in trees.head_vectors(n):
            if heads[0] != shard['head'] or sum(h == 0 for h in heads) != 1:
                continue
            for marked in itertools.product((False, True), repeat=n):
                if not any(marked):
                    continue
                free = [i for i in range(n) if not marked[i]]
                labels = ['nsubj', 'obj', 'dep', 'advmod'] if n < 5 else ['nsubj', 'obl', 'dep']
                if n > 5:
                    choices = [tuple(labels[(i + shift) % 3] for i in range(len(free))) for shift in range(3)]
                else:
                    choices = itertools.product(labels, repeat=len(free))
                for deprels in choices:
                    chosen = dict(zip(free, deprels))
                    rec.run({'kind': 'remnant', 'heads': list(heads), 'words': [[chosen.get(i, 'remnant'), 'NOUN', '_', 'a'] for i in range(n)]})
    elif kind == 'text':
        for n in range(bounds['text_words'] + 1):
            for glue in itertools.product((False, True), repeat=n):
                for text in TEXTS:
                    rec.run({'kind': 'text', 'glue': list(glue), 'text': text})
    elif kind == 'skip':
        words = [['neg', 'INTJ', 'Negative=Neg', 'a'], ['dobj', 'CONJ', 'Tense=Nar', 'a'], ['cop', 'NOUN', 'Aspect=Pro', 'a'], ['nmod', 'DET', '_', 'a']]
        for skipped in itertools.product((False, True), repeat=len(LOCAL)):
            for heads in ([2, 0, 2, 2], [3, 0, 2, 3], [0, 3, 1, 2], [0, 1, 2, 3]):
                rec.run({'kind': 'local', 'heads': heads, 'words': words, 'skip': [x for x, s in zip(LOCAL, skipped) if s]})
        for skipped in itertools.product((False, True), repeat=len(ALL)):
            rec.run({'kind': 'skip', 'skip': [x for x, s in zip(ALL, skipped) if s]})
    elif kind == 'stats':
        for size in range(4):
            for chosen in itertools.product(range(4), repeat=size):
                for save in (True, False):
                    rec.run({'kind': 'stats', 'trees': list(chosen), 'save': save})


def expand(kind, label):
    if kind == 'nmod':
        return [label[0], label[1], '_', 'a']
    if kind == 'all':
        return list(label)
    if kind == 'coord' and label.startswith('punct'):
        return ['punct', 'PUNCT', '_', label[5:]]
    return [label, 'NOUN', '_', 'a']


# ---------------------------------------------------------------- the code under test

def make(heads, words):
    root, nodes = (lambda built: (built[0], built))(trees.build(heads))
    for node, (deprel, upos, feats, lemma) in zip(nodes[1:], words):
        node.deprel, node.upos, node.feats, node.lemma = deprel, upos, feats, lemma
    return root, nodes[1:]


def convert(root, skip):
    from udapi.block.ud.convert1to2 import Convert1to2
    block = Convert1to2(skip=','.join(skip))
    error = raises(block.process_tree, root)
    require(error is None, 'convert-raised', lambda: f'{error!r}')
    return block


def rows(root):
    return [[n.parent.ord, n.deprel, n.upos, str(n.feats), n.lemma, n.form, str(n.misc), n.xpos] for n in root.descendants]


def run_case(case, rec):
    logging.disable(logging.CRITICAL)
    rec.state(case)
    globals()['run_' + case['kind']](case, rec)


def run_local(case, rec):
    """All edits of single words, alone and together."""
    heads, words = case['heads'], case['words']
    skips = [case['skip']] if 'skip' in case else [[], *([x for x in LOCAL if x != only] for only in LOCAL)]
    for skip in skips:
        root, nodes = make(heads, words)
        block = convert(root, skip + ['remnants', 'goeswith', 'flat', 'coord', 'text'])
        rec.step()
        trees.check_tree(root, nodes)
        require([n.parent.ord for n in nodes] == heads, 'local-edit-moved-a-word', lambda: f'{[n.parent.ord for n in nodes]}')
        want, todo = model_local(heads, words, skip)
        got = [[n.deprel, n.upos, dict(n.feats), set(n.misc['ToDo'].split(',')) - {''}] for n in nodes]
        require(got == want, 'local-edit', lambda: f'skip={skip} got {got} expected {want}')
        require(dict(block.stats) == todo, 'local-todo-counts', lambda: f'skip={skip} {dict(block.stats)} expected {todo}')
        before = rows(root)
        convert(root, skip + ['remnants', 'goeswith', 'flat', 'coord', 'text'])
        require(rows(root) == before, 'local-edits-not-idempotent', lambda: f'skip={skip} {before} then {rows(root)}')


def parse_feats(text):
    return {} if text == '_' else dict(x.split('=') for x in text.split('|'))


def model_local(heads, words, skip):
    """The documented edits: every one of them on the whole sentence."""
    n = len(heads)
    deprel, upos, feats = [w[0] for w in words], [w[1] for w in words], [parse_feats(w[2]) for w in words]
    todo = [set() for _ in range(n)]
    counts = {}

    def log(i, what):
        todo[i].add(what)
        counts[what] = counts.get(what, 0) + 1

    def kids(i):
        return [j for j in range(n) if heads[j] == i + 1]
    if 'upos' not in skip:
        upos = ['CCONJ' if u == 'CONJ' else u for u in upos]
    if 'upos_copula' not in skip:
        upos = ['AUX' if d == 'cop' and u not in ('AUX', 'PRON') else u for d, u in zip(deprel, upos)]
    if 'deprel_simple' not in skip:
        for i in range(n):
            main, _, sub = deprel[i].partition(':')
            if main == 'foreign':
                feats[i]['Foreign'] = 'Yes'
            if main in RENAMED:
                if sub and ':' in RENAMED[main]:
                    deprel[i] = RENAMED[main]
                    log(i, 'deprel')
                else:
                    deprel[i] = RENAMED[main] + (':' + sub if sub else '')
    if 'neg' not in skip:
        for i in range(n):
            if deprel[i] != 'neg':
                continue
            if 'Neg' not in feats[i].get('PronType', ''):
                feats[i]['Polarity'] = 'Neg'
            if upos[i] == 'DET':
                deprel[i] = 'det'
            elif upos[i] in ('ADV', 'PART', 'AUX'):
                deprel[i] = 'advmod'
            elif upos[i] == 'INTJ':
                deprel[i] = 'advmod'
                head = heads[i] - 1
                if head >= 0 and upos[head] == 'VERB' or any(deprel[j] == 'cop' for j in kids(head)):
                    upos[i] = 'PART'
            else:
                log(i, 'neg')
    if 'nmod' not in skip:
        for i in range(n):
            if deprel[i].split(':')[0] != 'nmod':
                continue
            head = heads[i] - 1
            predicate = any('subj' in deprel[j] or deprel[j] == 'cop' for j in kids(head))
            tag = upos[head] if head >= 0 else None
            if tag in ('VERB', 'AUX', 'ADV') or tag == 'ADJ' and predicate:
                deprel[i] = 'obl' + deprel[i][4:]
            elif deprel[i] == 'nmod:tmod':
                deprel[i] = 'obl:tmod'
            elif deprel[i] != 'nmod:poss' and (predicate or tag not in ('NOUN', 'PRON', 'PROPN', 'NUM', 'DET')):
                log(i, 'nmod')
    if 'feats' not in skip:
        for i in range(n):
            f = feats[i]
            if 'Negative' in f:
                f['Polarity'] = f.pop('Negative')
            for name, old, new in (('Aspect', 'Pro', 'Prosp'), ('VerbForm', 'Trans', 'Conv'), ('Definite', 'Red', 'Cons'), ('Foreign', 'Foreign', 'Yes')):
                if f.get(name) == old:
                    f[name] = new
            if f.get('Tense') == 'Nar':
                log(i, 'nar')
            if f.get('NumType') == 'Gen':
                log(i, 'gen')
    return [list(x) for x in zip(deprel, upos, feats, todo)], counts


def run_flat(case, rec):
    """flat and goeswith become head-initial."""
    heads, words = case['heads'], case['words']
    n = len(heads)
    for kinds in (['flat'], ['goeswith'], ['flat', 'goeswith']):
        skip = [x for x in ALL if x not in kinds]
        root, nodes = make(heads, words)
        convert(root, skip)
        rec.step()
        trees.check_tree(root, nodes)
        got = [[x.parent.ord, x.deprel] for x in nodes]
        bad = [x for x in nodes if x.udeprel in kinds and not x.parent.is_root() and x.precedes(x.parent)]
        require(not bad, 'head-final-left', lambda: f'{kinds} words {[x.ord for x in bad]} of {got}')
        require(sorted(d for _, d in got) == sorted(w[0] for w in words), 'flat-deprels-changed', lambda: f'{kinds} {got}')
        wanted = model_flat(heads, [w[0] for w in words], kinds)
        if wanted is not None:
            require(got == wanted, 'flat', lambda: f'{kinds} {got} expected {wanted}')
        require([row[2:] for row in rows(root)] == [[w[1], w[2], w[3], trees.LABELS[i], '_', None] for i, w in enumerate(words)], 'flat-other-attributes',
                lambda: f'{rows(root)}')
        before = rows(root)
        convert(root, skip)
        require(rows(root) == before, 'flat-not-idempotent', lambda: f'{kinds} {before} then {rows(root)}')
    for only in ([],):
        root, nodes = make(heads, words)
        convert(root, [x for x in ALL if x not in ('deprel_simple', 'flat', 'goeswith')])
        bad = [x for x in nodes if x.udeprel in ('flat', 'goeswith') and not x.parent.is_root() and x.precedes(x.parent)]
        require(not bad, 'head-final-left', lambda: f'after renaming: words {[x.ord for x in bad]} of {[[x.parent.ord, x.deprel] for x in nodes]}')


def model_flat(heads, deprels, kinds):
    """The result if no reversed expression is a part of another one (None otherwise)."""
    n = len(heads)
    heads, deprels = list(heads), list(deprels)
    groups = []
    for head in range(1, n + 1):
        for kind in kinds:
            parts = [i for i in range(1, n + 1) if heads[i - 1] == head and deprels[i - 1].split(':')[0] == kind]
            if parts and parts[0] < head:
                groups.append((head, parts))
    if len(groups) > 1:
        return None
    for head, parts in groups:
        first = parts[0]
        if deprels[head - 1].split(':')[0] in kinds and first < heads[head - 1]:
            return None
        kids = [i for i in range(1, n + 1) if heads[i - 1] == head]
        if any(deprels[i - 1].split(':')[0] in kinds and i < first for i in kids):
            return None
        heads[first - 1], old = heads[head - 1], deprels[first - 1]
        deprels[first - 1], deprels[head - 1] = deprels[head - 1], old
        for i in kids + [head]:
            if i != first:
                heads[i - 1] = first
    return [list(x) for x in zip(heads, deprels)]


def crossing(heads):
    spans = [(min(i, h), max(i, h)) for i, h in enumerate(heads, 1)]
    return any(a < c < b < d for a, b in spans for c, d in spans)


def run_coord(case, rec):
    """cc and punctuation in coordinations depend on the following conjunct."""
    heads, words = case['heads'], case['words']
    n = len(heads)
    root, nodes = make(heads, words)
    block = convert(root, [x for x in ALL if x != 'coord'])
    rec.step()
    trees.check_tree(root, nodes)
    got = [x.parent.ord for x in nodes]
    deprels = [w[0] for w in words]
    require([x.deprel for x in nodes] == deprels, 'coord-deprels', '')
    movable = [d == 'cc' or d == 'punct' and w[3] in (',', ';') for d, w in zip(deprels, words)]
    for i in range(n):
        if got[i] != heads[i]:
            require(movable[i], 'coord-moved-other-word', lambda: f'word {i + 1}: {got}')
            require(got[i] > i + 1 and deprels[got[i] - 1] == 'conj', 'coord-not-moved-to-following-conjunct', lambda: f'word {i + 1}: {got}')
    if any(d == 'conj' and heads[i] > i + 1 for i, d in enumerate(deprels)):
        return
    require(crossing(heads) or not crossing(got), 'coord-crossing', lambda: f'{heads} to {got}')
    # the words are processed from left to right, those moved are not siblings any more
    now = list(heads)
    todo = [set() for _ in range(n)]
    for i in range(1, n + 1):
        if not movable[i - 1]:
            continue
        head = now[i - 1]
        siblings = [j for j in range(1, n + 1) if now[j - 1] == head]
        conjuncts = [j for j in siblings if deprels[j - 1] == 'conj']
        later = [j for j in conjuncts if j > i]
        if not conjuncts:
            if deprels[i - 1] == 'cc' and 0 < head < i:
                todo[i - 1].add('cc-without-conj')
            elif deprels[i - 1] == 'cc' and not head:
                todo[i - 1].add('cc-without-conj')
        elif i < conjuncts[0] and i < head:
            pass
        elif not later:
            if deprels[i - 1] == 'cc':
                todo[i - 1].add('cc-after-conj')
        elif [j for j in siblings if i < j < later[0] and deprels[j - 1] != 'cc']:
            todo[i - 1].add(deprels[i - 1] + '-in-coord')
        else:
            now[i - 1] = later[0]
    require(got == now, 'coord', lambda: f'{got} expected {now}')
    marks = [set(x.misc['ToDo'].split(',')) - {''} for x in nodes]
    require(marks == todo, 'coord-todo', lambda: f'{marks} expected {todo}')
    require(sum(block.stats.values()) == sum(map(len, todo)), 'coord-todo-counts', lambda: f'{block.stats}')


def run_remnant(case, rec):
    """Remnants become a conjunct with orphans."""
    heads, words = case['heads'], case['words']
    n = len(heads)
    root, nodes = make(heads, words)
    block = convert(root, [x for x in ALL if x != 'remnants'])
    rec.step()
    trees.check_tree(root, nodes)
    got = [[x.parent.ord, x.deprel, x.misc['orig_deprel']] for x in nodes]
    deprels = [w[0] for w in words]
    old = [[h, d, ''] for h, d in zip(heads, deprels)]
    remnants = [i for i in range(1, n + 1) if deprels[i - 1] == 'remnant']

    def up(i):
        path = [i]
        while path[-1]:
            path.append(heads[path[-1] - 1])
        return path
    first_parent = heads[remnants[0] - 1]
    grandpa = heads[first_parent - 1] if first_parent else 0
    common = [i for i in up(grandpa) if i not in remnants and all(i in up(r) for r in remnants)][0]
    if common == 0:
        require(got == old and block.stats['remnant'] == 1 and nodes[remnants[0] - 1].misc['ToDo'] == 'remnant', 'remnant-under-root', lambda: f'{got} {dict(block.stats)}')
        return
    require(not any(d == 'remnant' for _, d, _ in got), 'remnant-left', lambda: f'{got}')
    for i in range(1, n + 1):
        if i not in remnants:
            require(got[i - 1] == old[i - 1], 'remnant-moved-other-word', lambda: f'word {i}: {got}')
    # levels of chained remnants, each has the deprel of the word at the beginning of the chain
    level = [r for r in remnants if heads[r - 1] not in remnants]
    origin = {r: deprels[heads[r - 1] - 1] for r in level}
    many = 0
    while level:
        promoted = [r for r in level if got[r - 1][1] == 'conj']
        require(len(promoted) == 1, 'remnant-promoted', lambda: f'{level}: {got}')
        promoted = promoted[0]
        require(got[promoted - 1][0] == common, 'remnant-conjunct-parent', lambda: f'{got} expected {common}')
        rank = {r: -PRIORITY.index(origin[r]) if origin[r] in PRIORITY else -99 for r in level}
        require(rank[promoted] == max(rank.values()), 'remnant-wrong-promoted', lambda: f'{promoted} of {level} with {origin}')
        for r in level:
            expected = [common, 'conj', '' if deprels[common - 1] == origin[r] else origin[r]] if r == promoted else [promoted, 'orphan', origin[r]]
            require(got[r - 1] == expected, 'remnant', lambda: f'word {r}: {got[r - 1]} expected {expected}')
        chained = []
        for r in level:
            kids = [i for i in remnants if heads[i - 1] == r]
            many += len(kids) > 1
            for kid in kids:
                origin[kid] = origin[r]
            chained += kids
        level = chained
    require(block.stats['more-remnant-children'] == many, 'remnant-chains-counted', lambda: f'{dict(block.stats)} expected {many}')


def run_all(case, rec):
    """Everything together: a valid tree without the things of UD v1, nothing more to do without coordinations."""
    heads, words = case['heads'], case['words']
    root, nodes = make(heads, words)
    convert(root, [])
    rec.step()
    trees.check_tree(root, nodes)
    require(root.text == root.compute_text(), 'all-text', lambda: f'{root.text!r}')
    for node in nodes:
        require(node.udeprel not in RENAMED, 'all-old-deprel', lambda: f'{rows(root)}')
        require(node.upos != 'CONJ' and not node.feats['Negative'] and node.feats['Foreign'] != 'Foreign', 'all-old-label', lambda: f'{rows(root)}')
        marks = node.misc['ToDo'].split(',')
        require(node.deprel != 'neg' or 'neg' in marks, 'all-neg', lambda: f'{rows(root)}')
        require(node.udeprel not in ('flat', 'goeswith') or node.parent.is_root() or node.parent.precedes(node), 'all-head-final', lambda: f'{rows(root)}')
    require(not any(n.deprel == 'remnant' for n in nodes) or any('remnant' in n.misc['ToDo'] for n in nodes), 'all-remnant', lambda: f'{rows(root)}')
    flats = [RENAMED.get(w[0], w[0]).split(':')[0] in ('flat', 'goeswith') for w in words]
    if any(flat and head > i + 1 for i, (flat, head) in enumerate(zip(flats, heads))):
        return  # other words become heads, then neg, cop and nmod may be decided in another way
    root, nodes = make(heads, words)
    convert(root, ['coord'])
    before = rows(root)
    convert(root, ['coord'])
    require(rows(root) == before, 'all-not-idempotent', lambda: f'{before} then {rows(root)}')


def run_text(case, rec):
    glue = case['glue']
    root, nodes = make([0] * len(glue), [['dep', 'X', '_', 'a']] * len(glue))
    for node, form, glued in zip(nodes, 'abc', glue):
        node.form = form
        if glued:
            node.misc['SpaceAfter'] = 'No'
    root.text = case['text']
    root.comment = ' kept\n'
    computed = root.compute_text()
    block = convert(root, [x for x in ALL if x != 'text'])
    rec.step()
    old = case['text']
    if old is None or old == computed:
        expected = (computed, ' kept\n', 0)
    elif ' '.join(old.split()) == computed:
        expected = (old, ' kept\n', 0)
    else:
        expected = (computed, ' kept\n ToDoOrigText = ' + old + '\n', 1)
    got = (root.text, root.comment, block.stats['text'])
    require(got[0] == expected[0] and got[1].rstrip() == expected[1].rstrip() and got[2] == expected[2], 'text', lambda: f'{got} expected {expected}')
    state = (root.text, root.comment)
    convert(root, [x for x in ALL if x != 'text'])
    require((root.text, root.comment) == state, 'text-not-idempotent', lambda: f'{state} then {(root.text, root.comment)}')


def run_skip(case, rec):
    """Every change can be skipped alone: a sentence with one place for each of them."""
    heads = [2, 0, 2, 5, 3, 2, 8, 2, 2, 11, 9, 3, 9]
    words = [['dep', 'CONJ', '_', 'a'], ['root', 'VERB', '_', 'a'], ['dobj', 'NOUN', '_', 'a'], ['goeswith', 'X', '_', 'a'], ['dep', 'X', '_', 'a'],
             ['nmod', 'NOUN', '_', 'a'], ['flat', 'X', '_', 'a'], ['dep', 'X', '_', 'a'], ['conj', 'VERB', 'Negative=Neg', 'a'], ['neg', 'PART', '_', 'a'],
             ['dep', 'X', '_', 'a'], ['remnant', 'NOUN', '_', 'a'], ['cop', 'VERB', '_', 'a']]
    heads, words = heads + [2], words[:5] + words[5:] + [['cc', 'X', '_', 'a']]
    heads[13], heads[8] = 2, 2
    heads += [2]
    words += [['conj', 'X', '_', 'a']]
    root, nodes = make(heads, words)
    root.text = 'x'
    convert(root, case['skip'])
    rec.step()
    trees.check_tree(root, nodes)
    by = {i + 1: n for i, n in enumerate(nodes)}
    simple = by[3].deprel
    done = {'upos': by[1].upos == 'CCONJ', 'upos_copula': by[13].upos == 'AUX', 'deprel_simple': simple == 'obj', 'neg': by[10].deprel == 'advmod',
            'nmod': by[6].deprel == 'obl', 'feats': by[9].feats['Polarity'] == 'Neg', 'goeswith': by[5].parent is by[4], 'flat': by[8].parent is by[7],
            'remnants': by[12].deprel == 'conj', 'coord': by[14].parent is by[15], 'text': root.text != 'x'}
    expected = {x: x not in case['skip'] for x in ALL}
    require(done == expected, 'skip', lambda: f'skip {case["skip"]}: done {done}')


def run_stats(case, rec):
    """The overview of a document counts all marks and starts again for the next document."""
    from udapi.block.ud.convert1to2 import Convert1to2
    from udapi.core.document import Document
    kinds = [[['dep', 'X', '_', 'a']], [['neg', 'X', '_', 'a']], [['nmod', 'X', 'Tense=Nar', 'a'], ['neg', 'NOUN', 'NumType=Gen', 'a']],
             [['name:x', 'X', 'Tense=Nar', 'a']]]
    todo = [{}, {'neg': 1}, {'nmod': 1, 'nar': 1, 'neg': 1, 'gen': 1}, {'deprel': 1, 'nar': 1}]
    block = Convert1to2() if case['save'] else Convert1to2(save_stats=False)
    for _ in range(2):
        document = Document()
        counts = {}
        for index in case['trees']:
            root = document.create_bundle().create_tree()
            for deprel, upos, feats, lemma in kinds[index]:
                root.create_child(form='a', lemma=lemma, upos=upos, deprel=deprel, feats=feats)
            for name, count in todo[index].items():
                counts[name] = counts.get(name, 0) + count
        with contextlib.redirect_stdout(io.StringIO()):
            block.apply_on_document(document)
        rec.step()
        require(('todo' in document.meta) == case['save'], 'stats-saved', lambda: f'{document.meta}')
        if case['save']:
            table = [line.split() for line in document.meta['todo'].split('\n')[1:] if line.strip()]
            want = sorted(counts.items(), key=lambda x: (x[1], x[0])) + [('TOTAL', sum(counts.values()))]
            require(table == [[a, str(b)] for a, b in want], 'stats', lambda: f'{table} expected {want}')
