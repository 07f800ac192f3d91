"""C26: ud.MarkBugs (and the base of ud.*.MarkFeatsBugs) report exactly the violations of the documented rules."""
import contextlib
import io
import itertools
import re

from mc.core import require, equal
from mc import trees

TITLE = ('All small trees x all values of the attributes relevant for each rule: the marks and statistics of ud.MarkBugs and the base of MarkFeatsBugs vs. an independent evaluation of the rules')
ASSUMPTIONS = ['cop-many-lemmas: checked if the most frequent lemmas are unambiguous']
UPOS = ('ADJ', 'ADP', 'ADV', 'AUX', 'CCONJ', 'DET', 'INTJ', 'NOUN', 'NUM', 'PART', 'PRON', 'PROPN', 'PUNCT', 'SCONJ', 'SYM', 'VERB', 'X')
DEPRELS = ('aux', 'aux:pass', 'fixed', 'goeswith', 'list', 'list:x', 'flat', 'flat:name', 'conj', 'appos', 'cop', 'mark', 'clf', 'case', 'case:x', 'det', 'punct', 'nsubj', 'advmod', 'cc', 'root', 'dep')


def BOUNDS(tier):
    return {'words_goeswith': 4, 'words_punct': 5 if tier != 'quick' else 4, 'children': 4 if tier != 'quick' else 3, 'cop_words': 6 if tier != 'quick' else 5}


def vectors(n):
    return trees.head_vectors(n) if n else [()]


def shards(tier):
    bounds = BOUNDS(tier)
    result = [{'kind': 'pairs', 'head': list(heads)} for heads in ((0, 1), (2, 0), (0, 0))]
    result += [{'kind': kind} for kind in ('upos', 'feats', 'forms', 'select', 'again', 'allowed')]
    result += [{'kind': 'children', 'n': n, 'place': place} for n in range(1, bounds['children'] + 1) for place in range(1, n + 2)]
    result += [{'kind': 'goeswith', 'heads': list(heads)} for n in range(2, 5) for heads in vectors(n)]
    result += [{'kind': 'punct', 'n': n, 'from': i, 'to': i + 20} for n in range(1, bounds['words_punct'] + 1) for i in range(0, len(vectors(n)), 20)]
    result += [{'kind': 'long', 'heads': list(heads)} for heads in trees.long_trees()]
    result += [{'kind': 'cop', 'n': n} for n in range(0, bounds['cop_words'] + 1)]
    return result[::-1]


def word(head, deprel='dep', upos='X', feats='_', form='w', lemma='l', misc='_'):
    return {'head': head, 'deprel': deprel, 'upos': upos, 'feats': feats, 'form': form, 'lemma': lemma, 'misc': misc}


def run_shard(shard, rec):
    kind = shard['kind']
    if kind == 'pairs':
        for deprels in itertools.product(DEPRELS, repeat=2):
            rec.run({'kind': 'marks', 'words': [word(h, d) for h, d in zip(shard['head'], deprels)]})
    elif kind == 'upos':
        for deprel in DEPRELS:
            for upos in UPOS + (None,):
                rec.run({'kind': 'marks', 'words': [word(0, 'root', 'NOUN'), word(1, deprel, upos, 'PronType=Prs|NumType=Card|VerbForm=Inf')]})
    elif kind == 'feats':
        for upos in UPOS:
            for pron, num, verb, mood in itertools.product(('', 'PronType=Prs'), ('', 'NumType=Card'), ('', 'VerbForm=Fin', 'VerbForm=Inf'), ('', 'Mood=Ind')):
                feats = '|'.join(f for f in (mood, num, pron, verb) if f) or '_'
                for zone in ('', 'en', 'id', 'id_x', 'hil', 'jvx'):
                    rec.run({'kind': 'marks', 'words': [word(0, 'root', upos, feats)], 'zone': zone})
    elif kind == 'forms':
        for form in ('a', '1', 'a1', '.', 'é', '.α', 'ab', '-', '五'):
            for upos in ('SYM', 'PUNCT', 'X', 'NOUN'):
                for deprel in ('punct', 'dep'):
                    rec.run({'kind': 'marks', 'words': [word(0, 'root'), word(1, deprel, upos, form=form)]})
    elif kind == 'children':
        n, place = shard['n'], shard['place']
        for deprels in itertools.product(('nsubj', 'csubj', 'nsubj:outer', 'nsubj:pass', 'obj', 'obj:x', 'iobj', 'ccomp'), repeat=n):
            words = [word(place, d) for d in deprels]
            words.insert(place - 1, word(0, 'root'))
            rec.run({'kind': 'marks', 'words': words})
    elif kind == 'long':
        kinds = (('nsubj', 'NOUN', '_', 'w', '_'), ('nsubj', 'VERB', 'VerbForm=Fin|Mood=Ind', 'w', '_'), ('punct', 'PUNCT', '_', '.', 'SpaceAfter=No'), ('goeswith', 'X', '_', 'w', '_'),
                 ('aux', 'AUX', 'VerbForm=Inf', 'w', '_'), ('obj', 'PRON', 'PronType=Prs', 'w', 'SpaceAfter=No'), ('cop', 'VERB', '_', 'w', '_'), ('iobj', 'NUM', '_', '1', '_'))
        for size in (1, 2, 3):
            for part in itertools.product(kinds, repeat=size):
                rec.run({'kind': 'marks', 'words': [word(h, 'root' if not h else d, u, f, form=w, misc=m) for h, (d, u, f, w, m) in zip(shard['heads'], part * 12)]})
    elif kind == 'goeswith':
        heads = shard['heads']
        for deprels in itertools.product(('goeswith', 'dep'), repeat=len(heads)):
            for spaces in itertools.product((0, 1), repeat=len(heads)):
                rec.run({'kind': 'marks', 'words': [word(h, d, misc='SpaceAfter=No' if s else '_') for h, d, s in zip(heads, deprels, spaces)]})
    elif kind == 'punct':
        for heads in vectors(shard['n'])[shard['from']:shard['to']]:
            for puncts in itertools.product((0, 1), repeat=len(heads)):
                rec.run({'kind': 'marks', 'words': [word(h, 'punct' if p else 'dep', 'PUNCT' if p else 'X', form='.' if p else 'w') for h, p in zip(heads, puncts)]})
    elif kind == 'select':
        words = [word(2, 'cop', 'VERB', form='a'), word(0, 'aux', 'PRON'), word(2, 'aux', 'PUNCT'), word(2, 'nsubj'), word(2, 'nsubj', 'NUM')]
        regexes = (None, '', '.*', 'aux', 'aux-chain|cop-upos', '^no-', 'no-(VerbForm|NumType|PronType)', 'chain$', 'zzz', 'punct-.*', 'subj')
        for tests in regexes:
            for skip in regexes:
                for save in (0, 1):
                    rec.run({'kind': 'marks', 'words': words, 'params': {'tests': tests, 'skip': skip, 'save_stats': bool(save)}})
    elif kind == 'again':
        words = [word(2, 'cop', 'VERB'), word(0, 'aux', 'PRON'), word(2, 'aux', 'AUX')]
        for old in itertools.product(('', 'aux-chain', 'x,no-PronType', 'y'), repeat=3):
            rec.run({'kind': 'marks', 'words': words, 'old': old})
            rec.run({'kind': 'marks', 'words': words, 'old': old, 'twice': True})
    elif kind == 'cop':
        for lemmas in itertools.product(('be', 'see', '_', 'go'), repeat=shard['n']):
            if shard['n'] < 6 or lemmas[0] == 'be':
                for limit in (0, 1, 2, 3):
                    rec.run({'kind': 'cop', 'lemmas': lemmas, 'limit': limit})
    elif kind == 'allowed':
        feats = ('_', 'A=1', 'A=2', 'A=1|B=1', 'B=2|C=3', 'A=3|B=2|C=1')
        for value in feats:
            for allowed in ({}, {'A': ['1']}, {'A': ['1', '2'], 'B': ['1']}, {'A': ['3'], 'B': ['2'], 'C': ['1', '3']}):
                for required in ([], ['A'], ['A', 'C'], ['D']):
                    for old in ('', 'x', 'FeatANotAllowed', 'FeatAMissing+x'):
                        rec.run({'kind': 'allowed', 'feats': value, 'allowed': allowed, 'required': required, 'old': old})


def run_case(case, rec):
    globals()['case_' + case['kind']](case, rec)
    rec.trace()
    rec.state(str(case))


# ---------------------------------------------------------------- the rules
def u(label):
    return label.split(':')[0]


def rules(words, zone=''):
    """The list of (word, message)."""
    n = len(words)
    found = []
    heads = [0] + [w['head'] for w in words]
    get = lambda i: words[i - 1]
    dep = lambda i: u(get(i)['deprel']) if i else '<ROOT>'
    sons = lambda i: [k for k in range(1, n + 1) if heads[k] == i]

    def under(i, top):
        while i and i != top:
            i = heads[i]
        return i == top

    def gap(i):
        """Some edge spans i, but i is not below the head of that edge."""
        return any(min(k, heads[k]) < i < max(k, heads[k]) and not under(i, heads[k]) for k in range(1, n + 1))

    for i in range(1, n + 1):
        w, head, mine = get(i), heads[i], dep(i)
        feats = dict(f.split('=') for f in w['feats'].split('|')) if w['feats'] != '_' else {}
        if mine in ('aux', 'fixed', 'goeswith', 'list') and dep(head) == mine:
            found.append((i, mine + '-chain'))
        if mine in ('flat', 'fixed', 'conj', 'appos', 'goeswith', 'list') and i < head:
            found.append((i, mine + '-rightheaded'))
        for label, allowed in (('cop', ('AUX', 'PRON')), ('det', ('DET', 'PRON')), ('punct', ('PUNCT',))):
            if mine == label and w['upos'] not in allowed:
                found.append((i, label + '-upos'))
        if mine == 'mark' and w['upos'] == 'PRON':
            found.append((i, 'mark-upos'))
        needed = {'PRON': 'PronType', 'DET': 'PronType', 'NUM': 'NumType', 'VERB': 'VerbForm'}.get(w['upos'])
        if needed and needed not in feats and not (needed == 'VerbForm' and zone.split('_')[0] in ('id', 'jv', 'tl', 'hil', 'ifb')):
            found.append((i, 'no-' + needed))
        if feats.get('VerbForm') == 'Fin':
            if w['upos'] not in ('VERB', 'AUX'):
                found.append((i, 'finverb-upos'))
            if 'Mood' not in feats:
                found.append((i, 'finverb-mood'))
        if sum(1 for k in sons(i) if dep(k) in ('nsubj', 'csubj') and get(k)['deprel'].split(':')[1:] != ['outer']) > 1:
            found.append((i, 'multi-subj'))
        if sum(1 for k in sons(i) if dep(k) == 'obj') > 1:
            found.append((i, 'multi-obj'))
        if dep(head) in ('aux', 'cop', 'mark', 'clf', 'case') and mine not in ('conj', 'cc', 'punct', 'fixed', 'goeswith', 'advmod'):
            found.append((i, get(head)['deprel'] + '-child'))
        if mine == 'goeswith' and head < i:
            between = [k for k in range(head + 1, i + 1) if dep(k) != 'goeswith']
            if between:
                found.append((between[0], 'goeswith-gap'))
            else:
                found += [(k, 'goeswith-space') for k in range(max(head, 1), i) if get(k)['misc'] == 'SpaceAfter=No']
        if w['upos'] == 'SYM' and w['form'].isalpha():
            found.append((i, 'sym-alpha'))
        if w['upos'] == 'PUNCT':
            if any(c.isalpha() for c in w['form']):
                found.append((i, 'punct-alpha'))
            if mine not in ('punct', 'fixed', 'goeswith', 'root'):
                found.append((i, 'punct-deprel'))
            if head and any(not under(k, head) for k in range(min(i, head) + 1, max(i, head))):
                found.append((i, 'punct-nonproj'))
            if gap(i) and not (head and gap(head)):
                found.append((i, 'punct-nonproj-gap'))
    return found


def make(doc, words, zone=''):
    root = doc.create_bundle().create_tree(zone)
    nodes = trees.build_into(root, [w['head'] for w in words])
    for node, w in zip(nodes[1:], words):
        for name in ('form', 'lemma', 'upos', 'deprel', 'feats', 'misc'):
            setattr(node, name, w[name])
    return nodes


def snapshot(nodes):
    return [[n.parent.ord, n.form, n.lemma, n.upos, n.deprel, str(n.feats), {k: v for k, v in n.misc.items() if k != 'Bug'}] for n in nodes[1:]]


def check_stats(doc, messages, save, context):
    if not save:
        require('bugs' not in doc.meta, 'stats-saved', context)
        return
    counts = {}
    for message in messages:
        counts[message] = counts.get(message, 0) + 1
    lines = doc.meta['bugs'].strip('\n').split('\n')
    equal(lines[0], 'ud.MarkBugs Error Overview:', 'stats-title', context)
    want = [(m, c) for c, m in sorted((c, m) for m, c in counts.items())] + [('TOTAL', len(messages))]
    equal([(line.split()[0], int(line.split()[1])) for line in lines[1:]], want, 'stats', context)


def case_marks(case, rec):
    from udapi.block.ud.markbugs import MarkBugs
    from udapi.core.document import Document
    words, zone, params = case['words'], case.get('zone', ''), case.get('params', {})
    doc = Document()
    nodes = make(doc, words, zone)
    marks = [[] for _ in nodes]
    for i, old in enumerate(case.get('old', ()), 1):
        nodes[i].misc['Bug'] = old
        marks[i] = old.split(',') if old else []
    before = snapshot(nodes)
    block = MarkBugs(**params)
    for _ in range(2 if case.get('twice') else 1):
        block.run(doc)
        rec.step()
    equal(snapshot(nodes), before, 'changed', str(case))
    messages = []
    for i, message in rules(words, zone):
        tests, skip = params.get('tests'), params.get('skip')
        if tests and not re.search(tests, message) or skip and re.search(skip, message):
            continue
        messages.append(message)
        if message not in marks[i]:
            marks[i].append(message)
    for i, node in enumerate(nodes[1:], 1):
        got = node.misc['Bug'].split(',') if node.misc['Bug'] else []
        equal(sorted(got), sorted(marks[i]), 'marks', f'{case} word {i}')
    check_stats(doc, messages, params.get('save_stats', True), str(case))


def case_cop(case, rec):
    from udapi.block.ud.markbugs import MarkBugs
    from udapi.core.document import Document
    lemmas, limit = case['lemmas'], case['limit']
    block = MarkBugs(max_cop_lemmas=limit, tests='cop')
    for document in range(2):
        doc = Document()
        doc.create_bundle()
        nodes = []
        for index, lemma in enumerate(lemmas):      # two words in each tree
            nodes.append(make(doc, [word(0, 'root'), word(1, 'cop' if lemma != 'go' or document else 'aux', 'AUX', lemma=lemma, form=('F', 'see')[index % 2])])[2])
        block.run(doc)
        rec.step()
        counts = {}
        for node in nodes:
            if node.deprel == 'cop':
                name = node.lemma if node.lemma != '_' else node.form
                counts[name] = counts.get(name, 0) + 1
        ranking = sorted(counts.values(), reverse=True)
        if 0 < limit < len(ranking) and ranking[limit - 1] == ranking[limit]:
            continue
        bad = {name for name, count in counts.items() if limit == 0 or (limit < len(ranking) and count <= ranking[limit])}
        want = ['cop-many-lemmas' if n.deprel == 'cop' and (n.lemma if n.lemma != '_' else n.form) in bad else '' for n in nodes]
        equal([n.misc['Bug'] for n in nodes], want, 'cop-lemmas', f'{case} document {document}')
        check_stats(doc, [w for w in want if w], True, str(case))


def case_allowed(case, rec):
    from udapi.block.ud.markfeatsbugs import MarkFeatsBugs
    from udapi.core.document import Document
    doc = Document()
    nodes = make(doc, [word(0, 'root', feats=case['feats'], misc='X=1')])
    node = nodes[1]
    node.misc['Bug'] = case['old']
    before = snapshot(nodes)
    block = MarkFeatsBugs()
    block.run(doc)
    equal(node.misc['Bug'], case['old'], 'feats-base', str(case))
    for _ in range(2):
        block.check_allowed_features(node, case['allowed'])
        block.check_required_features(node, case['required'])
    rec.step()
    feats = dict(f.split('=') for f in case['feats'].split('|')) if case['feats'] != '_' else {}
    want = case['old'].split('+') if case['old'] else []
    for name, value in feats.items():
        bug = f'Feat{name}NotAllowed' if name not in case['allowed'] else f'Feat{name}Value{value}NotAllowed' if value not in case['allowed'][name] else None
        if bug and bug not in want:
            want.append(bug)
    want += [f'Feat{name}Missing' for name in case['required'] if name not in feats and f'Feat{name}Missing' not in want]
    equal(sorted(node.misc['Bug'].split('+')) if node.misc['Bug'] else [], sorted(want), 'feats-bugs', str(case))
    equal(snapshot(nodes), before, 'feats-changed', str(case))
