"""C09: multi-word tokens: integrity, tokens and detokenized text under all editing histories."""
import itertools

from mc.core import require, equal
from mc import trees, conllu
from mc.trees import LABELS, long_trees

TITLE = ('All histories of bounded length of creating/removing multi-word tokens (overlapping, unsorted), changing SpaceAfter, '
         'moving and deleting words, reloading via CoNLL-U and block conversions, vs. a token-list model')
ASSUMPTIONS = ['words of a multi-word token are contiguous (moves which would create a gap are not explored)']


class Prune(Exception):
    pass


def BOUNDS(tier):
    return {'words': '4 (4 trees), 5 (2 trees)', 'history_length': 3 if tier == 'quick' else 4}


INITS = [(0, 1, 1, 3), (2, 0, 2, 2), (3, 1, 0, 3), (0, 0, 4, 1), (0, 1, 2, 3, 2), (3, 5, 0, 3, 4)]


def operations(n):
    if n > 9:       # two-digit ids: operations on the words number 9 to 12
        return [[op[0], *(''.join(LABELS[LABELS.index(c) + 8] for c in x) if i == 0 or op[0] == 'shift' and i == 2 else x for i, x in enumerate(op[1:]))]
                if len(op) > 1 and op[0] != 'shift' else
                ([op[0], op[1], LABELS[LABELS.index(op[2]) + 8], LABELS[LABELS.index(op[3]) + 8]] if len(op) > 1 else op) for op in operations(4)]
    words = LABELS[:n]
    ops = []
    for i in range(n):
        for j in range(i + 1, min(n, i + 3)):
            ops.append(['create', words[i:j + 1], ''])
    ops += [['create', 'ba', ''], ['create', 'bc', 'SpaceAfter=No'], ['create', 'cab', 'X=1'], ['create', words, ''], ['create', 'c', '']]
    ops += [['unmwt', x] for x in words[:n - 1:2]]
    ops += [['space', x] for x in words[:3]] + [['mwtspace', x] for x in 'bc']
    ops += [['remove', 'a', True], ['remove', 'b', True], ['remove', 'c', False], ['remove', words[-1], True]]
    ops += [['shift', 'after', 'a', 'b'], ['shift', 'before', 'c', 'b'], ['shift', 'after', 'a', 'c'], ['shift', 'after', 'b', words[-1]],
            ['shift', 'before', words[-1], 'a'], ['shift', 'after', 'a', words[-1]]]
    ops += [['removeblock'], ['joinblock'], ['reload']]
    return ops


def shards(tier):
    length = BOUNDS(tier)['history_length']
    result = []
    for heads in INITS:
        most = length
        for first in operations(len(heads)):
            result.append({'heads': heads, 'first': first, 'length': most})
    for heads in long_trees():
        for first in operations(12):
            result.append({'heads': heads, 'first': first, 'length': 2})
    result.append({'gaps': 5 if tier == 'quick' else 6})
    return result


def run_shard(shard, rec):
    if 'gaps' in shard:
        # disjoint tokens over any two sets of words, also with gaps
        for n in range(1, shard['gaps'] + 1):
            for owners in itertools.product(range(3), repeat=n):
                marks = ''.join(map(str, owners)).replace('0', '')
                if '1' in marks.lstrip('1').lstrip('2') or '2' in marks.lstrip('2').lstrip('1'):
                    continue  # interleaved tokens cannot be written to CoNLL-U
                for nospace in range(2 ** n):
                    rec.run({'owners': owners, 'nospace': nospace})
        for text in (None, 'a bb', ''):
            for if_missing in ('detokenize', 'empty', 'warn_detokenize', 'warn_empty', 'fatal'):
                for owners in itertools.product(range(2), repeat=3):
                    rec.run({'owners': owners, 'nospace': 2, 'text': text, 'if_missing': if_missing})
        return
    ops = operations(len(shard['heads']))
    for length in range(shard['length']):
        for rest in itertools.product(ops, repeat=length):
            rec.run({'heads': shard['heads'], 'ops': [shard['first'], *rest]})


class State:
    def __init__(self, heads):
        self.root = trees.new_doc_root()
        nodes = trees.build_into(self.root, heads)
        self.node = {LABELS[i]: nodes[i + 1] for i in range(len(heads))}
        self.model = trees.ModelTree.from_heads(heads)
        self.form = {x: x for x in self.model.order}
        self.nospace = dict.fromkeys(self.model.order, False)
        self.mwts = []      # [words, form, nospace]
        self.fresh = 0

    def mwt_of(self, x):
        for mwt in self.mwts:
            if x in mwt[0]:
                return mwt
        return None

    def need(self, *labels):
        for x in labels:
            if x not in self.form:
                raise Prune()

    def drop(self, gone):
        for x in gone:
            mwt = self.mwt_of(x)
            if mwt:
                mwt[0].remove(x)
                if not mwt[0]:
                    self.mwts.remove(mwt)
            del self.form[x], self.nospace[x]

    def do_create(self, labels, misc):
        self.need(*labels)
        words = sorted(labels, key=self.model.order.index)
        positions = [self.model.order.index(x) for x in words]
        if positions != list(range(positions[0], positions[0] + len(words))):
            raise Prune()
        self.fresh += 1
        form = f'M{self.fresh}'
        mwt = self.root.create_multiword_token([self.node[x] for x in labels], form, misc)
        self.mwts = [m for m in self.mwts if not set(m[0]) & set(words)]
        self.mwts.append([words, form, self.nospace[words[-1]] or 'SpaceAfter' in misc])
        for x in words:
            self.nospace[x] = False
        require(mwt.is_mwt() and mwt.form == form and mwt.root is self.root, 'mwt-created')

    def do_unmwt(self, x):
        self.need(x)
        mwt = self.mwt_of(x)
        if not mwt:
            raise Prune()
        self.node[x].multiword_token.remove()
        self.mwts.remove(mwt)

    def do_space(self, x):
        self.need(x)
        if self.mwt_of(x):
            raise Prune()
        self.nospace[x] = not self.nospace[x]
        self.node[x].misc['SpaceAfter'] = 'No' if self.nospace[x] else ''

    def do_mwtspace(self, x):
        self.need(x)
        mwt = self.mwt_of(x)
        if not mwt:
            raise Prune()
        mwt[2] = not mwt[2]
        self.node[x].multiword_token.misc['SpaceAfter'] = 'No' if mwt[2] else None

    def do_remove(self, x, rehang):
        self.need(x)
        self.node[x].remove(**({'children': 'rehang'} if rehang else {}))
        self.drop(self.model.remove(x, rehang))

    def do_shift(self, method, x, ref):
        self.need(x, ref)
        order = [w for w in self.model.order if w != x]
        order.insert(order.index(ref) + (method == 'after'), x)
        for words, _, _ in self.mwts:
            places = sorted(order.index(w) for w in words)
            if places != list(range(places[0], places[0] + len(places))):
                raise Prune()
        getattr(self.node[x], f'shift_{method}_node')(self.node[ref], without_children=True)
        self.model.order = order
        for mwt in self.mwts:
            mwt[0].sort(key=order.index)

    def do_removeblock(self):
        from udapi.block.ud.removemwt import RemoveMwt
        RemoveMwt().apply_on_document(self.root.document)
        for words, form, nospace in list(self.mwts):
            self.form[words[0]], self.nospace[words[0]] = form, nospace
            for x in words[1:]:
                self.model.remove(x, True)
                del self.form[x], self.nospace[x]
        self.mwts = []

    def do_joinblock(self):
        from udapi.block.ud.joinasmwt import JoinAsMwt
        JoinAsMwt().apply_on_document(self.root.document)
        run = []
        for x in self.model.order:
            if self.mwt_of(x):
                run = []
                continue
            run.append(x)
            position = self.model.order.index(x)
            following = self.model.order[position + 1] if position + 1 < len(self.model.order) else None
            if not (self.nospace[x] and following and not self.mwt_of(following)
                    and self.form[x][-1].isalpha() and self.form[following][0].isalpha()):
                if len(run) > 1:
                    self.mwts.append([run, ''.join(self.form[w] for w in run), self.nospace[x]])
                    for w in run:
                        self.nospace[w] = False
                run = []

    def do_reload(self):
        if not self.model.order:
            raise Prune()
        for x in self.model.order:
            self.node[x].lemma = x
        text = self.root.document.to_conllu_string()
        doc = conllu.read_string(text)
        equal(doc.to_conllu_string(), text, 'mwt-round-trip')
        self.root = doc.bundles[0].trees[0]
        self.root.text = None
        self.node = dict(zip(self.model.order, self.root.descendants))

    def tokens(self):
        result = []
        for x in self.model.order:
            mwt = self.mwt_of(x)
            if mwt is None:
                result.append(([x], self.form[x], self.nospace[x], False))
            elif mwt[0][0] == x:
                result.append((mwt[0], mwt[1], mwt[2], True))
        return result

    def check(self):
        order = self.model.order
        trees.check_tree(self.root, [self.node[x] for x in order])
        equal([n.lemma for n in self.root.descendants], order, 'mwt-order')
        for x in order:
            equal(self.node[x].parent.lemma, self.model.head[x] or '<ROOT>', 'mwt-head', x)
        real = self.root.multiword_tokens
        equal(sorted((tuple(w.lemma for w in m.words), m.form, m.misc['SpaceAfter'] == 'No') for m in real),
              sorted((tuple(w), f, s) for w, f, s in self.mwts), 'mwt-set')
        for x in order:
            got, want = self.node[x].multiword_token, self.mwt_of(x)
            require((got is None) == (want is None), 'mwt-membership', x)
            if want:
                require(any(got is m for m in real) and any(w is self.node[x] for w in got.words), 'mwt-links', x)
                start, end = order.index(want[0][0]) + 1, order.index(want[0][-1]) + 1
                equal(got.ord_range, f'{start}-{end}', 'mwt-ord-range', x)
                equal(got.address(), f'{self.root.sent_id}#{start}-{end}', 'mwt-address', x)
                equal(got.no_space_after, want[2], 'mwt-no-space-after', x)
            equal(self.node[x].no_space_after, self.nospace[x], 'mwt-word-space', x)
        tokens = self.tokens()
        equal([([w.lemma for w in t.words], t.form, t.no_space_after, t.is_mwt()) for t in self.root.token_descendants],
              [tuple(t) for t in tokens], 'mwt-tokens')
        for use_mwt in (True, False):
            for top in [None] + order:
                inside = self.model.subtree(top)
                parts = []
                if use_mwt:
                    for words, form, nospace, _ in tokens:
                        if set(words) & set(inside):
                            parts.append(form + ('' if nospace else ' '))
                else:
                    parts = [self.form[x] + ('' if self.nospace[x] else ' ') for x in inside]
                node = self.root if top is None else self.node[top]
                equal(node.compute_text(use_mwt=use_mwt), ''.join(parts).rstrip(), 'mwt-text', f'{top} use_mwt={use_mwt}')
        equal(self.root.get_sentence(), self.root.compute_text(), 'mwt-get-sentence')
        if order:
            want = []
            for words, form, nospace, is_mwt in tokens:
                if is_mwt:
                    want.append((f'{order.index(words[0]) + 1}-{order.index(words[-1]) + 1}', form, nospace))
                want += [(str(order.index(x) + 1), self.form[x], self.nospace[x]) for x in words]
            text = self.root.document.to_conllu_string()
            got = [line.split('\t') for line in text.split('\n') if line and line[0] != '#']
            equal([(c[0], c[1], 'SpaceAfter=No' in c[9]) for c in got], want, 'mwt-conllu')
            equal(conllu.read_string(text).to_conllu_string(), text, 'mwt-conllu-round-trip')


def case_gaps(case, rec):
    root = trees.new_doc_root()
    nodes = [root.create_child(form=LABELS[i]) for i in range(len(case['owners']))]
    tokens, mwts = [], {}
    for owner in (1, 2):
        words = [node for node, number in zip(nodes, case['owners']) if number == owner]
        if words:
            mwts[owner] = root.create_multiword_token(words, form='M%d' % owner)
    for i, node in enumerate(nodes):
        token = mwts.get(case['owners'][i], node)
        equal(node.multiword_token, mwts.get(case['owners'][i]), 'gap-mwt', str(case))
        if token not in tokens:
            tokens.append(token)
    text = ''
    for i, token in enumerate(tokens):
        if case['nospace'] >> i & 1:
            token.misc['SpaceAfter'] = 'No'
        text += token.form + (' ' if not case['nospace'] >> i & 1 else '')
    rec.step(len(mwts) + 1)
    rec.trace()
    rec.state(str(case))
    if 'if_missing' in case:
        root.text, if_missing = case['text'], case['if_missing']
        try:
            got = root.get_sentence(if_missing=if_missing)
        except RuntimeError:
            got = RuntimeError
        want = {'detokenize': text.rstrip(), 'empty': '', 'fatal': RuntimeError}[if_missing.replace('warn_', '')]
        equal(got, case['text'] if case['text'] is not None else want, 'get-sentence', str(case))
        equal(root.text, case['text'], 'get-sentence', str(case))
        return
    equal([t.form for t in root.token_descendants], [t.form for t in tokens], 'gap-tokens', str(case))
    equal(root.compute_text(), text.rstrip(), 'gap-text', str(case))


def run_case(case, rec):
    if 'owners' in case:
        return case_gaps(case, rec)
    state = State(case['heads'])
    try:
        for op in case['ops']:
            getattr(state, 'do_' + op[0])(*op[1:])
            rec.step()
    except Prune:
        rec.count('pruned')
        return
    state.check()
    rec.trace()
    rec.state((state.model.shape(), tuple((tuple(w), f, s) for w, f, s in state.mwts), tuple(sorted(state.nospace.items()))))
