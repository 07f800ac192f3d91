"""C11: the coreference objects (entities, mentions, bridging, split antecedents) stay consistent under all editing histories."""
import itertools

from mc.core import Fail, require, equal, raises
from mc import corefmodel, conllu

TITLE = ('All histories of bounded length of coreference edits (create entity/mention, words, span, head, entity, remove, bridging, split '
         'antecedents, word-order changes, store, store and reload) from four initial documents, vs. a plain-data model')
ASSUMPTIONS = ['words which belong to a mention are not removed from the tree',
               'mentions of one entity which the file format cannot express together are not stored (such histories are cut at the store)',
               'after a word-order change, the order of mentions is only checked after storing and reloading']


class Prune(Exception):
    pass


def BOUNDS(tier):
    return {'initial_documents': len(INITS), 'history_length': 2 if tier == 'quick' else 3, 'operations': len(operations()),
            'longer_histories_over_core_operations': 3 if tier == 'quick' else 4, 'core_operations': len(core_operations())}


# words: sentence 0 = a b E c (E is empty, 2.1), sentence 1 = d f
NODES = ['abEc', 'df']
SENT = {name: s for s, names in enumerate(NODES) for name in names}
# initial mentions: (eid, words, head)
INITS = [
    [],
    [('e1', 'ab', 'b'), ('e2', 'Ec', 'c'), ('e1', 'd', 'd')],
    [('e1', 'abE', 'a'), ('e1', 'b', 'b'), ('e3', 'df', 'f')],
    [('e2', 'ac', 'c'), ('e3', 'bE', 'E'), ('e3', 'f', 'f')],
]
SETS = ['a', 'ab', 'bE', 'abc', 'ac', 'abEc', 'c', 'd', 'df']


def operations():
    ops = [['entity', 'e1'], ['entity', 'e2'], ['entity', None], ['entity', 'x-y']]
    for eid in ('e1', 'e2'):
        for words in ('a', 'ab', 'abc', 'Ec', 'df'):
            ops.append(['mention', eid, words, words[-1]])
    ops += [['mention', 'e3', 'ba', None], ['mention', 'e1', 'ab', 'c'], ['mentionspan', 'e2', '1-2.1', 'b'], ['mentionspan', 'e1', '1,3', 'a'],
            ['mentionspan', 'e1', '1', 'c'], ['mentionhead', 'e2', 'E'], ['node', 'd', 'e4'], ['node', 'c', None]]
    for i in range(3):
        for words in SETS:
            ops.append(['words', i, words])
        ops += [['span', i, '1-2'], ['span', i, '1,2.1-3'], ['span', i, '2-3']]
        ops += [['head', i, 'b'], ['head', i, 'c'], ['head', i, 'f']]
        ops += [['move', i, 'e1'], ['move', i, 'e2'], ['remove', i]]
        ops += [['bridge', i, 'e1', 'part'], ['bridge', i, 'e2', '']]
    ops += [['words', 0, 'bab'], ['words', 0, 'cba'], ['unbridge', 0], ['unbridge', 1], ['setbridge', 0, 'e3', 'x'], ['split', 'e1', ['e2', 'e3']],
            ['split', 'e3', ['e1', 'e2']], ['split', 'e1', []]]
    ops += [['shift', 'b', 'a'], ['shift', 'a', 'c'], ['shift', 'f', 'd'], ['store'], ['reload']]
    return ops


def core_operations():
    return [['mention', 'e1', 'ab', 'b'], ['mention', 'e2', 'abc', 'c'], ['mention', 'e1', 'df', 'f'], ['words', 0, 'abc'], ['words', 1, 'abEc'],
            ['words', 0, 'bE'], ['span', 1, '1-2'], ['head', 0, 'c'], ['move', 0, 'e2'], ['move', 1, 'e1'], ['remove', 0], ['remove', 1],
            ['bridge', 0, 'e2', 'part'], ['bridge', 1, 'e1', ''], ['split', 'e1', ['e2', 'e3']], ['shift', 'b', 'a'], ['shift', 'a', 'c'],
            ['look', 0], ['look', 1], ['reload']]


def shards(tier):
    bounds = BOUNDS(tier)
    result = []
    for init in range(len(INITS)):
        for part in range(24):
            result.append({'init': init, 'ops': 'all', 'length': bounds['history_length'], 'part': part})
            result.append({'init': init, 'ops': 'core', 'length': bounds['longer_histories_over_core_operations'], 'part': part})
    return result


def run_shard(shard, rec):
    ops = operations() if shard['ops'] == 'all' else core_operations()
    for one in ops[shard['part']::24]:
        for rest in itertools.product(ops, repeat=shard['length'] - 1):
            rec.run({'init': shard['init'], 'ops': [one, *rest]})


class World:
    """The real document and the model side by side."""
    def __init__(self, init):
        from udapi.core.document import Document
        self.doc = Document()
        self.node, self.trees = {}, []
        self.order = [list(names) for names in NODES]      # current word order
        for names in NODES:
            root = self.doc.create_bundle().create_tree()
            self.trees.append(root)
            previous = None
            for name in names:
                if name.isupper():
                    previous = previous.create_empty_child('dep', form=name)
                else:
                    previous = root.create_child(form=name)
                self.node[name] = previous
        self.entities = {}       # eid -> split antecedents
        self.mentions = []       # dicts in the order of creation, removed ones are None
        self.real = []
        self.dirty = False
        for eid, words, head in init:
            self.op_mention(eid, words, head)

    # ---- model helpers
    def pos(self, name):
        return self.order[SENT[name]].index(name)

    def sorted_words(self, names):
        return sorted(names, key=self.pos)

    def key(self, m):
        words = self.sorted_words(m['words'])
        return (SENT[words[0]], self.pos(words[0]), -len(words), self.pos(words[-1]))

    def entity(self, eid):
        """The real entity; created on demand."""
        if eid not in self.entities:
            self.op_entity(eid)
        return self.doc.eid_to_entity[eid]

    def live(self, i):
        if i >= len(self.mentions) or self.mentions[i] is None:
            raise Prune()
        return self.mentions[i], self.real[i]

    def refused(self, func, *args, **kwargs):
        require(isinstance(raises(func, *args, **kwargs), ValueError), 'invalid-operation-accepted', f'{args} {kwargs}')

    # ---- operations
    def op_entity(self, eid):
        if eid in self.entities or eid == 'x-y':
            self.refused(self.doc.create_coref_entity, eid)
            return
        entity = self.doc.create_coref_entity(eid)
        if eid is None:
            eid = next(f'e{k}' for k in itertools.count(1) if f'e{k}' not in self.entities)
        equal(entity.eid, eid, 'new-eid')
        self.entities[eid] = []

    def op_mention(self, eid, words, head):
        entity = self.entity(eid)
        nodes = [self.node[w] for w in words]
        if head is not None and head not in words:
            self.refused(entity.create_mention, head=self.node[head], words=nodes)
            return
        real = entity.create_mention(head=self.node[head] if head else None, words=nodes)
        self.added(eid, set(words), head or words[0], real)

    def op_mentionhead(self, eid, head):
        entity = self.entity(eid)
        self.added(eid, {head}, head, entity.create_mention(head=self.node[head]))

    def op_mentionspan(self, eid, span, head):
        entity = self.entity(eid)
        words = self.span_words(SENT[head], span)
        if head not in words:
            self.refused(entity.create_mention, head=self.node[head], span=span)
            return
        self.added(eid, words, head, entity.create_mention(head=self.node[head], span=span))

    def op_node(self, name, eid):
        if eid in self.entities:
            self.refused(self.node[name].create_coref_entity, eid=eid)
            return
        entity = self.node[name].create_coref_entity(eid=eid)
        eid = entity.eid
        require(eid not in self.entities, 'eid-not-new', eid)
        self.entities[eid] = []
        self.added(eid, {name}, name, entity.mentions[0])

    def added(self, eid, words, head, real):
        self.mentions.append({'eid': eid, 'words': set(words), 'head': head, 'bridging': []})
        self.real.append(real)

    def span_words(self, sent, span):
        def number(text):
            major, _, minor = text.partition('.')
            return int(major), int(minor or 0)
        ids, major, minor = {}, 0, 0
        for name in self.order[sent]:
            if name.isupper():
                minor += 1
            else:
                major, minor = major + 1, 0
            ids[name] = (major, minor)
        words = set()
        for part in span.split(','):
            low, _, high = part.partition('-')
            words |= {n for n, i in ids.items() if number(low) <= i <= number(high or low)}
        return words

    def op_words(self, i, words):
        m, real = self.live(i)
        nodes = [self.node[w] for w in words]
        if m['head'] not in words:
            def assign():
                real.words = nodes
            self.refused(assign)
            return
        real.words = nodes
        m['words'] = set(words)

    def op_span(self, i, span):
        m, real = self.live(i)
        words = self.span_words(SENT[m['head']], span)
        if m['head'] not in words:
            def assign():
                real.span = span
            self.refused(assign)
            return
        real.span = span
        m['words'] = words

    def op_head(self, i, name):
        m, real = self.live(i)
        if name not in m['words']:
            def assign():
                real.head = self.node[name]
            self.refused(assign)
            return
        real.head = self.node[name]
        m['head'] = name

    def op_move(self, i, eid):
        m, real = self.live(i)
        if any(target == eid for target, _ in m['bridging']):
            raise Prune()
        real.entity = self.entity(eid)
        m['eid'] = eid

    def op_remove(self, i):
        _, real = self.live(i)
        real.remove()
        self.mentions[i] = None
        self.real[i] = None

    def op_bridge(self, i, eid, relation):
        m, real = self.live(i)
        if eid == m['eid']:
            self.refused(real.bridging.append, (self.entity(eid), relation))
            return
        real.bridging.append((self.entity(eid), relation))
        m['bridging'].append((eid, relation))

    def op_unbridge(self, i):
        m, real = self.live(i)
        if not m['bridging']:
            raise Prune()
        del real.bridging[0]
        del m['bridging'][0]

    def op_setbridge(self, i, eid, relation):
        m, real = self.live(i)
        if not m['bridging'] or m['eid'] == eid:
            raise Prune()
        real.bridging[0] = (self.entity(eid), relation)
        m['bridging'][0] = (eid, relation)

    def op_split(self, eid, antes):
        self.entity(eid).split_ante = [self.entity(a) for a in antes]
        self.entities[eid] = list(antes)

    def op_shift(self, name, reference):
        """Moves a word directly before another one (empty nodes keep their place)."""
        self.node[name].shift_before_node(self.node[reference])
        order = [x for x in self.order[SENT[name]] if x != name]
        order.insert(order.index(reference), name)
        self.order[SENT[name]] = order
        got = [n.form for n in self.trees[SENT[name]].descendants_and_empty]
        if got != order:
            # where the empty node belongs if it was next to the moved word or the reference is not our business here
            self.order[SENT[name]] = got
        self.dirty = True

    def op_look(self, i):
        m, real = self.live(i)
        equal([n.form for n in real.words], self.sorted_words(m['words']), 'words')

    def check_storable(self):
        for x, y in itertools.combinations([m for m in self.mentions if m], 2):
            if x['eid'] == y['eid'] and SENT[min(x['words'])] == SENT[min(y['words'])]:
                one, two = ({self.pos(w) for w in m['words']} for m in (x, y))
                if corefmodel.same_entity_conflict(one, two):
                    raise Prune()
                if min(one) == min(two) and (x['bridging'] or y['bridging']):
                    raise Prune()   # the format cannot say which of them is meant

    def stored(self):
        """What a file contains of this model."""
        alive = {m['eid'] for m in self.mentions if m}
        result = {}
        for m in sorted((m for m in self.mentions if m), key=self.key):
            links = sorted((e, r) for e, r in m['bridging'] if e in alive)
            entry = result.setdefault(m['eid'], ([], []))
            entry[0].append((self.sorted_words(m['words']), m['head'], links))
        for eid, antes in self.entities.items():
            kept = [a for a in antes if a in alive]
            if eid in alive and len(kept) > 1:
                result[eid][1].extend(kept)
        return result

    def text(self):
        self.check_storable()
        text = self.doc.to_conllu_string()
        # storing deletes links to entities with no mentions
        alive = {m['eid'] for m in self.mentions if m}
        for m in self.mentions:
            if m:
                m['bridging'] = [(e, r) for e, r in m['bridging'] if e in alive]
        for eid, antes in self.entities.items():
            self.entities[eid] = [a for a in antes if a in alive]
        return text

    def op_store(self):
        want = self.stored()
        text = self.text()
        doc = conllu.read_string(text)
        got = self.observe(doc)
        require(got == want, 'stored-differs', lambda: f'got {got}, want {want}, file {text}')

    @staticmethod
    def observe(doc):
        result = {}
        for eid, entity in doc.eid_to_entity.items():
            result[eid] = ([([n.form for n in m.words], m.head.form, sorted((b.target.eid, b.relation) for b in m.bridging)) for m in entity.mentions],
                           [a.eid for a in entity.split_ante])
        return result

    def op_reload(self):
        want = self.stored()
        text = self.text()
        self.doc = conllu.read_string(text)
        got = self.observe(self.doc)
        require(got == want, 'reloaded-differs', lambda: f'got {got}, want {want}, file {text}')
        self.trees = list(self.doc.trees)
        self.node = {n.form: n for n in self.doc.nodes_and_empty}
        self.entities = {eid: list(entry[1]) for eid, entry in want.items()}
        self.mentions, self.real, self.dirty = [], [], False
        for eid, (mentions, _) in want.items():
            for (words, head, links), real in zip(mentions, self.doc.eid_to_entity[eid].mentions):
                self.mentions.append({'eid': eid, 'words': set(words), 'head': head,
                                      'bridging': [(b.target.eid, b.relation) for b in real.bridging]})    # (already compared as a set)
                self.real.append(real)
        keys = [self.key(next(m for m in self.mentions if m['eid'] == e.eid)) for e in self.doc.coref_entities]
        require(keys == sorted(keys), 'entities-not-sorted', lambda: f'{keys} {text}')

    # ---- invariants
    def check(self, where):
        doc = self.doc
        require(set(doc.eid_to_entity) == set(self.entities), 'entities', lambda: f'{where()}: {list(doc.eid_to_entity)} want {list(self.entities)}')
        live = [(m, r) for m, r in zip(self.mentions, self.real) if m]
        for eid, entity in doc.eid_to_entity.items():
            require(entity.eid == eid, 'eid-key', where)
            want = [(m, r) for m, r in live if m['eid'] == eid]
            require(len(entity.mentions) == len(want) and all(any(x is r for x in entity.mentions) for _, r in want), 'entity-mentions',
                    lambda: f'{where()}: {eid} has {len(entity.mentions)} mentions, want {len(want)}')
            require([a.eid for a in entity.split_ante] == self.entities[eid] and
                    all(a is doc.eid_to_entity[a.eid] for a in entity.split_ante), 'split-ante',
                    lambda: f'{where()}: {eid} {[a.eid for a in entity.split_ante]}')
            if not self.dirty:
                keys = [self.key(next(m for m, r in live if r is x)) for x in entity.mentions]
                require(keys == sorted(keys), 'entity-mentions-not-sorted', lambda: f'{where()}: {eid} {keys}')
            links = [(b.target, b.relation) for b in entity.all_bridging()]
            require(len(links) == sum(len(m['bridging']) for m, _ in want), 'all-bridging', where)
        for m, real in live:
            require(real.entity is doc.eid_to_entity[m['eid']], 'mention-entity', lambda: f'{where()}: {m}')
            require(real.head is self.node[m['head']], 'mention-head', lambda: f'{where()}: {m} {real.head}')
            require(sorted(n.form for n in real.words) == sorted(m['words']), 'mention-words', lambda: f'{where()}: {m} {real.words}')
            if not self.dirty:
                require([n.form for n in real.words] == self.sorted_words(m['words']), 'mention-words-order', lambda: f'{where()}: {m} {real.words}')
            links = [(b.target.eid, b.relation) for b in real.bridging]
            require(links == m['bridging'], 'bridging', lambda: f'{where()}: {links} want {m}')
            require(real.bridging.src_mention is real and [t.eid for t in real.bridging.targets] == [e for e, _ in links], 'bridging-source', where)
        total = [x for x in doc.coref_mentions]
        require(len(total) == len(live) and all(any(x is r for x in total) for _, r in live), 'coref-mentions', where)
        if not self.dirty:
            keys = [self.key(next(m for m, r in live if r is x)) for x in total]
            require(keys == sorted(keys), 'coref-mentions-not-sorted', lambda: f'{where()}: {keys}')
        for name, node in self.node.items():
            want = [r for m, r in live if name in m['words']]
            got = node.coref_mentions
            require(len(got) == len(want) and all(any(x is r for x in got) for r in want), 'word-mentions',
                    lambda: f'{where()}: {name} {[str(x) for x in got]} want {[str(x) for x in want]}')
            if not self.dirty:
                keys = [self.key(next(m for m, r in live if r is x)) for x in got]
                require(keys == sorted(keys), 'word-mentions-not-sorted', lambda: f'{where()}: {name} {keys}')
            require([e.eid for e in node.coref_entities] == [x.entity.eid for x in got], 'word-entities', where)


def run_case(case, rec):
    world = World(INITS[case['init']])
    where = lambda: str(case)
    try:
        for oper in case['ops']:
            getattr(world, 'op_' + oper[0])(*oper[1:])
            rec.step()
            world.check(where)
        world.op_reload()
        world.check(where)
    except Prune:
        rec.count('pruned')
        return
    rec.trace()
    rec.state((str(sorted(world.entities.items())), str(world.mentions), str(world.order)))
