"""Reference model of a sentence with empty nodes and enhanced dependencies, and its operations.

World = word order (labels of words and empty nodes mixed), basic heads, enhanced edges as (label, deprel) lists.
Every operation is applied both to the real tree and to the model. Prune is raised if it is not applicable.
"""
from mc.core import Fail, require, equal
from mc import trees


class Prune(Exception):
    """The operation is not applicable in this state."""


class World:
    def __init__(self, heads, gaps, deps=None, raw=True):
        """gaps[i] = number of empty nodes following the word i (0 = before the first one)."""
        from udapi.core.root import Root
        n = len(heads)
        self.root = trees.new_doc_root()
        nodes = trees.build_into(self.root, heads)
        self.node = {'': self.root}
        self.seq, self.empties = [], set()
        self.head = {}
        for i in range(n + 1):
            if i:
                label = trees.LABELS[i - 1]
                self.node[label] = nodes[i]
                self.seq.append(label)
                self.head[label] = trees.LABELS[heads[i - 1] - 1] if heads[i - 1] else ''
            for j in range(1, gaps[i] + 1):
                label = f'E{i}.{j}'
                empty = self.root.create_empty_child(form=label)
                empty.ord = f'{i}.{j}'
                self.node[label] = empty
                self.seq.append(label)
                self.empties.add(label)
        self.deps = {x: [] for x in self.seq}
        self.fresh = 0
        for label, edges in (deps or {}).items():
            self.deps[label] = [tuple(e) for e in edges]
            self.node[label].raw_deps = self.raw(label)

    # --- model observations
    def ids(self):
        result, major, minor = {'': '0'}, 0, 0
        for label in self.seq:
            if label in self.empties:
                minor += 1
                result[label] = f'{major}.{minor}'
            else:
                major, minor = major + 1, 0
                result[label] = str(major)
        return result

    def raw(self, label):
        ids = self.ids()
        return '|'.join(f'{ids[head]}:{deprel}' for head, deprel in self.deps[label]) or '_'

    def words(self):
        return [x for x in self.seq if x not in self.empties]

    def below(self, label):
        found, todo = [], [label]
        while todo:
            top = todo.pop()
            found.append(top)
            todo += [x for x in self.words() if self.head[x] == top]
        return found

    def need(self, *labels):
        for label in labels:
            if label != '' and label not in self.deps:
                raise Prune()

    # --- operations
    def do(self, op):
        name, args = op[0], op[1:]
        getattr(self, 'do_' + name)(*args)

    def do_deps(self, x):
        self.need(x)
        self.check_deps(x)

    def do_raw(self, x):
        self.need(x)
        equal(self.node[x].raw_deps, self.raw(x), 'enh-raw-deps', f'{x}')

    def do_setraw(self, x, value):
        self.need(x)
        labels = {v: k for k, v in self.ids().items()}
        edges = []
        if value != '_':
            for part in value.split('|'):
                head, deprel = part.split(':', 1)
                if head not in labels:
                    raise Prune()
                edges.append((labels[head], deprel))
        self.node[x].raw_deps = value
        self.deps[x] = edges

    def do_setdeps(self, x, edges):
        self.need(x, *[e[0] for e in edges])
        self.node[x].deps = [{'parent': self.node[h], 'deprel': d} for h, d in edges]
        self.deps[x] = [tuple(e) for e in edges]

    def do_append(self, x, head, deprel):
        self.need(x, head)
        self.node[x].deps.append({'parent': self.node[head], 'deprel': deprel})
        self.deps[x].append((head, deprel))

    def do_clear(self, x):
        self.need(x)
        self.node[x].deps.clear()
        self.deps[x] = []

    def do_pop(self, x):
        self.need(x)
        if not self.deps[x]:
            raise Prune()
        self.node[x].deps.pop(0)
        self.deps[x].pop(0)

    def do_relabel(self, x, deprel):
        self.need(x)
        if not self.deps[x]:
            raise Prune()
        self.node[x].deps[0]['deprel'] = deprel
        self.deps[x][0] = (self.deps[x][0][0], deprel)

    def do_reattach(self, x, head):
        self.need(x, head)
        if not self.deps[x]:
            raise Prune()
        self.node[x].deps[-1]['parent'] = self.node[head]
        self.deps[x][-1] = (head, self.deps[x][-1][1])

    def do_shift(self, method, x, ref, alone):
        self.need(x, ref)
        if x in self.empties or ref in self.empties:
            raise Prune()
        moved = [x] if alone else [w for w in self.words() if w in self.below(x)]
        if ref in moved:
            raise Prune()
        words = self.words()
        if method.endswith('subtree'):
            anchor = [w for w in words if w in self.below(ref) and w != x]
            if set(anchor) & set(moved):
                raise Prune()
        else:
            anchor = [ref]
        if ref == '' and method.startswith('before'):
            raise Prune()
        getattr(self.node[x], {'after': 'shift_after_node', 'before': 'shift_before_node',
                               'after_subtree': 'shift_after_subtree',
                               'before_subtree': 'shift_before_subtree'}[method])(self.node[ref], without_children=alone)
        rest = [w for w in words if w not in moved]
        if ref == '':
            position = len(rest) if method == 'after_subtree' else 0
        elif method.startswith('after'):
            position = max(rest.index(w) for w in anchor) + 1
        else:
            position = min(rest.index(w) for w in anchor)
        if rest[:position] + moved + rest[position:] == words:
            return   # the words are already there, empty nodes stay where they are as well
        seq = [w for w in self.seq if w not in moved]
        where = seq.index(rest[position]) if position < len(rest) else len(seq)
        self.seq = seq[:where] + moved + seq[where:]

    def do_remove(self, x, rehang):
        self.need(x)
        self.node[x].remove(**({'children': 'rehang'} if rehang else {}))
        if rehang:
            for w in self.words():
                if self.head[w] == x:
                    self.head[w] = self.head[x]
        gone = [x] if rehang or x in self.empties else self.below(x)
        self.forget(gone)

    def forget(self, gone):
        self.seq = [w for w in self.seq if w not in gone]
        self.empties -= set(gone)
        for w in gone:
            del self.deps[w]
        for w in self.seq:
            self.deps[w] = [e for e in self.deps[w] if e[0] not in gone]

    def do_emptychild(self, x, after):
        self.need(x)
        self.fresh += 1
        label = f'N{self.fresh}'
        self.node[label] = self.node[x].create_empty_child('new:emp', after=after, form=label)
        where = self.seq.index(x)
        if after:
            where += 1
            while where < len(self.seq) and self.seq[where] in self.empties:
                where += 1
        self.seq.insert(where, label)
        self.empties.add(label)
        self.deps[label] = [(x, 'new:emp')]

    def do_child(self, x):
        self.need(x)
        if x in self.empties:
            raise Prune()
        self.fresh += 1
        label = f'N{self.fresh}'
        self.node[label] = self.node[x].create_child(form=label)
        self.seq.append(label)
        self.head[label] = x
        self.deps[label] = []

    # --- comparison of the real tree with the model
    def check_deps(self, x):
        got = [(d['parent'], d['deprel']) for d in self.node[x].deps]
        want = self.deps[x]
        require(len(got) == len(want) and all(g[0] is self.node[w[0]] and g[1] == w[1] for g, w in zip(got, want)),
                'enh-deps-list', lambda: f'{x}: got {[(g[0].form, g[1]) for g in got]}, want {want}')

    def check(self):
        ids = self.ids()
        everything = self.root.descendants_and_empty
        equal([n.form for n in everything], self.seq, 'enh-order')
        equal([str(n.ord) for n in everything], [ids[x] for x in self.seq], 'enh-ords', f'{self.seq}')
        equal([n.form for n in self.root.empty_nodes], [x for x in self.seq if x in self.empties], 'enh-empty-nodes')
        equal([n.form for n in self.root.descendants], self.words(), 'enh-words')
        for label in self.words():
            require(self.node[label].parent is self.node[self.head[label]], 'enh-basic-head', label)
        for label in self.empties:
            require(self.node[label].parent is None and self.node[label].is_empty(), 'enh-empty-parent', label)
        # The words next to an empty node.
        for i, label in enumerate(self.seq):
            if label in self.empties:
                before = [x for x in self.seq[:i] if x not in self.empties][-1:] or ['']
                after = [x for x in self.seq[i:] if x not in self.empties][:1]
                require(self.node[label].prev_node is self.node[before[0]], 'enh-prev-node', label)
                require(self.node[label].next_node is (self.node[after[0]] if after else None), 'enh-next-node', label)
        for label in self.seq:
            equal(self.node[label].raw_deps, self.raw(label), 'enh-raw-deps', f'{label}')
        for i, one in enumerate(everything):
            for j, two in enumerate(everything):
                require((one < two) == (i < j) and one.precedes(two) == (i < j), 'enh-precedes',
                        lambda: f'{one.ord} {two.ord}')

    def check_text(self):
        """Writing and reading gives the same nodes and edges."""
        from mc import conllu
        text = self.root.document.to_conllu_string()
        lines = [line.split('\t') for line in text.split('\n') if line and not line.startswith('#')]
        ids = self.ids()
        words = self.words()
        if words:
            equal([(c[0], c[1], c[8]) for c in lines], [(ids[x], x, self.raw(x)) for x in self.seq], 'enh-conllu')
            again = conllu.read_string(text)
            equal(again.to_conllu_string(), text, 'enh-conllu-round-trip')
            tree = again.bundles[0].trees[0]
            equal([(str(n.ord), n.form) for n in tree.descendants_and_empty], [(ids[x], x) for x in self.seq], 'enh-reread')
            for node, label in zip(tree.descendants_and_empty, self.seq):
                equal([(str(d['parent'].ord), d['deprel']) for d in node.deps],
                      [(ids[h], d) for h, d in self.deps[label]], 'enh-reread-deps', label)
