"""Enumeration of small dependency trees, building them through the public API, and invariants."""
import itertools
from functools import lru_cache

from mc.core import Fail, require


@lru_cache(maxsize=None)
def head_vectors(n):
    """All (n+1)^(n-1) head vectors of length n (0 = technical root) that form a tree."""
    result = []
    for heads in itertools.product(range(n + 1), repeat=n):
        if is_acyclic(heads):
            result.append(heads)
    return result


def is_acyclic(heads):
    for start in range(1, len(heads) + 1):
        node, steps = start, 0
        while node:
            node = heads[node - 1]
            steps += 1
            if steps > len(heads):
                return False
    return True


def long_trees(n=12):
    """Typical shapes of a tree with two-digit word numbers: chains, flat, zigzag, nested, non-projective."""
    half = n // 2
    zigzag = [x for pair in zip(range(n, half, -1), range(1, n)) for x in pair]
    shapes = [
        [0] * n,                                                        # all attached to the technical root
        list(range(n)),                                                 # chain to the right
        [i + 2 for i in range(n - 1)] + [0],                            # chain to the left
        [0] + [1] * (n - 1),                                            # flat, the first word is the head
        [n] * (n - 1) + [0],                                            # flat, the last word is the head
        [half if i + 1 != half else 0 for i in range(n)],               # flat, the head is in the middle
        [0] + [max(1, (i + 1) // 2) for i in range(1, n)],              # binary
        [0, 0] + list(range(1, n - 1)),                                 # two interleaved chains
        [zigzag[zigzag.index(i + 1) - 1] if i + 1 != n else 0 for i in range(n)],
        [0] + [1 + 3 * ((i - 1) // 3) if (i - 1) % 3 else max(1, i - 2) for i in range(1, n)],  # nested phrases
    ]
    return [tuple(heads) for heads in shapes if is_acyclic(heads) and all(0 <= h <= n and h != i + 1 for i, h in enumerate(heads))]


def near_long_trees(n=12):
    """The shapes of long_trees() and all trees which differ from them in the head of one word."""
    result = set(long_trees(n))
    for heads in long_trees(n):
        for i in range(n):
            for head in range(n + 1):
                changed = heads[:i] + (head,) + heads[i + 1:]
                if head != i + 1 and is_acyclic(changed):
                    result.add(changed)
    return sorted(result)


def top_down(heads):
    """Node numbers in an order in which every head precedes its dependents."""
    order, done = [], {0}
    todo = list(range(1, len(heads) + 1))
    while todo:
        rest = []
        for num in todo:
            if heads[num - 1] in done:
                done.add(num)
                order.append(num)
            else:
                rest.append(num)
        todo = rest
    return order


LABELS = 'abcdefghijklmnopqrstuvwxyz'


def build_into(root, heads, labels=LABELS, **common):
    """Create len(heads) words in the (empty) tree `root`, attach them as `heads` say."""
    nodes = [root]
    for i in range(len(heads)):
        nodes.append(root.create_child(form=labels[i], lemma=labels[i], upos='X', deprel='dep', **common))
    for num in top_down(heads):
        if heads[num - 1]:
            nodes[num].parent = nodes[heads[num - 1]]
    return nodes


def new_root():
    from udapi.core.root import Root
    return Root()


def new_doc_root():
    from udapi.core.document import Document
    doc = Document()
    return doc.create_bundle().create_tree()


def build(heads, labels=LABELS, in_doc=False, **common):
    root = new_doc_root() if in_doc else new_root()
    return build_into(root, heads, labels, **common)


def walk(root):
    """All nodes reachable via children, as plain list; guards against cycles."""
    seen, order, stack = {id(root)}, [], [root]
    while stack:
        node = stack.pop()
        for child in list(node.children):
            if id(child) in seen:
                raise Fail('tree-node-reachable-twice', f'{child.form} is reachable twice')
            seen.add(id(child))
            order.append(child)
            stack.append(child)
    return order


def check_tree(root, expected=None, where=''):
    """The well-formedness invariant of one tree, observed via the public API.

    expected: the exact collection of node objects which should form the tree.
    """
    words = list(root.descendants)
    reach = walk(root)
    require(len(words) == len(set(map(id, words))), 'tree-duplicate-word', lambda: f'{where} {words}')
    require(set(map(id, words)) == set(map(id, reach)), 'tree-words-differ-from-reachable',
            lambda: f'{where} words {[w.form for w in words]} reachable {[w.form for w in reach]}')
    if expected is not None:
        require(set(map(id, words)) == set(map(id, expected)), 'tree-lost-or-extra-nodes',
                lambda: f'{where} words {[w.form for w in words]} expected {[w.form for w in expected]}')
    require([w.ord for w in words] == list(range(1, len(words) + 1)), 'tree-ords-not-consecutive',
            lambda: f'{where} {[(w.form, w.ord) for w in words]}')
    for node in [root] + words:
        kids = list(node.children)
        require([k.ord for k in kids] == sorted(k.ord for k in kids), 'tree-children-not-sorted',
                lambda: f'{where} children of {node.form}: {[(k.form, k.ord) for k in kids]}')
        for kid in kids:
            require(kid.parent is node, 'tree-parent-child-mismatch',
                    lambda: f'{where} {kid.form}.parent is {kid.parent and kid.parent.form}, in children of {node.form}')
        require(node.root is root, 'tree-wrong-root', lambda: f'{where} {node.form}')
    for word in words:
        require(word.parent is not None and any(k is word for k in word.parent.children),
                'tree-not-among-parents-children', lambda: f'{where} {word.form}')
        climber, steps = word, 0
        while climber.parent is not None:
            climber = climber.parent
            steps += 1
            require(steps <= len(words) + 1, 'tree-cycle', lambda: f'{where} {word.form}')
        require(climber is root, 'tree-not-rooted', lambda: f'{where} {word.form}')
    require(root.parent is None and root.ord == 0 and root.is_root(), 'tree-root-broken', where)
    # neighbours
    sequence = [root] + words
    for i, node in enumerate(sequence):
        require(node.next_node is (sequence[i + 1] if i + 1 < len(sequence) else None), 'tree-next-node',
                lambda: f'{where} {node.form}')
        require(node.prev_node is (sequence[i - 1] if i else None), 'tree-prev-node',
                lambda: f'{where} {node.form}')


def shape(root):
    """Canonical value of a tree: ((label, head position), ...) in word order."""
    words = list(root.descendants)
    pos = {id(root): 0}
    for i, word in enumerate(words, 1):
        pos[id(word)] = i
    return tuple((w.form, pos.get(id(w.parent), -1)) for w in words)


class ModelTree:
    """The reference model: a list of labels in word order + a dict label -> head label (None=root)."""
    __slots__ = ('order', 'head')

    def __init__(self, order, head):
        self.order, self.head = list(order), dict(head)

    @classmethod
    def from_heads(cls, heads, labels=LABELS):
        return cls(labels[:len(heads)], {labels[i]: (labels[h - 1] if h else None) for i, h in enumerate(heads)})

    def copy(self):
        return ModelTree(self.order, self.head)

    def subtree(self, label):
        """Labels of the subtree (including its top; None = all), in word order."""
        if label is None:
            return list(self.order)
        return [x for x in self.order if self.dominates(label, x)]

    def dominates(self, top, label):
        """Is `label` equal to `top` or below it?"""
        while label is not None:
            if label == top:
                return True
            label = self.head[label]
        return top is None

    def children(self, label):
        return [x for x in self.order if self.head[x] == label]

    def shape(self):
        pos = {x: i for i, x in enumerate(self.order, 1)}
        return tuple((x, pos[self.head[x]] if self.head[x] is not None else 0) for x in self.order)

    def remove(self, label, rehang=False):
        if rehang:
            for kid in self.children(label):
                self.head[kid] = self.head[label]
            gone = {label}
        else:
            gone = set(self.subtree(label))
        self.order = [x for x in self.order if x not in gone]
        self.head = {x: h for x, h in self.head.items() if x not in gone}
        return gone
