"""An independent CoNLL-U serializer/observer: a sentence as plain data <-> text, and tree -> plain data."""


def word(form='w', lemma='_', upos='_', xpos='_', feats='_', head=0, deprel='_', deps='_', misc='_'):
    return [form, lemma, upos, xpos, feats, head, deprel, deps, misc]


def empty(eid, form='_', lemma='_', upos='_', xpos='_', feats='_', deps='_', misc='_'):
    return [eid, form, lemma, upos, xpos, feats, deps, misc]


def sentence(words=(), mwts=(), empties=(), comments=()):
    return {'comments': list(comments), 'words': [list(w) for w in words],
            'mwts': [list(m) for m in mwts], 'empties': [list(e) for e in empties]}


def id_key(eid):
    major, minor = eid.split('.')
    return int(major), int(minor)


def serialize(sent):
    """The CoNLL-U text of one sentence (a list of lines without the final empty line)."""
    lines = list(sent['comments'])
    rows = []
    for i, cols in enumerate(sent['words'], 1):
        rows.append(((i, 0, 1), [str(i)] + [str(c) for c in cols]))
    for start, end, form, misc in sent['mwts']:
        rows.append(((start, 0, 0), [f'{start}-{end}', form, '_', '_', '_', '_', '_', '_', '_', misc]))
    for eid, form, lemma, upos, xpos, feats, deps, misc in sent['empties']:
        rows.append(((*id_key(eid), 1), [eid, form, lemma, upos, xpos, feats, '_', '_', deps, misc]))
    rows.sort(key=lambda r: r[0])
    lines += ['\t'.join(cols) for _, cols in rows]
    if not sent['words']:
        lines.append('1\t_\t_\t_\t_\t_\t0\t_\t_\tEmpty=Yes')
    return lines


def document(sents):
    return ''.join('\n'.join(serialize(s)) + '\n\n' for s in sents)


def none(value):
    return '_' if value is None else value


def observe(root):
    """Plain data of a real tree, via the public API (comments excluded)."""
    words = []
    for node in root.descendants:
        words.append([none(node.form), none(node.lemma), none(node.upos), none(node.xpos), str(node.feats),
                      node.parent.ord, none(node.deprel), none(node.raw_deps), str(node.misc)])
    mwts = [[*map(int, m.ord_range.split('-')), none(m.form), str(m.misc)] for m in root.multiword_tokens]
    empties = [[str(e.ord), none(e.form), none(e.lemma), none(e.upos), none(e.xpos), str(e.feats),
                none(e.raw_deps), str(e.misc)] for e in root.empty_nodes]
    return {'words': words, 'mwts': sorted(mwts), 'empties': sorted(empties, key=lambda e: id_key(e[0]))}


def read_string(text):
    from udapi.core.document import Document
    doc = Document()
    doc.from_conllu_string(text)
    return doc


def first_difference(got, want):
    if got == want:
        return ''
    got_lines, want_lines = got.split('\n'), want.split('\n')
    for i, (one, two) in enumerate(zip(got_lines, want_lines)):
        if one != two:
            return f'line {i + 1}: got {one!r}, want {two!r}; got {got!r}'
    return f'got {len(got_lines)} lines, want {len(want_lines)}; got {got!r}'
