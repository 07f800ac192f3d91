"""C21: the text-mode visualization of trees can be decoded to exactly the same tree."""
import contextlib
import html
import io
import itertools
import os
import re

from mc.core import require, equal
from mc import trees

TITLE = ('All dependency trees up to the bound x layouts x indents x other options of write.TextModeTrees: the printed lines are decoded (every line segment has to be connected) and '
         'compared with the tree; subtrees, empty nodes, attributes, alignment, marks, colors and the HTML variant')
ASSUMPTIONS = ['attribute values contain no box-drawing characters']

# termcolor caches its decision for the whole process, so the harness takes it at the beginning
os.environ['FORCE_COLOR'] = '1'

LAYOUTS = ('classic', 'compact', 'align-words', 'align')
# which neighbours a character is connected to
SIDES = {'─': 'LR', '╼': 'L', '┮': 'LD', '┾': 'LUD', '┶': 'LU', '┡': 'UDR', '├': 'UDR', '┢': 'UDR', '╰': 'UR', '╭': 'DR', '│': 'UD', '╪': 'LRUD'}
SYMBOLS = '╼┮┾┶'


def BOUNDS(tier):
    big = tier != 'quick'
    return {'words_all_options': 6 if big else 5, 'words_default_options': 7 if big else 6, 'words_subtrees': 5 if big else 4, 'words_with_empty_nodes': 4 if big else 3,
            'words_attributes': 4 if big else 3, 'documents': '2 bundles x 2 zones, all subsets of marked trees'}


def shards(tier):
    bounds = BOUNDS(tier)
    result = []
    for n in range(0, bounds['words_default_options'] + 1):
        count = len(trees.head_vectors(n)) if n else 1
        full = n <= bounds['words_all_options']
        step = 60 if full else 1500
        result += [{'kind': 'tree', 'n': n, 'from': i, 'to': i + step, 'full': full} for i in range(0, count, step)]
    for kind, name in (('subtree', 'words_subtrees'), ('empty', 'words_with_empty_nodes'), ('attrs', 'words_attributes')):
        for n in range(0, bounds[name] + 1):
            count = len(trees.head_vectors(n)) if n else 1
            result += [{'kind': kind, 'n': n, 'from': i, 'to': i + 8} for i in range(0, count, 8)]
    return result[::-1] + [{'kind': 'document', 'n': 0, 'from': 0, 'to': 0}]


def run_shard(shard, rec):
    kind = shard['kind']
    if kind == 'document':
        for marks in itertools.product((0, 1), repeat=8):
            for writer in ('TextModeTrees', 'TextModeTreesHtml'):
                for options in ({}, {'marked_only': 1}, {'marked_only': 1, 'print_comments': 1}, {'marked_only': 1, 'zones': 'b'}, {'zones': 'b', 'print_comments': 1},
                                {'marked_only': 1, 'print_comments': 1, 'color': 1}, {'marked_only': 1, 'whole_bundle': 0}, {'marked_only': 1, 'zones_in_rows': 0},
                                {'marked_only': 1, 'print_empty': 0}, {'marked_only': 1, 'mark': 'X'}, {'mark': '', 'color': 1}, {'print_doc_meta': 0}):
                    if writer == 'TextModeTreesHtml' or not {'whole_bundle', 'zones_in_rows'} & set(options):
                        rec.run({'kind': kind, 'marks': marks, 'writer': writer, 'options': options})
        return
    n = shard['n']
    for heads in (trees.head_vectors(n) if n else [()])[shard['from']:shard['to']]:
        if kind == 'tree':
            rec.run({'kind': kind, 'heads': heads, 'full': shard['full']})
        elif kind == 'subtree':
            rec.run({'kind': kind, 'heads': heads})
        elif kind == 'empty':
            for gaps in itertools.product((0, 1, 2), repeat=n + 1):
                if sum(gaps) <= 3:
                    rec.run({'kind': kind, 'heads': heads, 'gaps': gaps})
        else:
            for values in itertools.product((0, 1, 2), repeat=n):
                rec.run({'kind': kind, 'heads': heads, 'values': values})


def run_case(case, rec):
    globals()['case_' + case['kind']](case, rec)
    rec.trace()
    rec.state(str(case))


# ---------------------------------------------------------------- decoding
def decode(lines, texts, where, layout='classic'):
    """Return the list of parents (indices of lines, None for the top) of the lines with texts; lines whose text is in `texts` as (text, True) are empty nodes."""
    grid = []
    for line, (text, empty) in zip(lines, texts):
        symbols = [i for i, c in enumerate(line) if c in SYMBOLS]
        equal(len(symbols), 0 if empty else 1, 'node-symbols', f'{where}: {line!r}')
        if text is not None:
            if layout == 'classic' and not empty:
                spot = symbols[0] + 1
                require(line[spot:spot + len(text) + 1] == ' ' + text, 'text-of-node', lambda: f'{where}: {line!r} {text!r}')
                line = line[:spot] + ' ' * (len(text) + 1) + line[spot + len(text) + 1:]
            else:
                require(line.endswith(' ' + text), 'text-of-node', lambda: f'{where}: {line!r} {text!r}')
                line = line[:len(line) - len(text)]
        require(all(c == ' ' or c in SIDES for c in line), 'unexpected-text', lambda: f'{where}: {line!r} {text!r}')
        grid.append(line)
    width = max(map(len, grid))
    grid = [line.ljust(width) for line in grid]
    for i, line in enumerate(grid):
        for j, char in enumerate(line):
            if char == ' ':
                continue
            for side, back, k, m in (('L', 'R', i, j - 1), ('R', 'L', i, j + 1), ('U', 'D', i - 1, j), ('D', 'U', i + 1, j)):
                if side in SIDES[char]:
                    other = grid[k][m] if 0 <= k < len(grid) and 0 <= m < width else ' '
                    if side == 'L' and j == 0:
                        continue
                    require(back in SIDES.get(other, ''), 'loose-end', lambda: f'{where}: line {i} column {j} {side}\n' + '\n'.join(lines))
    parents = []
    for i, line in enumerate(grid):
        spot = next((j for j, c in enumerate(line) if c in SYMBOLS), None)
        if spot is None:
            parents.append(-1)
            continue
        spot -= 1
        while spot >= 0 and line[spot] in '─╪':
            spot -= 1
        if spot < 0:
            parents.append(None)
            continue
        require(line[spot] in '┡├┢╰╭', 'edge', lambda: f'{where}: {line!r}')
        found, hint = [], line[spot]
        for step in (-1, 1):
            row = i
            while ('U' if step < 0 else 'D') in SIDES[grid[row][spot]]:
                row += step
                if grid[row][spot] in '┮┾┶':
                    found.append(row)
        equal(len(found), 1, 'parents', f'{where}: line {i}\n' + '\n'.join(lines))
        if hint in '┡┢':
            equal(hint, '┡' if found[0] < i else '┢', 'hint', where)
        parents.append(found[0])
    return parents


def render(node, rec, cls=None, **options):
    from udapi.block.write.textmodetrees import TextModeTrees
    block = (cls or TextModeTrees)(print_sent_id=0, print_text=0, add_empty_line=0, **options)
    handle = io.StringIO()
    with contextlib.redirect_stdout(handle):
        if block.color == 'auto':
            block.color = False
        block.process_tree(node)
    rec.step()
    return handle.getvalue().split('\n')[:-1]


def want_parents(heads):
    return [None] + list(heads)


def case_tree(case, rec):
    heads = case['heads']
    nodes = trees.build(heads, in_doc=True)
    texts = [(None, False)] + [(trees.LABELS[i], False) for i in range(len(heads))]
    indents, hintss = ((0, 1, 2, 3), (0, 1)) if case['full'] else ((1,), (1,))
    for layout, minimize, indent, hints in itertools.product(LAYOUTS, (0, 1), indents, hintss):
        lines = render(nodes[0], rec, attributes='form', layout=layout, minimize_cross=minimize, indent=indent, hints=hints)
        where = f'{heads} {layout} minimize_cross={minimize} indent={indent} hints={hints}'
        equal(len(lines), len(nodes), 'number-of-lines', where)
        equal(decode(lines, texts, where, layout), want_parents(heads), 'decoded-tree', where)
        check_layout(lines, texts, layout, where)
        if not hints:
            require('┡' not in ''.join(lines) and '┢' not in ''.join(lines), 'hints', where)


def check_layout(lines, texts, layout, where):
    if layout.startswith('align'):
        starts = {len(line) - len(text) for line, (text, _) in zip(lines, texts) if text}
        require(len(starts) <= 1, 'not-aligned', lambda: where + '\n' + '\n'.join(lines))


def case_subtree(case, rec):
    heads = case['heads']
    n = len(heads)
    nodes = trees.build(heads, in_doc=True)
    for top in range(1, n + 1):
        inside = [i for i in range(1, n + 1) if under(heads, i, top)]
        texts = [(trees.LABELS[i - 1], False) for i in inside]
        for layout, minimize in itertools.product(LAYOUTS, (0, 1)):
            lines = render(nodes[top], rec, attributes='form', layout=layout, minimize_cross=minimize)
            where = f'{heads} {top} {layout} {minimize}'
            equal(len(lines), len(inside), 'number-of-lines', where)
            equal(decode(lines, texts, where, layout), [None if i == top else inside.index(heads[i - 1]) for i in inside], 'decoded-subtree', where)
            handle = io.StringIO()
            with contextlib.redirect_stdout(handle):
                nodes[top].draw(attributes='form', layout=layout, minimize_cross=minimize, color=0, print_sent_id=1)
            text = ' '.join(trees.LABELS[i - 1] for i in inside)
            equal(handle.getvalue().split('\n'), [f'# sent_id = 1#{top}', '# text = ' + text] + lines + ['', ''], 'draw', where)
            rec.step()


def under(heads, node, top):
    while node and node != top:
        node = heads[node - 1]
    return node == top


def case_empty(case, rec):
    heads, gaps = case['heads'], case['gaps']
    n = len(heads)
    nodes = trees.build(heads, in_doc=True)
    root = nodes[0]
    texts, parents, index = [(None, False)], [None], {0: 0}
    for i in range(n + 1):
        if i:
            index[i] = len(texts)
            texts.append((trees.LABELS[i - 1], False))
        for j in range(gaps[i]):
            root.create_empty_child(form=f'E{i}{j}').ord = f'{i}.{j + 1}'
            texts.append((f'E{i}{j}', True))
    inverse = {v: k for k, v in index.items()}
    parents = [-1 if empty else None if i == 0 else index[heads[inverse[i] - 1]] for i, (_, empty) in enumerate(texts)]
    for layout, minimize in itertools.product(LAYOUTS, (0, 1)):
        where = f'{case} {layout} {minimize}'
        lines = render(root, rec, attributes='form', layout=layout, minimize_cross=minimize)
        equal(len(lines), len(texts), 'number-of-lines', where)
        equal(decode(lines, texts, where, layout), parents, 'decoded-tree', where)
        check_layout(lines, texts, layout, where)
        lines = render(root, rec, attributes='form', layout=layout, minimize_cross=minimize, print_empty=0)
        plain = [t for t in texts if not t[1]]
        equal(decode(lines, plain, where, layout), want_parents(heads), 'decoded-tree-without-empty-nodes', where)
        for top in range(1, n + 1):
            inside = [i for i in range(1, n + 1) if under(heads, i, top)]
            rows = [t for k, t in enumerate(texts) if (inverse[k] in inside if not t[1] else index[inside[0]] < k < index[inside[-1]])]
            lines = render(nodes[top], rec, attributes='form', layout=layout, minimize_cross=minimize)
            got = decode(lines, rows, f'{where} {top}', layout)
            names = [t[0] for t in rows]
            equal(got, [-1 if e else None if x == trees.LABELS[top - 1] else names.index(trees.LABELS[heads[trees.LABELS.index(x)] - 1]) for x, e in rows],
                  'decoded-subtree', f'{where} {top}')


FORMS = ('a<b', 'long "one" &amp;', 'č')


def case_attrs(case, rec):
    from udapi.block.write.textmodetreeshtml import TextModeTreesHtml
    heads, values = case['heads'], case['values']
    nodes = trees.build(heads, in_doc=True)
    table = [None]
    for i, node in enumerate(nodes[1:]):
        node.form, node.upos, node.deprel = FORMS[values[i]], (None, 'NOUN', 'X')[values[i]], 'dep' if i % 2 else None
        node.misc['A'] = ('', 'x', 'y=z')[values[i]]
        if values[i] == 2:
            node.misc['Mark'] = '1'
        table.append({'form': node.form, 'upos': node.upos, 'deprel': node.deprel, 'ord': str(i + 1), 'misc[A]': ('', 'x', 'y=z')[values[i]]})
    for layout, names, undef in itertools.product(LAYOUTS, (['form', 'upos', 'deprel'], ['ord', 'form'], ['misc[A]', 'form', 'upos']), ('_', '?')):
        if undef == '?' and len(names) == 2:
            continue
        where = f'{case} {layout} {names} {undef}'
        cells = [[undef if row[x] is None else row[x] for x in names] if row else None for row in table]
        if layout != 'align':
            texts = [(' '.join(c) if c else None, False) for c in cells]
            marked = [(f'**{t}**' if values[i - 1:i] == (2,) and i else t, e) for i, (t, e) in enumerate(texts)]
        options = {'attributes': ','.join(names), 'layout': layout, 'print_undef_as': undef}
        plain = render(nodes[0], rec, mark='', **options)
        lines = render(nodes[0], rec, **options)
        if layout != 'align':
            equal(decode(plain, texts, where, layout), want_parents(heads), 'decoded-tree', where)
            equal(decode(lines, marked, where, layout), want_parents(heads), 'decoded-tree-with-marks', where)
            check_starts(plain, texts, layout, where)
        else:
            for rows, marks in ((plain, False), (lines, True)):
                bare, starts = [], []
                for i, line in enumerate(rows):
                    if not i:
                        bare.append(line.rstrip(' '))
                        continue
                    spot = max(k for k, c in enumerate(line) if c in SIDES)
                    rest = line[spot + 1:]
                    position = []
                    for k, cell in enumerate(cells[i]):
                        text = f'**{cell}**' if marks and values[i - 1] == 2 else cell
                        if not text:
                            position.append(None)
                            continue
                        offset = rest.index(' ' + text)
                        require(not rest[:offset].strip(), 'unexpected-text', f'{where} {line!r}')
                        position.append(len(line) - len(rest) + offset)
                        rest = rest[offset + 1 + len(text):]
                    require(not rest.strip(), 'unexpected-text', f'{where} {line!r}')
                    starts.append(position)
                    bare.append(line[:spot + 1])
                require(all(len(set(column) - {None}) <= 1 for column in zip(*starts)), 'not-aligned', lambda: where + '\n' + '\n'.join(rows))
                equal(decode(bare, [(None, False)] * len(bare), where), want_parents(heads), 'decoded-tree', where)
        # colors and HTML do not change anything but the markup
        colored = render(nodes[0], rec, color=1, **options)
        uncolored = [re.sub('\x1b\\[[0-9;]*m', '', line) for line in colored]
        equal(uncolored, plain, 'colors', where)
        page = render(nodes[0], rec, cls=TextModeTreesHtml, **options)
        tags = re.sub(r"</?(?:mark|span)(?: class='[^']*')?>", '', '\n'.join(page))
        require(not re.search('[<>"]', tags), 'html-markup', lambda: f'{where}\n{tags}')
        equal(html.unescape(tags).split('\n'), plain, 'html', where)
        for i, line in enumerate(page[1:], 1):
            equal('<mark>' in line, values[i - 1] == 2, 'html-mark', where)
            for name, cell in zip(names, cells[i]):
                require(f"<span class='{name}'>{html.escape(cell)}</span>" in line, 'html-attribute', lambda: f'{where} {line}')


def check_starts(lines, texts, layout, where):
    if layout == 'align-words':
        starts = {len(line) - len(text) for line, (text, _) in zip(lines, texts) if text}
        require(len(starts) <= 1, 'not-aligned', lambda: where + '\n' + '\n'.join(lines))


def case_document(case, rec):
    import importlib
    from udapi.core.document import Document
    cls = getattr(importlib.import_module('udapi.block.write.' + case['writer'].lower()), case['writer'])
    is_html = case['writer'].endswith('Html')
    options = dict(case['options'])
    doc, everything = Document(), []
    if not is_html:
        doc.meta.update({'source': 'x y', 'about': '1', '_internal': 'z'})
    for number in range(2):
        bundle = doc.create_bundle()
        for k, zone in enumerate('ab'):
            tree = bundle.create_tree(zone)
            word = tree.create_child(form=f'{zone}{number}<', upos='X', deprel='root')
            empty = tree.create_empty_child(form=f'E{zone}{number}', deprel='dep')
            empty.ord = '1.1'
            tree.text = f'{zone} {number} & text'
            kind = case['marks'][2 * number + k] + 2 * case['marks'][4 + 2 * number + k]
            tree.comment = ' Note = y\n' + (' Mark = 1\n' if kind == 3 else '') + ' Other = Mark=z'
            if kind == 1:
                word.misc['Mark'] = '1'
            elif kind == 2:
                empty.misc['Bug'] = 'x'
            everything.append((number, zone, kind, tree))
    handle = io.StringIO()
    with contextlib.redirect_stdout(handle):
        cls(**options).run(doc)
    rec.step()
    text = handle.getvalue()
    selected = []
    for number, zone, kind, tree in everything:
        if options.get('zones', zone) != zone:
            continue
        marked = kind == 1 or (kind == 2 and options.get('print_empty', 1)) or (kind == 3 and options.get('print_comments', 0))
        if options.get('mark', 'Mark') != 'Mark':
            marked = False
        selected.append((number, zone, kind, tree, marked))
    if options.get('marked_only'):
        if is_html and options.get('zones_in_rows', 1) and options.get('whole_bundle', 1):
            good = {s[0] for s in selected if s[4]}
            selected = [s for s in selected if s[0] in good]
        else:
            selected = [s for s in selected if s[4]]
    color = options.get('color', is_html)
    want = []
    for number, zone, kind, tree, _ in selected:
        lines = [f'# sent_id = {number + 1}/{zone}', f'# text = {zone} {number} & text']
        if options.get('print_comments'):
            lines += ['# Note = y'] + ['# Mark = 1'] * (kind == 3) + ['# Other = Mark=z']
        star = lambda k, s: f'**{s}**' if kind == k and not color and options.get('mark', 'Mark') == 'Mark' else s
        lines += ['─┮', ' ╰─╼ ' + star(1, f'{zone}{number}< X root')]
        if options.get('print_empty', 1):
            lines += [' ' + star(2, f'E{zone}{number} _ dep')]
        want += [lines + ['']]
    if is_html:
        require(text.startswith('<!DOCTYPE html>') and text.endswith('</pre>\n</body>\n</html>\n'), 'html-frame', case)
        body = text.split('<pre>\n')[1].split('</pre>')[0]
        if options.get('zones_in_rows', 1):
            equal(body.count('<td>'), len(want), 'cells', str(case))
            equal(body.count('<table><tr>'), len({s[0] for s in selected}), 'rows', str(case))
            equal(re.findall('<(/?(?:table|tr|td))>', body), [t for n in sorted({s[0] for s in selected})
                  for t in ['table', 'tr'] + ['td', '/td'] * len([1 for s in selected if s[0] == n]) + ['/tr', '/table']], 'table', str(case))
        if options.get('print_comments'):
            equal(body.count('<mark> Mark = </mark>'), len([1 for s in selected if s[2] == 3]), 'marked-comments', str(case))
        body = re.sub(r'</?(?:table|tr|td)>\n?', '', body)
        body = re.sub(r'<(/?)(mark|span)( class=[^>]*)?>', '', body).replace('<table><tr>\n', '')
        body = html.unescape(body)
    else:
        body = re.sub('\x1b\\[[0-9;]*m', '', text)
        header = 'about = 1\nsource = x y\n'
        if options.get('print_doc_meta', 1):
            require(body.startswith(header), 'document-meta', lambda: f'{case} {body[:99]}')
            body = body[len(header):]
        if options.get('print_comments') and color:
            equal(len(re.findall('\x1b\\[[0-9;]*m Mark = ', text)), len([1 for s in selected if s[2] == 3]), 'marked-comments', str(case))
            equal(len(re.findall('\x1b\\[[0-9;]*mMark=', text)), 0, 'marked-comments', str(case))
        if not color:
            require('\x1b' not in text, 'colors', str(case))
    equal(body, ''.join(line + '\n' for lines in want for line in lines), 'document', str(case))
