"""Single source of properties.jsonl and MANIFEST.json (run bin/gen after editing)."""

TESTS = ('The existing tests sample a handful of hand-written trees and two treebank files; ')


def prop(pid, title, statement, over, text, why, files, mechanism, observe, technique, note):
    return dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files,
                mechanism=mechanism, observe=observe, technique=technique, note=note)


REAL = ('Decided by exhaustive enumeration on the real code (no separate model to drift): every case inside the '
        'stated bounds is executed and compared with an independent reference model. ')

PROPS = [
prop('C01', 'Editing operations keep every sentence a well-formed ordered tree',
     'After any sequence of editing operations (adding words, re-attaching, moving in word order, deleting with or '
     'without the dependents, flattening, moving words to another tree), every word is reachable from the technical '
     'root exactly once, parent and child links agree, children are listed in word order, there is no cycle, and '
     'words are numbered 1..n without gaps. '
     'Deletion removes exactly the word and its subtree (or re-attaches the dependents to its parent on request), and '
     'all other attachments stay as they were. '
     'An operation which is refused with an error (a cycle, a missing parent, a parent in another tree, an empty node as parent) '
     'leaves all trees unchanged.',
     ['histories', 'inputs'], 'all trees up to 5 (6) words x all operations with all arguments; all histories of depth 2-3 '
     'from smaller trees',
     TESTS + 'they exercise a dozen fixed edits, never all orders and arguments of operations.',
     ['udapi/core/node.py', 'udapi/core/root.py'],
     [('parent setter, create_child, remove, word-order shifting', 'udapi/core/node.py'),
      ('steal_nodes, flatten', 'udapi/core/root.py')],
     ['Node.parent/children/descendants/ord/prev_node/next_node'],
     'explicit-state exhaustive exploration of operation histories on the real tree objects',
     REAL + 'Transition-complete for trees up to 5 (6) words, so every single operation from every such tree; '
     'histories to depth 2/3 for 3/1(2) words.'),

prop('C02', 'Word-order moves place exactly the moved words, and keep all other order',
     'Moving a word (with or without its subtree) before or after a reference word or the whole subtree of a reference '
     'word results in the moved words forming one block, in their original relative order, immediately next to the reference; '
     'all other words keep their relative order and no attachment changes. '
     'A move of a subtree relative to its own descendant is refused with an error, or silently skipped if so requested, '
     'and a move before the technical root is refused; then nothing changes.',
     ['inputs', 'histories'], 'all trees up to 5 (6) words x 4 methods x node x reference x flags; pairs of moves for 3 (4) words',
     TESTS + 'moves of gapped (non-projective) subtrees over every kind of reference are not sampled.',
     ['udapi/core/node.py'],
     [('shift_before/after_node/subtree', 'udapi/core/node.py'), ('permutation in place', 'udapi/core/node.py')],
     ['root.descendants order and ords'],
     'exhaustive enumeration of (tree, move) pairs on the real code against a list-permutation model',
     REAL + 'If the reference lies inside the moved block, only relative order and side are required.'),

prop('C03', 'CoNLL-U reading and writing are inverse to each other',
     'Reading a valid CoNLL-U file and writing it gives a byte-identical file: every column, multi-word token, empty '
     'node, enhanced dependency, comment (including sentence and text comments, document and paragraph boundaries, json '
     'comments) and their order are kept. '
     'Writing a document built or edited via the API and reading it back gives an equal document. '
     'A tree with no words survives the round trip as a tree with no words.',
     ['inputs'], 'all CoNLL-U sentences generated from bounded alternatives of every column and line kind, all comment block orders',
     'Two sample files are round-tripped by the existing tests; rare combinations of lines never occur in them.',
     ['udapi/block/read/conllu.py', 'udapi/block/write/conllu.py', 'udapi/core/document.py'],
     [('line parser', 'udapi/block/read/conllu.py'), ('serializer and comment placeholders', 'udapi/block/write/conllu.py')],
     ['to_conllu_string(from_conllu_string(x))', 'node attributes after reading'],
     'exhaustive enumeration of bounded CoNLL-U inputs, differential against an independent line model',
     REAL + 'Column values come from a small alphabet chosen for the special characters of the format.'),

prop('C04', 'The CoNLL-U reader never builds a malformed tree',
     'For any HEAD column values, the reader either builds the well-formed tree which these values describe or raises an error: '
     'a cycle, a self-loop, an out-of-range or negative HEAD never yields a tree. '
     'With cycle fixing requested, every cycle or self-loop is broken by attaching one of its nodes to the root, the result is a '
     'well-formed tree, and all other attachments are kept.',
     ['inputs'], 'all HEAD vectors over {-1..n+1, _} up to n=5 (6) x reader options',
     'Existing tests read only valid files.',
     ['udapi/block/read/conllu.py'],
     [('cycle detection in read_tree_from_lines', 'udapi/block/read/conllu.py')],
     ['Document.from_conllu_string, read.Conllu(fix_cycles=1)'],
     'exhaustive enumeration of all head vectors within bounds',
     REAL),
prop('C05', 'All ways of loading a file give the same sentences, only split differently',
     'Loading CoNLL-U input as one document, split at document boundaries, split by the number of sentences, merged into one document, '
     'restricted by a sentence-id filter, or limited to a number of documents gives the same sentences with the same content in the same order: '
     'none is lost, duplicated or moved to another file, and only the grouping into documents and the requested restriction differ. '
     'Trees of several zones which belong to one bundle stay in one bundle, and extra or missing blank lines at either end of a file or between sentences do '
     'not change the result. '
     'A sentence without an identifier never gets the identifier of another one.',
     ['inputs', 'histories'], 'all sequences of up to 4-5 (5-6) sentences of 9 kinds x splits into up to 3 files x 26 loading modes x blank-line layouts',
     'Existing tests load two files in the default mode and one in the split mode.',
     ['udapi/core/basereader.py', 'udapi/block/read/conllu.py', 'udapi/core/document.py'],
     [('process_document, buffered bundles, next_filehandle', 'udapi/core/basereader.py'), ('read_trees, read_tree', 'udapi/block/read/conllu.py')],
     ['documents yielded by read.Conllu with various parameters', 'run scenario with split_docs, bundles_per_doc, merge'],
     'exhaustive enumeration of bounded sentence sequences x loading modes on the real reader against a partition model',
     REAL),

prop('C06', 'FEATS and MISC behave as a mapping and as a string which always agree',
     'After any sequence of reads and writes of features, miscellaneous attributes (of words and multi-word tokens), and other mention '
     'attributes, through the string or the mapping, both views describe the same attribute-value pairs, namely those which '
     'the operations say: setting, deleting, clearing, updating, replacing and popping have the effect they have on an ordinary dictionary. '
     'Deleting a missing attribute is harmless, an attribute set to an empty value is deleted, the string is sorted case-insensitively when it '
     'has been rebuilt, and the change of one node never changes another node.',
     ['histories'], 'all operation histories of length 3 (4) over 44 operations, 9 initial values, 5 kinds of hosts',
     'Existing tests check a dozen fixed operations; lazy synchronization depends on the order of reads and writes.',
     ['udapi/core/dualdict.py', 'udapi/core/feats.py', 'udapi/core/node.py', 'udapi/core/coref.py'],
     [('lazy (de)serialization', 'udapi/core/dualdict.py'), ('OtherDualDict', 'udapi/core/coref.py')],
     ['node.feats, node.misc, str(...), mention.other'],
     'explicit-state exhaustive exploration of operation histories on the real mapping objects against a dictionary model',
     REAL),
prop('C07', 'Enhanced dependencies follow their nodes, and both their views agree',
     'The enhanced dependencies of a word or empty node seen as a string and as a list of (parent node, label) pairs always describe the same edges, '
     'whichever of them was read or written last, including edits of the list in place. '
     'When words are moved, inserted or deleted, or empty nodes are created or deleted, every edge keeps pointing to the same node and '
     'the string shows the current ids, whether or not the edges were accessed before. '
     'Deleting a node deletes exactly the edges which lead from or to the deleted nodes.',
     ['histories'], 'all histories of length 3 (4) over about 60 operations from 2 sentences with unread enhanced dependencies',
     'Existing tests read one file and append one edge; lazy deserialization depends on the order of operations.',
     ['udapi/core/node.py', 'udapi/core/root.py'],
     [('deps, raw_deps', 'udapi/core/node.py'), ('removal and reordering', 'udapi/core/node.py')],
     ['node.deps, node.raw_deps, DEPS column written by write.Conllu'],
     'explicit-state exhaustive exploration of operation histories on the real objects against a graph model',
     REAL),

prop('C08', 'Empty nodes keep their place; their ids stay unique, consecutive and sorted',
     'Whatever words are removed or moved and whatever empty nodes are created or deleted, empty nodes keep their order relative to each other and to the words which were not '
     'moved, and their ids are k.1, k.2 and so on, where k is the number of the preceding word, also beyond k.9. '
     'An empty node created after (before) a word is placed after all empty nodes which already follow that word (the previous word), and an empty '
     'node never becomes a part of the basic tree. '
     'Words and empty nodes compare in the order of the sentence, and this order and the ids survive writing and reading.',
     ['histories'], 'all trees up to 3-4 words x distributions of empty nodes x single operations; histories of length 2-3 on smaller ones; up to 14 '
     'empty nodes in one place',
     'One existing test performs a fixed sequence of five edits.',
     ['udapi/core/node.py', 'udapi/core/root.py'],
     [('create_empty_child, EmptyNode, OrdTuple', 'udapi/core/node.py'), ('descendants_and_empty', 'udapi/core/root.py')],
     ['root.descendants_and_empty, root.empty_nodes, ord, CoNLL-U ids'],
     'exhaustive exploration of operation histories on the real objects against a sequence model',
     REAL),

prop('C09', 'Multi-word tokens stay intact and the tokens always spell the sentence',
     'Every word belongs to at most one multi-word token, a multi-word token and its words refer to each other, and creating a token over words of '
     'existing tokens replaces these tokens; deleting a token keeps its words, deleting a word takes it out of its token. '
     'The token sequence covers every word exactly once in sentence order, and the detokenized text is the forms of these tokens separated by a space '
     'except after tokens marked as having no space after, also for subtrees and after any edits or a round trip through a file. '
     'Converting all multi-word tokens to words, or unspaced words to multi-word tokens, keeps that text.',
     ['histories'], 'all histories of length 3 (4) over about 40 operations from 6 trees of 4-5 words',
     'Existing tests read one file with multi-word tokens and never edit it.',
     ['udapi/core/mwt.py', 'udapi/core/root.py', 'udapi/core/node.py', 'udapi/block/ud/removemwt.py', 'udapi/block/ud/joinasmwt.py'],
     [('create_multiword_token, token_descendants', 'udapi/core/root.py'), ('compute_text', 'udapi/core/node.py')],
     ['root.token_descendants, compute_text, multiword_tokens, CoNLL-U token lines'],
     'explicit-state exhaustive exploration of operation histories on the real objects against a token-list model',
     REAL),

prop('C10', 'Coreference annotation survives writing to a file and loading again',
     'Whatever entities and mentions are annotated (nested, crossing, discontinuous, including empty nodes, with any head, type and other attributes, '
     'bridging and split antecedents), a written file loaded again contains the same entities with the same mentions, attributes and links, except links to '
     'entities without mentions. '
     'The written Entity, Bridge and SplitAnte attributes follow the format: closing brackets precede opening ones, same-entity brackets are well nested, '
     'and each field is in the position given by the global.Entity header. '
     'A legal file loads to the same objects whatever order of brackets it uses.',
     ['inputs'], 'all sets of up to 3 (4) mentions over all node subsets of 4-5 (6) nodes x all entity assignments; all attribute combinations x 12 header '
     'formats; all small link configurations and deletions',
     'Existing tests load two files and store one of them.',
     ['udapi/core/coref.py', 'udapi/core/basewriter.py'],
     [('load_coref_from_misc, store_coref_to_misc', 'udapi/core/coref.py')],
     ['doc.coref_entities, entity.mentions, mention.words/head/other/bridging, entity.split_ante, MISC attributes in the file'],
     'exhaustive enumeration of bounded annotations executed on the real code: store, an independent parser of the file, and reload, against the plain-data model',
     REAL),

prop('C11', 'Coreference objects stay consistent under all edits',
     'After any sequence of creating, changing (words, span, head, entity) and removing mentions and editing bridging links and split antecedents, every '
     'mention is in the list of exactly its entity and of exactly its words, its head is one of its words, links point to the entities they were set '
     'to, and all lists are in the order of the text. '
     'An edit which is refused with an error (a head outside the words, a duplicate entity id, a self-referencing bridging) changes nothing. '
     'Whatever edits were done, including changes of word order, storing and loading gives the same annotation.',
     ['histories'], 'all histories of length 2 (3) over about 80 operations and of length 3 (4) over 20 core operations from four initial documents',
     'One existing test performs a fixed sequence of edits.',
     ['udapi/core/coref.py', 'udapi/core/document.py', 'udapi/core/node.py'],
     [('CorefMention, CorefEntity, BridgingLinks', 'udapi/core/coref.py')],
     ['doc.eid_to_entity, doc.coref_mentions, node.coref_mentions, node.coref_entities, entity.mentions, the stored file'],
     'explicit-state exhaustive exploration of operation histories on the real objects against a plain-data model',
     REAL),

prop('C12', 'Mention spans and sets of nodes are inverse to each other',
     'The span string of any set of words and empty nodes lists the maximal ranges of neighbouring nodes of the sentence in order, and '
     'converting it back gives exactly this set in sentence order. '
     'A span string with ranges in any order, overlapping or not, denotes exactly the nodes within the ranges, comparing ids as pairs of numbers (1.10 '
     'follows 1.9).',
     ['inputs'], 'all non-empty subsets of all placements of words and empty nodes up to 7 (9) nodes; all range strings with up to 3 ranges on up to 5 nodes; '
     'intervals with 12 empty nodes in one place',
     'Existing tests compare spans of a handful of mentions.',
     ['udapi/core/coref.py'],
     [('span_to_nodes, nodes_to_span', 'udapi/core/coref.py')],
     ['mention.span, mention.words, udapi.core.coref.nodes_to_span/span_to_nodes'],
     'exhaustive enumeration of bounded inputs executed on the real code against an independent definition',
     REAL),

prop('C13', 'Projectivity predicates and (de)projectivisation are correct',
     'node.is_nonprojective() holds exactly when some word between the node and its parent is not dominated by the parent, and is_nonprojective_gap(), the '
     'gap report, holds exactly when the node lies inside the span of a subtree it does not belong to. '
     'transform.Proj makes every tree projective, moves only nonprojective nodes upwards, keeps the words and their order and is the identity on projective trees; '
     'transform.Deproj restores every tree in which only one word had to be moved and all relations differ; transform.Flatten attaches every word to the root (or all others to the first word) with the relation root (or dep).',
     ['inputs'], 'all dependency trees with up to 6 (7) words for the predicates, 5 (6) for the transformations, all parameter values',
     'Existing tests check one tree.',
     ['udapi/core/node.py', 'udapi/block/transform/proj.py', 'udapi/block/transform/deproj.py', 'udapi/block/transform/flatten.py'],
     [('is_nonprojective, is_nonprojective_gap', 'udapi/core/node.py'), ('Proj, Deproj, Flatten', 'udapi/block/transform')],
     ['node.is_nonprojective(), node.is_nonprojective_gap(), trees after running the blocks'],
     'exhaustive enumeration of bounded trees executed on the real code against brute-force definitions',
     REAL),

prop('C14', 'Navigation in trees follows its definitions',
     'For every tree and node, children, siblings, descendants (with add_self, preceding_only, following_only), prev_node, next_node, is_leaf, is_descendant_of, get_attrs '
     'and the minimal common treelet of any set of nodes equal their definitions over the head relation, and lists are in word order. '
     'Comparison of word order works within and across trees of a document, for words and empty nodes. '
     'Reading and assigning udeprel and sdeprel split and join the relation at its first colon.',
     ['inputs'], 'all trees with up to 5 (6) words, all nodes, pairs and sets of up to 3 (4) nodes; all layouts of 3 bundles with up to two zones',
     'Existing tests check one tree.',
     ['udapi/core/node.py', 'udapi/core/root.py'],
     [('children, descendants, siblings, precedes', 'udapi/core/node.py'), ('find_minimal_common_treelet', 'udapi/core/node.py')],
     ['properties and methods of Node, ListOfNodes and Root'],
     'exhaustive enumeration of bounded trees executed on the real code against brute-force definitions',
     REAL),

prop('C15', 'Bundles, zones and sentence ids stay consistent under all edits of a document',
     'After any sequence of creating, removing and moving bundles and trees and of changing zones, bundle ids and sentence ids, bundles are numbered from 1 in '
     'document order, no two trees of a bundle share a zone, every sent_id is the bundle id with the zone appended after a slash (nothing is appended for the empty zone), and all links between '
     'documents, bundles and trees agree. '
     'Invalid operations (duplicate or malformed zones) are rejected and change nothing. '
     'Iteration over bundles, trees and nodes visits exactly the contents in order, and saving and loading restores the same bundles and zones.',
     ['histories'], 'all sequences of up to 3 (4) operations out of about 10-40 applicable ones, and the graph of distinct states up to depth 6 (8) from eight initial documents',
     'Existing tests create a few bundles in one order.',
     ['udapi/core/document.py', 'udapi/core/bundle.py', 'udapi/core/root.py', 'udapi/core/basereader.py'],
     [('Document', 'udapi/core/document.py'), ('Bundle', 'udapi/core/bundle.py'), ('sent_id, zone', 'udapi/core/root.py')],
     ['doc.bundles, bundle.number, bundle.bundle_id, tree.zone, tree.sent_id, iteration, the stored file'],
     'explicit-state exhaustive exploration of operation histories on the real objects against a plain-data model',
     REAL),

prop('C16', 'Splitting, joining and re-segmenting sentences loses nothing',
     'root.steal_nodes(), util.SplitSentence, util.JoinSentence, segment.Merge, util.Split and util.ResegmentGold keep every word, multi-word token, empty node, SpaceAfter and enhanced dependency '
     'between nodes that stay together; the words keep their relative order, words whose head stays elsewhere hang on the root, and ids, positions, links, sentence ids, bundle numbers and texts are right in all trees involved. '
     'Splits and joins happen exactly at the requested places. '
     'segment.Simple and read.Sentences cut plain text exactly at the boundaries they document and lose no text.',
     ['inputs', 'histories'], 'all trees with up to 4 words x all moved subsets x all sets of multi-word tokens x all placements of empty nodes x 4 target trees; all split points, marks and join points '
     'in documents of up to 3-5 sentences; all part sizes up to 6 (8) bundles; all gold and predicted segmentations and tokenizations of up to 5 (6) tokens; all texts of up to 3 (4) of 17 tokens; all files of up to 5 (6) of 5 kinds of lines',
     'No existing test covers these blocks.',
     ['udapi/core/root.py', 'udapi/block/util/splitsentence.py', 'udapi/block/util/joinsentence.py', 'udapi/block/util/split.py', 'udapi/block/util/resegmentgold.py',
      'udapi/block/segment/merge.py', 'udapi/block/segment/simple.py', 'udapi/block/read/sentences.py'],
     [('steal_nodes', 'udapi/core/root.py'), ('SplitSentence, JoinSentence, Split, ResegmentGold', 'udapi/block/util'), ('Merge, Simple', 'udapi/block/segment')],
     ['trees, bundles and documents after running the blocks'],
     'exhaustive enumeration of bounded documents and operations executed on the real code against a plain-data model',
     REAL),

prop('C17', 'Tokens and plain text stay aligned',
     'The tokenizers cut every text into exactly the words they document and record the white space, so that the tokens give back the text. '
     'ud.SetSpaceAfterFromText, ud.GoeswithFromText and read.AddText make the tokens spell the given text by marking SpaceAfter=No (or adding goeswith) exactly where needed and change nothing else; missing texts are reported. '
     'ud.SetSpaceAfter marks exactly the documented punctuation and quotes, and read.AddSentences and read.Text assign every line of the file to its sentence.',
     ['inputs'], 'all texts of up to 5 (6) characters of 7; all sequences of up to 3 (4) tokens of 4 forms x all multi-word tokens x initial SpaceAfter x white space; all spacings inside and between up to 3 tokens x all trees; '
     'all sequences of up to 4 (5) words of 6 kinds for the heuristic; all layouts of a text over sentences and 6 separators; all files of up to 5 (6) lines of 6 kinds',
     'Existing tests check two or three sentences with SetSpaceAfterFromText and one tokenized text.',
     ['udapi/block/tokenize/onwhitespace.py', 'udapi/block/tokenize/simple.py', 'udapi/block/ud/setspaceafterfromtext.py', 'udapi/block/ud/setspaceafter.py', 'udapi/block/ud/goeswithfromtext.py',
      'udapi/block/read/addtext.py', 'udapi/block/read/addsentences.py', 'udapi/block/read/text.py'],
     [('tokenizers', 'udapi/block/tokenize'), ('SetSpaceAfterFromText, SetSpaceAfter, GoeswithFromText', 'udapi/block/ud'), ('AddText, AddSentences, Text', 'udapi/block/read')],
     ['words, multi-word tokens, MISC and texts of the trees'],
     'exhaustive enumeration of bounded texts and token sequences executed on the real code against a reference model',
     REAL),

prop('C18', 'Blocks which split, join or mark tokens keep the text and the rest of the tree',
     'Creating, removing, splitting and joining words and multi-word tokens (ud.AddMwt and its language-specific variants, ud.JoinAsMwt, ud.RemoveMwt, ud.FixMwtSpace, ud.JoinToken, ud.SplitUnderscoreTokens) never changes the text of the sentence, '
     'leaves all other words, heads and multi-word tokens as they are, and sets the attributes, heads and SpaceAfter of the words concerned as documented. '
     'ud.ComplyWithText makes words and text agree for every input: it never leaves an empty word or a word with space, deletes or adds only punctuation (or goeswith), stores every previous form and text, respects its options, and leaves trees which already comply as they are.',
     ['inputs'], 'all trees with up to 3-4 (4-5) words x all (sets of) multi-word tokens x all marks, spaces and options; all sequences of up to 3 of 7 forms x spaces x multi-word tokens x all texts of up to 3-4 (4-5) characters x 11 option settings',
     'No existing test checks these blocks.',
     ['udapi/block/ud/addmwt.py', 'udapi/block/ud/joinasmwt.py', 'udapi/block/ud/removemwt.py', 'udapi/block/ud/fixmwtspace.py', 'udapi/block/ud/jointoken.py', 'udapi/block/ud/splitunderscoretokens.py',
      'udapi/block/ud/complywithtext.py', 'udapi/core/mwt.py'],
     [('AddMwt, JoinAsMwt, RemoveMwt, FixMwtSpace, JoinToken, SplitUnderscoreTokens, ComplyWithText', 'udapi/block/ud'), ('create_multiword_token', 'udapi/core/root.py')],
     ['words, multi-word tokens, MISC, comments and texts of the trees'],
     'exhaustive enumeration of bounded trees, tokens and texts executed on the real code against a reference model',
     REAL),

prop('C19', 'Scenarios run as written; blocks get exactly the right parts of documents',
     'A scenario creates its blocks in order with exactly the given parameters, starts all of them, applies all of them in order to one document after another until every reader has finished, and ends all of them; invalid scenarios, unknown blocks and unknown parameters are rejected. '
     'The method of a block which is overridden (for entities, mentions, bundles, trees, nodes or empty nodes) is called exactly once, in document order, for every item in the selected zones (subject to if_empty_tree), even if the block removes or creates items meanwhile. '
     'The options of the udapy program add what they document, and its exit status tells whether an error occurred.',
     ['histories', 'inputs'], 'all scenarios of up to 4 (5) of 10 tokens; all 64 sets of overridden methods x 8 zone settings x all layouts of up to 2 bundles with up to 3 zones and 0-2 nodes; all subsets of removed items out of up to 4-5 (5-6); '
     'all 128 option sets; all blocks in the package',
     'Existing tests run two simple scenarios.',
     ['udapi/core/run.py', 'udapi/core/block.py', 'bin/udapy'],
     [('Run, _import_blocks', 'udapi/core/run.py'), ('Block.process_document, _should_process_tree', 'udapi/core/block.py'), ('udapy', 'bin/udapy')],
     ['calls received by recording blocks, exceptions, exit status'],
     'exhaustive enumeration of bounded scenarios and documents executed on the real code against a model of the execution',
     REAL),

prop('C20', 'Documents are read from and written to exactly the files asked for',
     'Lists of file names, wildcards and file lists give exactly the files they describe, in order, and every reader goes through all of them; compressed files and byte order marks do not change what is read. '
     'Every document goes to the file given by files, filehandle, docname_as_file, overwrite or path (or to the standard output), with the same content as on the standard output and the requested encoding and newlines; no other file is touched and standard output is restored. '
     'Running out of file names and incompatible parameters are reported.',
     ['inputs', 'histories'], 'all lists of up to 3 (4) of 11 kinds of names; all sequences of up to 3 (4) of 6 kinds of documents x 24 option settings; all sequences of up to 3 (4) files of 5 kinds; all writers; pipelines over up to 3 files',
     'Existing tests read two files and write one.',
     ['udapi/core/files.py', 'udapi/core/basewriter.py', 'udapi/core/basereader.py'],
     [('Files', 'udapi/core/files.py'), ('before_process_document, after_process_document', 'udapi/core/basewriter.py')],
     ['names and bytes of files in a scratch directory, standard output'],
     'exhaustive enumeration of bounded histories of documents executed on the real code against a reference model',
     REAL),

prop('C21', 'Drawn trees show exactly the tree',
     'The lines printed by write.TextModeTrees (and node.draw()) contain every node exactly once in word order with its attributes, and following the drawn edges gives exactly the parent of every node, '
     'for every tree (including non-projective ones), every layout, indent and other option, for whole trees as well as subtrees and with empty nodes; no segment has a loose end, hints show the right direction and align layouts align the columns. '
     'Marked nodes and comments (and nothing else) are highlighted, marked_only prints exactly the trees with a mark, and headers and comments are complete. '
     'Colors and write.TextModeTreesHtml add only markup and escape special characters.',
     ['inputs'], 'all trees with up to 5 (6) words x 4 layouts x 2 x 4 indents x 2, up to 6 (7) words with default options; all subtrees of trees with up to 4 (5) words; up to 3 empty nodes in all positions; all 256 markings of a document',
     'Existing tests print a few trees.',
     ['udapi/block/write/textmodetrees.py', 'udapi/block/write/textmodetreeshtml.py', 'udapi/core/node.py'],
     [('process_tree, add_node', 'udapi/block/write/textmodetrees.py'), ('process_bundle', 'udapi/block/write/textmodetreeshtml.py')],
     ['the printed text'],
     'exhaustive enumeration of bounded trees; an independent decoder of the drawing executed on the output of the real code',
     REAL),

prop('C22', 'Scores and differences of parallel trees are right',
     'eval.Parsing, eval.F1, eval.Conll17 and eval.Conll18 report exactly the counts, precision, recall and F1 given by the definitions of the metrics, summed over all sentences and documents, in the table as well as in raw counts, into exactly the file asked for, and never crash on empty trees. '
     'The longest common subsequence used by eval.F1 is a longest one. '
     'util.MarkDiff marks exactly the words which differ (in the selected attributes or in the aligned parent), aligns words one to one, and counts every difference once.',
     ['inputs'], 'all pairs of trees with up to 4 words (Parsing); all pairs of trees over subsequences of 4 words with up to 3 (4) words x attribute patterns, all 1024 combinations of differing attributes of two words; '
     'all relations and heads of two function words; all pairs of sequences of up to 4 (5) tokens of 3 x 5 focus settings (F1)',
     'No existing test runs these blocks on parallel trees.',
     ['udapi/block/eval/parsing.py', 'udapi/block/eval/f1.py', 'udapi/block/eval/conll17.py', 'udapi/block/eval/conll18.py', 'udapi/block/util/markdiff.py'],
     [('Parsing, F1, Conll17, Conll18', 'udapi/block/eval'), ('MarkDiff', 'udapi/block/util/markdiff.py')],
     ['printed scores, MISC and comments'],
     'exhaustive enumeration of bounded pairs of trees executed on the real code against brute-force definitions',
     REAL),

prop('C23', 'Filters, marks, statistics and normalization cover exactly the right nodes',
     'util.Filter keeps or deletes exactly the trees, subtrees and nodes given by its conditions (applied in the documented order, keeping well-formed trees), and util.Mark marks exactly the matching nodes and the requested parts of their trees. '
     'util.See and util.Wc report exactly the numbers of the matching nodes, words, trees and other units, of every category and percentage, and never crash on empty documents. '
     'util.Normalize normalizes the attributes of all words, multi-word tokens and empty nodes, numbers sentences and empty nodes consecutively and changes nothing else; util.Eval evaluates its code exactly once for every document, bundle, tree, node or other item in the selected zones, in order, even if the code removes items; '
     'util.FindBug and util.MarkMwtBugsAtNodes report exactly the documented problems.',
     ['inputs'], 'all trees with up to 4 (5) words x all subsets of matching nodes x all 7 filters and pairs of filters x marks; up to 3 (4) words for statistics; all documents with up to 3 (4) trees of 6 kinds',
     'Existing tests run util.Eval and util.Filter on a few trees.',
     ['udapi/block/util/filter.py', 'udapi/block/util/mark.py', 'udapi/block/util/see.py', 'udapi/block/util/wc.py', 'udapi/block/util/normalize.py', 'udapi/block/util/eval.py',
      'udapi/block/util/findbug.py', 'udapi/block/util/markmwtbugsatnodes.py'],
     [('Filter, Mark, See, Wc, Normalize, Eval, FindBug, MarkMwtBugsAtNodes', 'udapi/block/util')],
     ['nodes, MISC, attributes and ids in the documents, printed reports'],
     'exhaustive enumeration of bounded documents and parameters executed on the real code against set-based oracles',
     REAL),

prop('C24', 'ud.FixPunct attaches punctuation projectively without touching words',
     'For every tree with projective words and one non-punctuation subroot, ud.FixPunct gives a tree in which punctuation has no children, is attached projectively and causes no gap, the only child of the root is labeled root, dependencies among words are kept, '
     'and paired marks (brackets, quotes) are attached to the head of the subtree they enclose, no other punctuation inside of an enclosed subtree being attached outside of it. '
     'For any other tree the result is still a tree with one subroot labeled root over the same words in the same order, and the block never crashes.',
     ['inputs'], 'all trees with up to 3 nodes of 14 kinds of words and punctuation, with 4 nodes of most kinds and with 5 nodes of 5 (6) kinds, x settings of check_paired_punct_upos and copy_to_enhanced',
     'No existing test runs ud.FixPunct on more than one treebank sample.',
     ['udapi/block/ud/fixpunct.py'],
     [('process_tree, _fix_subtree, _fix_paired_punct, _nonproj_caused_by_punct', 'udapi/block/ud/fixpunct.py')],
     ['heads, deprels and DEPS of the tree'],
     'exhaustive enumeration of bounded trees executed on the real code, postconditions checked on each',
     REAL),

prop('C25', 'The other ud.Fix blocks establish what they document and change nothing else',
     'ud.FixChain leaves no chain of the given deprel, ud.FixRightheaded makes the leftmost word the head of flat, fixed, appos, goeswith and list, ud.FixRoot makes the children of the root (and only them) labeled root, ud.FixLeaf and ud.FixPunctChild leave no disallowed children of leaves and punctuation, '
     'ud.FixMultiSubjects leaves at most one subject (not counting :outer) per predicate, ud.FixCompoundName, ud.FixAdvmodByUpos and ud.FixPseudoCop relabel and restructure exactly the documented cases, ud.Basic2Enhanced copies the basic tree to DEPS, ud.AddPunctType sets PunctType by form, '
     'ud.SetTranslation stores each translation in its tree and ud.PrintFixed prints every fixed expression once. '
     'All of them keep a well-formed tree, never crash and change no other attribute.',
     ['inputs'], 'all trees with up to 4 (5) words x all assignments of 4-6 relevant deprels or UPOS tags per block; all sequences of translations of up to 3 sentences; all bracket and quote forms',
     'No existing test checks results of these blocks.',
     ['udapi/block/ud/fixchain.py', 'udapi/block/ud/fixrightheaded.py', 'udapi/block/ud/fixroot.py', 'udapi/block/ud/fixleaf.py', 'udapi/block/ud/fixpunctchild.py', 'udapi/block/ud/fixmultisubjects.py',
      'udapi/block/ud/fixcompoundname.py', 'udapi/block/ud/fixadvmodbyupos.py', 'udapi/block/ud/fixpseudocop.py', 'udapi/block/ud/basic2enhanced.py', 'udapi/block/ud/addpuncttype.py',
      'udapi/block/ud/settranslation.py', 'udapi/block/ud/printfixed.py'],
     [('FixChain, FixRightheaded, FixRoot, FixLeaf, FixPunctChild, FixMultiSubjects, FixCompoundName, FixAdvmodByUpos, FixPseudoCop, Basic2Enhanced, AddPunctType, SetTranslation, PrintFixed', 'udapi/block/ud')],
     ['heads and attributes of all nodes, comments, printed lines'],
     'exhaustive enumeration of bounded trees and labels executed on the real code against reference results',
     REAL),

prop('C26', 'ud.MarkBugs reports exactly the violations of its rules',
     'ud.MarkBugs marks every node with exactly the names of the rules (on UPOS, features, deprels, children, copulas, punctuation, goeswith and non-projectivity) which it violates, restricted by the tests and skip parameters, '
     'removes stale marks, reports exact statistics of the violations and changes nothing else. '
     'The base of the ud.*.MarkFeatsBugs blocks marks exactly the missing, unknown and disallowed features and values.',
     ['inputs'], 'all pairs of nodes x all pairs of 22 deprels x 17 UPOS tags; all feature values of the rules; all sets of up to 3 (4) children; goeswith trees with up to 4 words; punctuation trees with up to 4 (5) words',
     'Existing tests do not check the marks.',
     ['udapi/block/ud/markbugs.py', 'udapi/block/ud/markfeatsbugs.py'],
     [('MarkBugs.process_node, after_process_document', 'udapi/block/ud/markbugs.py'), ('MarkFeatsBugs', 'udapi/block/ud/markfeatsbugs.py')],
     ['MISC marks, printed statistics'],
     'exhaustive enumeration of bounded trees and attribute values executed on the real code against an independent evaluation of the rules',
     REAL),

prop('C27', 'Other formats: every tree, attribute and special character survives',
     'What write.Vislcg, write.Treex, write.Html, write.Tikz, write.Sdparse, write.Sentences and write.SentencesHtml write is well-formed in the target language (VISL-cg, XML, HTML with JSON, LaTeX) for every tree and every form, lemma, tag and comment including characters special in that language, '
     'and decodes to exactly the words, attributes, dependencies, multi-word tokens and sentences of the document, with unique ids. '
     'read.Vislcg inverts write.Vislcg. read.Conll and read.Conllup build exactly the trees given by the table for every layout of columns (including multi-word tokens and empty nodes), with the columns declared in each file, and read.Ccv exactly the poems, stanzas and verses.',
     ['inputs'], 'all trees with up to 4 (5) words x writers; all single special characters and 25 markup strings x attributes x places; 8 layouts of columns x all head assignments with up to 3 (4) words; all sets of enhanced edges',
     'Existing tests only check that write.Html and write.Vislcg do not crash on one treebank sample.',
     ['udapi/block/write/vislcg.py', 'udapi/block/write/treex.py', 'udapi/block/write/html.py', 'udapi/block/write/tikz.py', 'udapi/block/write/sdparse.py', 'udapi/block/write/sentences.py', 'udapi/block/write/sentenceshtml.py',
      'udapi/block/read/vislcg.py', 'udapi/block/read/conll.py', 'udapi/block/read/conllup.py', 'udapi/block/read/ccv.py'],
     [('Vislcg, Treex, Html, Tikz, Sdparse, SentencesHtml', 'udapi/block/write'), ('Conll, Conllup, Vislcg, Ccv', 'udapi/block/read')],
     ['written text decoded by independent parsers, trees read'],
     'exhaustive enumeration of bounded trees, special characters and column layouts executed on the real code, outputs decoded by independent parsers',
     REAL),

prop('C28', 'Other coreference formats: every mention and entity survives',
     'write.CorefHtml writes, for every document with entities, well-formed HTML whose words, mention spans (including nested, crossing, discontinuous and on empty nodes), entity labels and attributes are exactly those of the document, and it never crashes. '
     'read.OldCorefUD after write.OldCorefUD gives the same entities, mentions, heads and bridging. '
     'read.Conll2012 builds, for every column of brackets, exactly the entities and mentions it encodes, and never crashes on well-formed files.',
     ['inputs'], 'all pairs of mentions (any sets of nodes) in sentences with up to 4 (5) nodes; all triples with up to 3 (4) nodes, continuous ones up to 4 (5); right-to-left and attribute settings; 13 special strings; CoNLL-2012 files with up to 4 (5) words',
     'No existing test reads or writes these formats.',
     ['udapi/block/write/corefhtml.py', 'udapi/block/write/oldcorefud.py', 'udapi/block/read/oldcorefud.py', 'udapi/block/read/conll2012.py'],
     [('CorefHtml', 'udapi/block/write/corefhtml.py'), ('OldCorefUD', 'udapi/block/write/oldcorefud.py'), ('OldCorefUD', 'udapi/block/read/oldcorefud.py'), ('Conll2012', 'udapi/block/read/conll2012.py')],
     ['written HTML decoded by an independent parser, entities and mentions read'],
     'exhaustive enumeration of bounded sets of mentions executed on the real code against the plain mentions',
     REAL),

prop('C29', 'Blocks editing coreference do what they say and keep it consistent',
     'For every set of mentions and every order in which their hashes can be visited, corefud.MergeSameSpan, FixInterleaved, MoveHead, GuessSpan, SingleParent, Delete, RemoveMisc, ConcatMentionMisc, Link2Cluster, IndexClusters, FixEntityAcrossNewdoc, RemoveNoCorefEntities, FixParentheses and FixToValidate '
     'change exactly the annotation described in their documentation, leave everything else as it was, and give the same result in every order. '
     'Afterwards every mention of every entity is listed at exactly its words and nowhere else, and the heads, spans and bridging links are valid.',
     ['inputs', 'schedules'], 'all pairs of mentions (any sets of nodes) over up to 4 (5) nodes and all triples over up to 3 (4) x all hash orders; all trees with up to 3 (4) words for MoveHead/Delete/SingleParent/FixToValidate; all link graphs of up to 3 (4) nodes',
     'No existing test runs any of these blocks, and order-dependence needs particular memory addresses to show.',
     ['udapi/block/corefud/mergesamespan.py', 'udapi/block/corefud/fixinterleaved.py', 'udapi/block/corefud/movehead.py', 'udapi/block/corefud/guessspan.py', 'udapi/block/corefud/singleparent.py', 'udapi/block/corefud/indexclusters.py', 'udapi/block/corefud/delete.py', 'udapi/block/corefud/link2cluster.py',
      'udapi/block/corefud/fixentityacrossnewdoc.py', 'udapi/block/corefud/fixparentheses.py', 'udapi/block/corefud/fixtovalidate.py', 'udapi/block/corefud/removenocorefentities.py'],
     [('transformation blocks', 'udapi/block/corefud'), ('coreference API', 'udapi/core/coref.py')],
     ['entities, mentions, heads, spans and back links from nodes after the block'],
     'exhaustive enumeration of bounded sets of mentions and of all iteration orders executed on the real code against plain set models',
     REAL),

prop('C30', 'Coreference reports count and mark exactly what is annotated',
     'corefud.MarkCrossing, MarkInterleaved, MarkNested, MarkSameSubSpan and MarkPairs mark and print exactly the pairs of mentions with the given properties, whatever order hashes are visited in. '
     'CountGaps, MiscStats, MiscStatsTex, PrintEntities, PrintMentions and Stats print exactly the numbers, mentions and percentages obtained by plain counting, for every combination of parameters, '
     'and leave the document as it was.',
     ['inputs', 'schedules'], 'all pairs of mentions over up to 4 (5) nodes and triples over up to 3 (4) x all hash orders x parameters; all documents with up to 3 (4) sentences for CountGaps; all trees with up to 3 (4) words x empty nodes x mentions x parameters for PrintMentions; Stats in all styles over all sets of up to 2 (3) mentions',
     'No existing test runs any of these blocks.',
     ['udapi/block/corefud/markcrossing.py', 'udapi/block/corefud/markinterleaved.py', 'udapi/block/corefud/marknested.py', 'udapi/block/corefud/marksamesubspan.py', 'udapi/block/corefud/markpairs.py', 'udapi/block/corefud/countgaps.py',
      'udapi/block/corefud/miscstats.py', 'udapi/block/corefud/printentities.py', 'udapi/block/corefud/printmentions.py', 'udapi/block/corefud/stats.py', 'udapi/block/corefud/markpairs.py'],
     [('reporting blocks', 'udapi/block/corefud')],
     ['printed reports, MISC attributes of nodes'],
     'exhaustive enumeration of bounded sets of mentions, parameters and iteration orders executed on the real code against plain counting',
     REAL),

prop('C31', 'UDPipe blocks put exactly the analysis of the model into the right trees',
     'For every text, every pre-tokenized sentence, every document with bundles and zones, and every supported combination of tokenize, tag, parse, resegment, ranges, zones, delete_nodes and online, the processed trees contain exactly the words, multi-word tokens, attributes and heads which the model (or the REST service) returned, '
     'whatever tree was there before, and every other tree and attribute stays as it was. '
     'New sentences become new bundles in the right order with the right zone, id and number, and failures of the service are reported and leave the trees unchanged.',
     ['inputs', 'fault_sequences'], 'all texts of up to 4 (5) pieces over 8, all sentences of up to 4 (5) words over 6, all documents of up to 2 (3) bundles over 11, all pairs of trees with up to 4 words for re-parsing; all parameters',
     'No existing test runs these blocks, they need a model (one is trained for this check) or a server (replaced by a stand-in built on the real UDPipe).',
     ['udapi/block/udpipe/base.py', 'udapi/tool/udpipe.py', 'udapi/tool/udpipeonline.py'],
     [('block', 'udapi/block/udpipe/base.py'), ('offline tool', 'udapi/tool/udpipe.py'), ('REST client', 'udapi/tool/udpipeonline.py')],
     ['words, attributes, heads, multi-word tokens, bundles, requests sent'],
     'exhaustive enumeration of bounded texts, documents and parameters executed on the real code with the real UDPipe library against the output of its own pipeline, re-parsing of all trees to all trees, all answers of a stand-in server',
     REAL),

prop('C32', 'Converting UD v1 to UD v2 makes exactly the documented changes',
     'For every tree, ud.Convert1to2 renames exactly the labels and features of UD v1 which changed, decides about neg and nmod according to the parent, turns every head-final flat and goeswith structure head-initial, attaches cc and punctuation to the following conjunct and remnants as orphans of the promoted one, as documented, and keeps the text. '
     'Every change can be skipped alone, everything else in the tree stays as it was, the undecided places are marked and counted, and without coordinations the conversion is idempotent.',
     ['inputs', 'configurations'], 'all trees of up to 3 to 5 words (one more in thorough) over the labels each change looks at, all combinations of skipped changes',
     'No existing test runs this block; nested expressions and ellipses and the order of the changes matter only in specific shapes of trees.',
     ['udapi/block/ud/convert1to2.py'],
     [('local changes', 'udapi/block/ud/convert1to2.py'), ('common ancestor', 'udapi/core/node.py')],
     ['heads, deprels, UPOS, features, ToDo marks, text, statistics'],
     'exhaustive enumeration of bounded trees and labels executed on the real code against a reference written from the documentation',
     REAL),

prop('C33', 'Multiword expressions annotated in MISC keep their words and types',
     'For every (overlapping, interrupted, untyped or partly malformed) annotation of multiword expressions, mwe.Normalize keeps exactly the annotated expressions, their words and types and moves the type to the first word, and running it again changes nothing. '
     'mwe.ToSubDeprels adds exactly the types of the expressions shared with the parent to the relation, and mwe.Possessives reports exactly the expressions with dependent possessive pronouns; nothing else in the tree is changed.',
     ['inputs'], 'all assignments of 12 kinds of annotation to up to 4 words (5 in thorough), all trees of up to 3 words (4 in thorough) and periodic sentences of 12 words',
     'No existing test runs these blocks; overlapping expressions, types given late and untyped expressions matter only in specific combinations.',
     ['udapi/block/mwe/normalize.py', 'udapi/block/mwe/tosubdeprels.py', 'udapi/block/mwe/possessives.py'],
     [('collecting the expressions', 'udapi/block/mwe/normalize.py')],
     ['Mwe annotations, deprels, reported lines'],
     'exhaustive enumeration of bounded annotations and trees executed on the real code against a reference written from the documentation',
     REAL),
]

NOT_APPLICABLE = {}
