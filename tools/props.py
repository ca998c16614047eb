#!/usr/bin/env python3
"""Source of /verif/properties.jsonl: python3 tools/props.py writes it."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: anchors["observe_at"] = observe
    if state: anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": anchors})

p("C01", "CoNLL-U text survives load and store byte for byte",
  "Loading a CoNLL-U text in canonical form (valid columns, sorted features, trimmed comments with a content, matching sentence ids without spaces) and storing it again gives exactly the same text: every token line with all ten columns, multi-word tokens, empty nodes, enhanced dependencies, comments in their order, sent_id, text, newdoc, newpar, json_ and global comments. Storing is idempotent: for comment lines of other shapes, missing ids or texts and repeated comments, the stored form, loaded and stored once more, does not change.",
  ["inputs"], "every canonical CoNLL-U sentence (any characters in the fields, any head assignment, any placement of multi-word tokens, empty nodes and comment kinds) within the sizes the check states",
  "The tests load and store one or two sample files; the guarantee is over every character a field or comment can hold and every combination of comments, ranges and empty nodes.",
  ["udapi/block/read/conllu.py", "udapi/block/write/conllu.py", "udapi/core/document.py"],
  [("comment placeholders", "udapi/block/read/conllu.py parse_comment_line / udapi/block/write/conllu.py process_tree"), ("column parsing", "udapi/block/read/conllu.py read_tree_from_lines")],
  ["Document.from_conllu_string", "Document.to_conllu_string"])

p("C02", "A tree built through the API survives storing and loading",
  "A document built with the API (nodes with any attributes, any topology and word order, features, MISC, enhanced dependencies, empty nodes, multi-word tokens, sentence ids, several bundles and zones, texts, comments, paragraph and document marks) is stored as CoNLL-U that loads back to a document with the same trees, node attributes, heads, word order, multi-word tokens, empty nodes, ids and sentence-level attributes, and a file that is named at the creation of a document loads as the reader of its format loads it. Attributes that were not set load back as unset or as an underscore, never as another value; a sentence without a text gets its computed text.",
  ["inputs", "histories"], "every document built by the API within the stated sizes, with symbolic attribute values, heads and positions",
  "Tests build one fixed tree and never compare a stored and reloaded document with the original.",
  ["udapi/core/node.py", "udapi/core/root.py", "udapi/block/write/conllu.py", "udapi/block/read/conllu.py"],
  [("writer column assembly", "udapi/block/write/conllu.py process_tree"), ("fast loader", "udapi/core/basereader.py try_fast_load")],
  ["Document.to_conllu_string", "Document.from_conllu_string"])

p("C03", "Every edit leaves a well-formed ordered tree",
  "After any sequence of re-attachments, node creations, removals, word-order shifts, flattening and moving of nodes between trees, each tree is one rooted acyclic tree: parent and children agree in both directions, each node is reachable from its root and belongs to it, children are listed in word order without duplicates, and the words have the word-order numbers 1..n exactly in the order in which the tree lists them.",
  ["histories", "inputs"], "every pre-state (any well-formed tree of the stated size) and any one edit or short sequence of edits with any arguments",
  "Tests apply a handful of edits to one sample sentence; the invariant must hold from every tree for every choice of nodes.",
  ["udapi/core/node.py", "udapi/core/root.py"],
  [("parent setter", "udapi/core/node.py Node.parent"), ("remove, shift, create_child", "udapi/core/node.py"), ("steal_nodes, flatten", "udapi/core/root.py")],
  ["node.parent", "node.children", "root.descendants", "node.ord"],
  [("tree links", "parent and ordered children of each node", "udapi/core/node.py"), ("word order", "list of descendants and their ord", "udapi/core/root.py")])

p("C04", "Impossible attachments are refused and change nothing",
  "Attaching a node to itself, to its own descendant, to nothing, to an empty node, or to a node of another tree raises an error, and so does re-attaching a root; after the refusal both trees are exactly as they were before. Any other attachment within one tree is accepted and changes only the head of that node.",
  ["inputs", "fault_sequences"], "every tree of the stated size and every pair of node and requested parent, including nodes of another tree, empty nodes, roots and None",
  "Tests try at most one illegal attachment and do not look at the state that remains after the refusal.",
  ["udapi/core/node.py", "udapi/core/root.py"],
  [("cycle and tree checks in the parent setter", "udapi/core/node.py Node.parent"), ("is_descendant_of", "udapi/core/node.py")],
  ["node.parent assignment"])

p("C05", "Shifting moves exactly the asked nodes to exactly the asked place",
  "shift_before_node, shift_after_node, shift_before_subtree and shift_after_subtree put the moved node (with its subtree, or alone when without_children is given) immediately before or after the reference node or subtree, and keep the relative order of all other words, of the words inside the moved block, and every head. A shift relative to a node of the moved subtree is refused without any change (or skipped when so requested).",
  ["inputs"], "every tree of the stated size (projective or not), moved node, reference node, and option",
  "Tests shift a few nodes of one tree; gaps, overlapping spans and boundary positions are many.",
  ["udapi/core/node.py"], [("_shift_before_ord and its four callers", "udapi/core/node.py")], ["root.descendants order", "node.ord"])

p("C06", "Removing a node removes exactly what was asked",
  "Removing a node deletes it and its whole subtree, or, with rehanging, only the node itself while its children move to its former head; all other words keep their heads and relative order and are renumbered without gaps, and empty nodes stay between the same remaining words. Removing an already removed leaf again changes nothing.",
  ["inputs", "histories"], "every tree of the stated size with any empty nodes, every node and every children option",
  "Tests remove one or two nodes from a sample sentence, never with empty nodes and rehanging together.",
  ["udapi/core/node.py"], [("Node.remove", "udapi/core/node.py")], ["root.descendants", "root.descendants_and_empty"])

p("C07", "Empty nodes keep a strict, unique position",
  "Empty nodes have pairwise different positions that lie strictly between the word they follow and the next word, and are listed in that order; creating one places it after the existing empty nodes of the same gap (before or after the asked word), and removing one deletes only it, closes the numbering gap, and drops the enhanced dependencies that pointed to it. This holds also for ten and more empty nodes in one gap.",
  ["histories", "inputs"], "every sequence of creations and removals of empty nodes of the stated length over any words, including more than nine in one gap",
  "Tests create at most a few empty nodes in one place and never reach two-digit minor positions.",
  ["udapi/core/node.py", "udapi/core/root.py"], [("create_empty_child, EmptyNode.remove, OrdTuple", "udapi/core/node.py")], ["root.empty_nodes", "root.descendants_and_empty"])

p("C08", "Enhanced dependencies keep pointing to the same nodes",
  "Parsed enhanced dependencies refer to the nodes named in their text form, and once they are parsed or assigned as a list, their text form always names the current positions of those nodes, also after words are shifted, inserted or removed. Assigning the text form or the list makes the other one agree, dependency types may contain any number of colons, and a reference to a missing empty node is reported as an error.",
  ["inputs", "histories"], "every list of enhanced dependencies of the stated length over words and empty nodes, any relation names, any later shift",
  "Tests check a fixed sample file and one creation of an empty node.",
  ["udapi/core/node.py"], [("deps and raw_deps properties", "udapi/core/node.py")], ["node.deps", "node.raw_deps"])

p("C09", "Features and MISC behave as one mapping in both views",
  "The key-value view and the text view of FEATS and MISC (and of the comma-separated variant used for coreference attributes) always describe the same mapping after any sequence of reads, writes, deletions, clearings and whole-value assignments through either view; a missing key reads as an empty string and assigning an empty value deletes the key. The text written from the mapping is sorted by key regardless of case, reads back to the same mapping, and copies and assigned mappings are independent of their source.",
  ["histories", "inputs"], "every sequence of operations of the stated length over any keys and values without the separator characters",
  "Tests read and write a few known features.",
  ["udapi/core/dualdict.py", "udapi/core/feats.py", "udapi/core/coref.py", "udapi/core/node.py"], [("lazy synchronisation", "udapi/core/dualdict.py"), ("OtherDualDict", "udapi/core/coref.py")], ["node.feats", "node.misc", "mention.other"])

p("C10", "Multi-word tokens cover disjoint words and yield the tokens",
  "Every word belongs to at most one multi-word token: creating one over words that are already covered first removes the old ones, and removing one frees its words. The list of tokens of a sentence contains every word exactly once in word order, either itself or through its multi-word token, and the printed range and address of a token are from its first to its last word; the space flag of the last word moves to the token. When words are moved to another tree, their tokens move with them, restricted to the moved words.",
  ["histories", "inputs"], "every sequence of multi-word token creations and removals of the stated length over contiguous ranges of any sentence of the stated size",
  "Tests only read a sample file with multi-word tokens.",
  ["udapi/core/root.py", "udapi/core/mwt.py", "udapi/core/node.py"], [("create_multiword_token, token_descendants", "udapi/core/root.py"), ("MWT", "udapi/core/mwt.py")], ["root.token_descendants", "root.multiword_tokens"])

p("C11", "Computed text is the concatenation of the surface tokens",
  "The computed text of a sentence or subtree is the forms of its tokens in word order (a multi-word token contributes its own form once in place of its words, unless asked otherwise), separated by one space exactly where the previous token does not say that no space follows, without trailing whitespace. The sentence text is the stored text if there is one, otherwise what the missing-text policy asks for.",
  ["inputs"], "every sentence of the stated size with any forms, space flags, multi-word tokens and word subsets",
  "Tests never compute text; files cover only usual flags.",
  ["udapi/core/node.py", "udapi/core/root.py"], [("compute_text", "udapi/core/node.py"), ("get_sentence", "udapi/core/root.py")], ["node.compute_text", "root.get_sentence"])

p("C12", "Navigation answers agree with the tree and the word order",
  "Children, siblings, descendants and the leaf and ancestor tests of a node agree with the heads of all nodes; lists come in word order, and their add-self, preceding-only and following-only variants return exactly the described subset. Previous and next node, precedence and node comparison agree with the word order, and the pseudo-attributes for depth, direction, edge length and the numbers of children and siblings have the documented values.",
  ["inputs"], "every tree of the stated size, every node and every combination of list options",
  "Tests look at a few nodes of one tree.",
  ["udapi/core/node.py", "udapi/core/root.py"], [("children, descendants, siblings, is_descendant_of, prev_node, next_node, precedes, get_attrs", "udapi/core/node.py"), ("ListOfNodes", "udapi/core/node.py")], ["node.children", "node.descendants", "node.siblings", "node.get_attrs"])

p("C13", "Non-projectivity tests match their definition",
  "A node is reported as attached non-projectively exactly if some word between it and its head is not dominated by that head (edges from the root are never reported). A node is reported as a non-projective gap exactly if it lies between two words of a subtree to whose top it does not belong.",
  ["inputs"], "every tree of the stated size and every node",
  "The tests contain one projective sentence and no check of the definition.",
  ["udapi/core/node.py"], [("is_nonprojective, is_nonprojective_gap", "udapi/core/node.py")], ["node.is_nonprojective", "node.is_nonprojective_gap"])

p("C14", "The minimal common treelet is minimal and connected",
  "For any set of nodes of a tree, the common treelet function returns their lowest common ancestor and exactly those further nodes that lie on the paths between the given nodes and that ancestor.",
  ["inputs"], "every tree of the stated size and every non-empty set of nodes in any order",
  "Untested; the claim is over all trees and node sets.",
  ["udapi/core/node.py"], [("find_minimal_common_treelet", "udapi/core/node.py")], ["find_minimal_common_treelet"])

p("C15", "Bundles, zones and sentence ids stay consistent",
  "Trees of one bundle have pairwise different valid zone names, and the id of each tree is the id of its bundle followed by its zone if it has one, after any creation, renaming or removal of bundles and trees; node addresses start with the tree id. Bundles, trees and nodes of a document are iterated in their order, each exactly once, and a removed bundle or tree disappears without touching the others.",
  ["histories", "inputs"], "every sequence of bundle, zone and id operations of the stated length with any id and zone characters",
  "Tests check the ids of one document with default zones.",
  ["udapi/core/bundle.py", "udapi/core/document.py", "udapi/core/root.py"], [("bundle_id and zone setters", "udapi/core/bundle.py, udapi/core/root.py"), ("check_zone", "udapi/core/bundle.py")], ["bundle.bundle_id", "root.sent_id", "node.address"])

p("C16", "Readers deliver every tree exactly once and in order",
  "Whatever options are given to the CoNLL-U reader (all at once, a number of bundles per document, split at document boundaries, merging several files, a maximal number of documents, a sentence-id filter, ignoring ids), the documents read one after another contain all trees of the non-empty input files (or all that match the filter) exactly once, in order, with consecutive zones of one sentence in the same bundle, the document boundaries where the options put them, and no empty document. Reading at once and reading tree by tree give equal trees, and a second reader adds its zone to the bundles of the existing document in order.",
  ["inputs", "configurations"], "every input of the stated number of sentences with any ids, zones and document boundaries and every combination of the options",
  "Tests read whole files with default options.",
  ["udapi/core/basereader.py", "udapi/block/read/conllu.py"], [("process_document, try_fast_load, filtered_read_tree", "udapi/core/basereader.py"), ("read_trees, read_tree", "udapi/block/read/conllu.py")], ["documents produced by a reader"])

p("C17", "Malformed CoNLL-U never yields a malformed tree",
  "For any head column values the reader either raises an error or delivers a well-formed tree; cycles, self-heads and heads out of range are errors, and with the cycle-fixing option the delivered tree is acyclic and keeps every head that was not part of a cycle. A multi-word token range without any word of the sentence is an error. In strict mode a token line with a wrong number of columns or a missing head is an error, otherwise missing columns read as unset.",
  ["inputs"], "every sentence of the stated size with arbitrary integer or missing heads and column counts, with each reader option",
  "Tests read only valid files.",
  ["udapi/block/read/conllu.py"], [("head resolution and cycle detection", "udapi/block/read/conllu.py read_tree_from_lines")], ["read.Conllu"])

p("C18", "File patterns expand to the right files, each once",
  "A file specification expands to its file names in the given order: names separated by commas or spaces, wildcard patterns as their sorted matches, and lists of files with relative entries taken relative to the list. Iterating visits each file exactly once with correct numbering and end, and writers save each document under the name that their options (explicit list, document name, overwriting, output path with replaced parts) ask for.",
  ["inputs", "configurations"], "every specification string of the stated length, any list-file content, any path template",
  "Tests use single literal file names.",
  ["udapi/core/files.py", "udapi/core/basewriter.py"], [("string_to_filenames", "udapi/core/files.py"), ("before_process_document", "udapi/core/basewriter.py")], ["Files.filenames", "file opened by a writer"])

p("C19", "Coreference annotation survives load and store",
  "Entities and mentions (nested, crossing, discontinuous, single-word, on empty nodes, with head, entity type and further attributes) that are stored in the MISC column are loaded back as the same entities with the same mention spans, heads and attributes, and canonical text is kept byte for byte. Two mentions of one entity need to be distinguishable in the format (they have different spans, do not cross, and are not both discontinuous unless apart), and attribute values have no hyphen, parenthesis or bar; each word lists exactly the mentions that cover it.",
  ["inputs", "histories"], "every set of mentions of the stated number over any spans of a sentence of the stated size with any entity ids and attribute values",
  "Tests load one sample file and make one edit.",
  ["udapi/core/coref.py"], [("load_coref_from_misc, store_coref_to_misc", "udapi/core/coref.py")], ["document.coref_entities", "node.coref_mentions", "MISC Entity"])

p("C20", "Mention spans, heads, order and back-links stay consistent",
  "The text form of a mention span and the set of its words convert into each other without loss for any words and empty nodes; after any sequence of creating, re-spanning, re-assigning, and removing mentions each word lists exactly the mentions covering it, each mention belongs to exactly one entity, and the head is one of its words. Mentions and entities are totally ordered by position as documented, and the lists of mentions of a word, an entity and the document are sorted in that order after edits of mentions.",
  ["histories", "inputs"], "every set of words of a sentence of the stated size with empty nodes and every sequence of mention edits of the stated length",
  "Tests exercise a few edits on a sample document.",
  ["udapi/core/coref.py"], [("CorefMention, CorefEntity, span_to_nodes, nodes_to_span", "udapi/core/coref.py")], ["mention.words", "mention.span", "entity.mentions", "node.coref_mentions"])

p("C21", "Bridging and split antecedents survive load and store",
  "Bridging links and split antecedents (of two and more entities) are stored so that loading them gives the same links with the same relations attached to the same mentions or entities; links to entities without mentions are dropped with nothing else lost. The links of a mention are stored in the order of their targets and relations, and entities keep their types. Filtering the links by relation returns exactly the matching ones, and a link of an entity to itself is refused.",
  ["inputs", "histories"], "every set of links of the stated number between entities, with any relation names, some targets without mentions",
  "Tests load one file with a few links.",
  ["udapi/core/coref.py"], [("BridgingLinks, SplitAnte handling", "udapi/core/coref.py")], ["mention.bridging", "entity.split_ante", "MISC Bridge and SplitAnte"])

p("C22", "Scenarios run the asked blocks with the asked parameters",
  "A command line is parsed into its blocks in order with each parameter given to the block it follows, only the first equals sign splits name and value, and values consisting of digits become numbers; a parameter before any block is an error. Blocks are initialised once, applied to every document in order and finished once, and reading goes on until every reader is finished.",
  ["inputs", "configurations"], "every list of tokens of the stated number and length, and any number of documents delivered by any number of readers",
  "Tests run two or three fixed command lines.",
  ["udapi/core/run.py"], [("_parse_command_line_arguments, run_blocks", "udapi/core/run.py")], ["Run", "udapy"])

p("C23", "A block visits exactly the trees and nodes it should",
  "A block that processes nodes, trees, empty nodes, bundles or mentions gets each one of the document exactly once, in order, restricted to the requested zones and to the requested treatment of empty trees (process, skip, delete, fail), even when the processing adds or removes nodes or mentions, and util.Eval runs the code it is given on exactly the objects of the level the code is given for. Deleting empty trees deletes exactly the empty ones.",
  ["inputs", "configurations"], "every document of the stated number of bundles and zones with any subset of empty trees, any zone list and every policy",
  "Tests do not exercise zones or empty-tree policies.",
  ["udapi/core/block.py"], [("process_document, _should_process_tree", "udapi/core/block.py")], ["process_node, process_tree calls"])

p("C24", "Evaluation scores equal their definition",
  "The parsing evaluation counts exactly the words whose heads, and heads with relations, agree between predicted and gold trees over all words; the token-based F1 evaluation counts a longest common subsequence of the compared attributes (with a focus, only the tokens in focus), and the printed precision, recall and F1 follow from the counts. The shared-task metrics align the words of the two sides by their forms and count UPOS, XPOS, features, lemmas, UAS, LAS, CLAS, MLAS and BLEX of the aligned words as defined. Scores are 100 % exactly for agreement, and trees that do not align are refused.",
  ["inputs"], "every pair of trees or attribute sequences of the stated size",
  "No test evaluates anything.",
  ["udapi/block/eval/parsing.py", "udapi/block/eval/f1.py", "udapi/block/eval/conll17.py", "udapi/block/eval/conll18.py"], [("counting of correct heads", "udapi/block/eval/parsing.py"), ("longest common subsequence", "udapi/block/eval/f1.py")], ["printed scores"])

p("C25", "Projectivization and its inverse keep the sentence",
  "Projectivization makes every edge projective and changes only heads and, in the encoding variants, the marks on dependency relations (or in MISC); words and their order stay, edges are lifted in the asked order (those that need most steps, or the shortest, first), and already projective trees are not changed. Deprojectivization yields a well-formed tree over the same words with the marks on relations removed and restores a single lifted word when its mark determines the original head; flattening attaches every node to the root (or, if so asked, all further words to the first one).",
  ["inputs"], "every tree of the stated size and every encoding option",
  "No test covers these transformations.",
  ["udapi/block/transform/proj.py", "udapi/block/transform/deproj.py", "udapi/block/transform/flatten.py"], [("lifting", "udapi/block/transform/proj.py"), ("search for the marked head", "udapi/block/transform/deproj.py")], ["node.parent", "node.deprel"])

p("C26", "Aligning words with the raw text reproduces the text",
  "After setting the space flags from the sentence text, the computed text equals the stored text (up to the amount of white space) whenever the forms occur in it in order, and nothing but space flags changes; a text that does not contain the forms is reported. The blocks that mark words split by a space (ud.GoeswithFromText) and make words comply with the text (ud.ComplyWithText) end with a computed text equal to the stored one or leave the mismatch, keep a well-formed tree, and change no word that already agreed; ud.SetSpaceAfter sets exactly the flags that its documented rules on punctuation and quotation marks ask for.",
  ["inputs"], "every sentence of the stated number of words and any text of the stated length",
  "No test covers these blocks.",
  ["udapi/block/ud/setspaceafterfromtext.py", "udapi/block/ud/complywithtext.py", "udapi/block/ud/goeswithfromtext.py", "udapi/block/ud/setspaceafter.py"], [("scanning of the text by forms", "udapi/block/ud/setspaceafterfromtext.py, udapi/block/ud/complywithtext.py")], ["root.compute_text", "root.text"])

p("C27", "Tokenization keeps the text",
  "Splitting a raw text into words by the built-in tokenizers creates words in order whose forms contain no whitespace, and with their space flags the computed text equals the raw text up to the amount of whitespace; no character is lost or invented. Trees that already contain words are refused.",
  ["inputs"], "every text of the stated length over the stated character classes",
  "No test covers the tokenizers.",
  ["udapi/block/tokenize/onwhitespace.py", "udapi/block/tokenize/simple.py"], [("tokenize_sentence", "udapi/block/tokenize/onwhitespace.py")], ["node.form", "root.compute_text"])

p("C28", "Splitting and joining sentences keeps every word",
  "Segmenting text into sentences, splitting one tree into several (at marked words or a given word) and joining marked or given trees keep all words and their order and attributes, give each resulting tree a well-formed structure with the heads kept inside the parts, and make the texts of the parts concatenate to the original text up to whitespace, with a segment boundary only after final punctuation that is followed by white space and a capital letter and not part of a known abbreviation. Splitting a document into parts delivers every bundle exactly once in order.",
  ["inputs", "configurations"], "every text of the stated length, every tree of the stated size with any split point, every number of bundles and parts",
  "No test covers these blocks.",
  ["udapi/block/segment/simple.py", "udapi/block/util/splitsentence.py", "udapi/block/util/joinsentence.py", "udapi/block/util/split.py"], [("segment_text", "udapi/block/segment/simple.py"), ("steal_nodes", "udapi/core/root.py")], ["root.text", "root.descendants"])

p("C29", "The textual tree view draws every node once in word order",
  "The tree visualization prints the words of a tree one per line in word order, each exactly once with its requested attributes, and the drawn branches connect exactly the pairs of head and dependent; sentence ids, texts, comments and metadata are shown as asked, colours and marks highlight exactly the marked words, a restriction to marked trees shows exactly these, and it changes nothing in the tree.",
  ["inputs"], "every tree of the stated size and any forms",
  "One test compares the drawing of a single sentence.",
  ["udapi/block/write/textmodetrees.py"], [("process_tree", "udapi/block/write/textmodetrees.py")], ["printed tree"])

p("C30", "Tree repair blocks deliver what their names promise",
  "After one of the repair blocks ud.FixChain, ud.FixRightheaded, ud.FixLeaf, ud.FixPunctChild, ud.FixPunct, ud.FixRoot, ud.FixMultiSubjects, ud.FixCompoundName, ud.FixPseudoCop, ud.FixAdvmodByUpos or ud.Basic2Enhanced, the tree is well-formed over the same words in the same order. The addressed relations satisfy the promised shape: no chains of the given relations, head-initial relations, leaf relations without children of the listed kinds, punctuation without children and attached projectively where possible, exactly one word with the relation root, at most one subject per word, compound names headed by their first proper noun, copulas as dependents of the content word, relations that fit the part of speech, and basic dependencies copied where enhanced ones are missing. When a word moves from a function word to another one, its enhanced dependency on it moves too; paired marks that are not tagged as punctuation are treated or left alone as asked. Trees that already satisfy the shape for chains, right-headed relations and leaves are left alone.",
  ["inputs"], "every tree of the stated size with any assignment of the affected relations",
  "No test covers the repair blocks.",
  ["udapi/block/ud/fixpunct.py", "udapi/block/ud/fixchain.py", "udapi/block/ud/fixleaf.py", "udapi/block/ud/fixrightheaded.py"], [("re-attachment loops", "udapi/block/ud/fixpunct.py, fixchain.py, fixleaf.py, fixrightheaded.py")], ["node.parent"])

p("C31", "Token editing blocks keep the surface text",
  "Joining a word with the previous one (ud.JoinToken), joining words into multi-word tokens (ud.JoinAsMwt), splitting a word at underscores (ud.SplitUnderscoreTokens), splitting contractions into multi-word tokens (ud.AddMwt and its language variants for Catalan, Czech, German, Greek, Spanish, French, Latin and Portuguese), correcting the space flags inside of tokens (ud.FixMwtSpace) and removing multi-word tokens (ud.RemoveMwt) keep the surface text (underscores become spaces) and a well-formed tree, and change no other words; contractions that are known for the language are split.",
  ["inputs"], "every sentence of the stated size and any forms matching the edited pattern",
  "No test covers these blocks.",
  ["udapi/block/ud/jointoken.py", "udapi/block/ud/joinasmwt.py", "udapi/block/ud/splitunderscoretokens.py", "udapi/block/ud/removemwt.py", "udapi/block/ud/addmwt.py"], [("process_node / process_tree", "the named blocks")], ["root.compute_text", "root.descendants"])

p("C32", "Filtering keeps exactly the asked parts",
  "Filtering and marking blocks keep, delete or mark exactly the trees, subtrees and nodes that satisfy the given condition, and keep the rest with order and structure unchanged (kept subtrees hang on the root). Marking the differences of two trees marks exactly the words that are missing in the other tree or differ in the compared attributes, and copying the bug marks of multi-word tokens to their words keeps every mark.",
  ["inputs", "configurations"], "every document of the stated size and every outcome of the condition",
  "No test covers these blocks.",
  ["udapi/block/util/filter.py", "udapi/block/util/mark.py"], [("process_tree", "udapi/block/util/filter.py")], ["document content"])

p("C33", "The other text formats agree with CoNLL-U",
  "Reading the same sentence from the general column format configured with the CoNLL-U columns, with other column orders and separators, or from CoNLL-U Plus with a column header, gives the same words, heads and attributes as the CoNLL-U reader; writing sentences as plain text and reading them back gives the same sentence texts in the same order. A word-wrapped text file is read as its paragraphs, and adding sentence texts or a whole text to existing trees gives each tree its own text.",
  ["inputs"], "every sentence of the stated size with any field characters",
  "No test covers these readers and writers.",
  ["udapi/block/read/conll.py", "udapi/block/read/sentences.py", "udapi/block/write/sentences.py"], [("read_tree_from_lines", "udapi/block/read/conll.py")], ["loaded trees"])

p("C34", "Dependency relation parts and shortcut attributes compose",
  "The universal and the language-specific part of a dependency relation always compose to the whole relation, setting one part keeps the other (a specific part needs a universal one), and an unset relation has unset parts; the shortcut attributes for gloss and missing space agree with the MISC entries that they stand for.",
  ["inputs", "histories"], "every relation string of the stated length and any sequence of assignments of the parts",
  "One test reads the parts of a few relations.",
  ["udapi/core/node.py"], [("udeprel, sdeprel, gloss, no_space_after", "udapi/core/node.py")], ["node.deprel", "node.udeprel", "node.sdeprel"])

p("C35", "Coreference clean-up blocks keep the annotated spans",
  "Re-indexing entities renames them one to one in document order and keeps every mention; merging same-span mentions leaves one mention per span; moving heads sets each head to a word of the mention that no other word of it governs and changes nothing else; guessing spans gives each mention the subtree of its head, fixing parentheses adds exactly the missing neighbouring parenthesis, and joining interleaved mentions of one entity loses none of its words. Removing entities that are marked as no coreference, splitting entities that cross document boundaries, converting links to clusters (with bridging), deleting coreference, empty nodes or MISC, keeping a single enhanced head of empty nodes (and guessing heads over enhanced dependencies), and removing or concatenating mention attributes in MISC change exactly what they name and keep all other mentions, words and attributes. Fixing files for validation leaves the relation root exactly at the words under the technical root and a space before each document and paragraph; harmonizing entity types and bridging relations renames exactly the listed old values. After each of these blocks every word lists exactly the mentions that cover it.",
  ["inputs"], "every set of mentions of the stated number over a tree of the stated size",
  "No test covers these blocks.",
  ["udapi/block/corefud/indexclusters.py", "udapi/block/corefud/mergesamespan.py", "udapi/block/corefud/movehead.py"], [("process_document / process_tree", "the named blocks")], ["document.coref_entities"])

p("C36", "Compressed and piped input equals plain input",
  "Reading a compressed file or standard input gives the same document as reading the uncompressed file.",
  ["inputs"], "every file content", "Needs the operating system and compression libraries; tests read plain files.",
  ["udapi/core/files.py"], [("next_filehandle", "udapi/core/files.py")], ["Files.next_filehandle"])

p("C37", "Models are applied through the wrappers without losing words",
  "Tokenizing, tagging and parsing through the wrapped external tools keeps the text of each sentence and returns a well-formed tree.",
  ["inputs"], "every input text and model", "Needs native models and network services that are not present.",
  ["udapi/tool/udpipe.py", "udapi/block/udpipe/base.py", "udapi/tool/udpipeonline.py"], [("wrapper calls", "udapi/tool/udpipe.py")], ["resulting trees"])

p("C38", "Marking pairs of mentions marks exactly the asked pairs",
  "The blocks that look for crossing, interleaved, nested or same-subspan mentions, and the one for pairs with any combination of required and excluded properties (same entity, head or span, continuous, discontinuous, nested, crossing, interleaved, same subspan), mark the words of exactly those pairs of mentions that have the asked properties. The marks describe the pairs by the spans or words of both mentions, the totals count mentions, pairs and matching pairs, and nothing else in the document changes.",
  ["inputs", "configurations"], "every set of mentions of the stated number over the words and empty nodes of a sentence of the stated size, every combination of the stated properties",
  "No test covers these blocks.",
  ["udapi/block/corefud/markpairs.py", "udapi/block/corefud/markcrossing.py", "udapi/block/corefud/markinterleaved.py", "udapi/block/corefud/marknested.py", "udapi/block/corefud/marksamesubspan.py"],
  [("process_tree / process_node", "the named blocks")], ["node.misc Mark", "document.meta"])

p("C39", "Statistics count every word and value exactly once",
  "Word counts give the exact numbers of trees, words, tokens, multi-word tokens, empty nodes, documents and paragraphs in the asked zones, and coreference statistics the exact numbers, lengths and percentages of entities and mentions. The statistics about matching nodes list the most frequent values of each asked attribute or pseudo-attribute (also of the parent, children, previous and next node) with their exact counts and percentages, also for empty input. The values of attributes asked by name, including parts of features and MISC, are those of the node, in the asked order, with undefined ones replaced as asked.",
  ["inputs", "configurations"], "every document of the stated size, every choice of matching words, statistics and options",
  "No test covers these blocks.",
  ["udapi/block/util/wc.py", "udapi/block/util/see.py", "udapi/block/corefud/stats.py", "udapi/core/node.py"],
  [("counting", "udapi/block/util/wc.py process_tree, udapi/block/util/see.py process_node, udapi/block/corefud/stats.py process_document"), ("get_attrs", "udapi/core/node.py")], ["printed statistics", "node.get_attrs"])

p("C40", "Exported pictures and pages show exactly the trees",
  "The data of the HTML viewer (write.Html), the LaTeX picture (write.Tikz, flat, as a tree, or with enhanced dependencies), the Stanford dependencies (write.Sdparse) and the Treex XML (write.Treex) contain each word of each tree once, in word order, with its form, tags, relation and head, and a parser of the format gets back the original values whatever special characters they contain, also for empty sentences and unset attributes. The HTML list of sentences (write.SentencesHtml) contains each id and text, and the HTML page of trees (write.TextModeTreesHtml) shows the same lines as the text view for exactly the trees that were asked for, with exactly the marked words highlighted.",
  ["inputs", "configurations"], "every tree of the stated size, every value of an attribute, id or text up to the stated length, and the stated options",
  "No test covers these writers.",
  ["udapi/block/write/html.py", "udapi/block/write/tikz.py", "udapi/block/write/sdparse.py", "udapi/block/write/treex.py", "udapi/block/write/sentenceshtml.py", "udapi/block/write/textmodetreeshtml.py"],
  [("escaping", "_esc, _tex_escape, _escape, escape in the writers"), ("structure", "print_doc_json, process_tree, print_subtree")], ["printed text"])

p("C41", "Sentences survive the VISL-cg format",
  "Sentences written in the VISL-cg format (write.Vislcg) are read back (read.Vislcg) with the same tokens and token forms, multi-word tokens, lemmas, language-specific tags, features, relations and heads, whatever special characters they contain; unset values come back as an underscore, and sentences without words are left out. Reading does not depend on the number of empty lines between sentences or at the end of the file. Heads out of range and cycles are errors.",
  ["inputs"], "every tree of the stated size with any multi-word token, any values up to the stated length, and any empty lines",
  "No test covers this format.",
  ["udapi/block/write/vislcg.py", "udapi/block/read/vislcg.py"],
  [("escaping", "ESCAPE_TABLE"), ("reading", "udapi/block/read/vislcg.py read_tree")], ["write.Vislcg, read.Vislcg"])

p("C42", "The coreference page marks exactly the words of each mention",
  "The HTML page of coreference (write.CorefHtml) shows every word and empty node of every sentence once, in order, with its form and the space after it, inside of the marks of exactly those mentions that contain it (also for nested, crossing, discontinuous and same-span mentions, and right to left), and the heads of mentions in bold. The markup is well-formed whatever characters the forms, ids and attributes contain. The overview lists each entity that has mentions with their number, and the further documents of a file go to files of their own with all of their sentences.",
  ["inputs", "configurations"], "every set of mentions over a sentence of the stated size, any values up to the stated length",
  "No test covers this writer.",
  ["udapi/block/write/corefhtml.py", "udapi/core/coref.py"],
  [("marks", "udapi/block/write/corefhtml.py process_tree, _start_subspan")], ["printed page"])

p("C43", "Normalization changes only the order of attributes, ids and numbers",
  "After util.Normalize each FEATS and MISC column has the same entries as before, sorted regardless of case; sentence ids are the asked prefix or file name with consecutive numbers from the asked first one (starting again at documents if so asked), names of documents are those of the file where asked; empty nodes have consecutive numbers after the word where they were, and enhanced dependencies refer to the same nodes as before. What is switched off, and all other zones, attributes, words and trees, stay as they were.",
  ["inputs", "configurations"], "every document of the stated size, any options, any entries up to the stated length",
  "No test covers this block.",
  ["udapi/block/util/normalize.py"], [("process_bundle / process_tree / process_node", "udapi/block/util/normalize.py")], ["node.feats, node.misc, bundle ids, empty nodes"])

p("C44", "Older coreference formats and the corpus of verse are read completely",
  "Coreference that is written in the old CorefUD format (write.OldCorefUD) is read back (read.OldCorefUD) as the same entities, mentions, spans, heads, types, attributes, bridging links and split antecedents, also if several mentions have one head; different ids stay different entities and links to undefined or the same entities are refused. The bracket column of CoNLL-2012 files (read.Conll2012, in its known dialects) gives exactly the annotated spans, entities and documents. Reading the corpus of verse (read.Ccv) gives one tree per verse whose words reproduce its text, with its data and the beginnings of stanzas and poems, also when the file is read in parts or a document per poem.",
  ["inputs", "configurations"], "every set of mentions of the stated number over sentences of the stated size, any ids and values up to the stated length, the stated options",
  "No test covers these formats.",
  ["udapi/block/read/oldcorefud.py", "udapi/block/write/oldcorefud.py", "udapi/block/read/conll2012.py", "udapi/block/read/ccv.py"],
  [("process_document", "udapi/block/read/oldcorefud.py, udapi/block/write/oldcorefud.py"), ("parse_node_line", "udapi/block/read/conll2012.py"), ("read_trees", "udapi/block/read/ccv.py")], ["document.coref_entities, trees"])

p("C45", "Suspicious annotation is marked exactly where the rules are broken",
  "ud.MarkBugs and ud.MarkFeatsBugs add to exactly those words that break one of their rules (on relations, attributes, features, word order of head-initial relations, non-projectivity, fixed expressions and copulas) the marks of exactly the broken rules, each once; the overview in the document and the totals count each mark as often as it was added. Only the asked tests are done and the words or marks that were to be skipped are not marked. Marking a second time changes nothing but that, and nothing else in the trees changes.",
  ["inputs", "configurations"], "every tree of the stated size, any relations, parts of speech, features and values up to the stated length, the stated options",
  "No test covers these blocks.",
  ["udapi/block/ud/markbugs.py", "udapi/block/ud/markfeatsbugs.py"], [("process_node / log", "udapi/block/ud/markbugs.py"), ("process_node", "udapi/block/ud/markfeatsbugs.py")], ["node.misc['Bug'], document.meta"])

p("C46", "Conversion from UD v1 to v2 makes the documented changes only",
  "ud.Convert1to2 renames exactly the old relations, parts of speech, features and values, keeping subtypes where there is room and reporting the lost ones; nominal modifiers of predicates become oblique; negation becomes a modifier with a feature; groups of goeswith and flat get their first word as head; conjunctions and commas move to the next conjunct; remnants become conjuncts and orphans by priority, also in chains; a text that disagrees with the words is replaced and kept in a comment. Trees stay well-formed over the same words in the same order, what is skipped or matches no rule stays as it was, and what cannot be decided is marked and counted. A second run changes no more features.",
  ["inputs", "configurations"], "every tree of the stated size, any labels, features and texts up to the stated length, with each step on or off",
  "No test covers this block.",
  ["udapi/block/ud/convert1to2.py"], [("change_* / fix_*", "udapi/block/ud/convert1to2.py")], ["node.parent, node.deprel, node.upos, node.feats, node.misc, root.text"])

p("C47", "Re-segmentation gives each gold sentence its predicted words",
  "After util.ResegmentGold each bundle has its unchanged gold tree and one tree of the predicted zone whose characters are those of the gold sentence (up to the end of a word that crosses the boundary); over all sentences the predicted words are the same in the same order, none is lost, and new ones appear only, marked, for the rest of a crossing word. Every tree is well-formed; those that had to change have exactly one root, which was a root before if possible; words whose head is in the same sentence keep it, words that lost their head or got a new one are marked, as are words that lost a function word. Sentences that agree already are left alone.",
  ["inputs"], "every sentence segmentation of both zones over the stated number of characters and every tree of each predicted sentence",
  "No test covers this block.",
  ["udapi/block/util/resegmentgold.py", "udapi/core/root.py"], [("process_document / choose_root", "udapi/block/util/resegmentgold.py"), ("steal_nodes", "udapi/core/root.py")], ["bundles and their trees"])

p("C48", "Reports on coreference and fixed expressions list exactly what is there",
  "corefud.PrintMentions prints exactly the mentions that pass the asked filters (one word, continuous, with empty nodes, treelet, forest and their relaxed forms, singletons), up to the asked number, each with exactly its words marked, with the right totals, and leaves no marks behind. corefud.PrintEntities lists all mentions of exactly the asked entities with their places. corefud.CountGaps counts the runs of sentences and the paragraphs without coreference, per document, file and in total. corefud.MiscStats counts the values of each MISC attribute. ud.PrintFixed prints each fixed expression, and each unmarked occurrence of a known one, once.",
  ["inputs", "configurations"], "every tree and every mention of the stated size, the stated options",
  "No test covers these reports.",
  ["udapi/block/corefud/printmentions.py", "udapi/block/corefud/printentities.py", "udapi/block/corefud/countgaps.py", "udapi/block/corefud/miscstats.py", "udapi/block/ud/printfixed.py"],
  [("process_document / _is_forest", "udapi/block/corefud/printmentions.py"), ("process_document", "udapi/block/corefud/countgaps.py")], ["printed text, node.misc"])

p("C49", "Annotation of multiword expressions keeps members and types",
  "After mwe.Normalize each word is annotated (Mwe in MISC) with exactly the expressions it belonged to before, the type of each expression is given at its first word only, also for overlapping expressions, and a second run changes nothing. mwe.ToSubDeprels adds the type of an expression to the relations of exactly those members whose head is a member of the same expression, for each such expression once; expressions without a type add nothing; heads, words and MISC stay as they were.",
  ["inputs"], "every tree of the stated size and any two sets of its words as expressions, with a type at any word or none",
  "No test covers these blocks.",
  ["udapi/block/mwe/normalize.py", "udapi/block/mwe/tosubdeprels.py"], [("collect_mwes / process_tree", "udapi/block/mwe/normalize.py, udapi/block/mwe/tosubdeprels.py")], ["node.misc['Mwe'], node.deprel"])

p("C50", "UDPipe results reach the right words, sentences and bundles",
  "The UDPipe wrappers (local model and online service) send the words of a sentence, or its text, in order and store what the model answers: tag_parse_tree sets exactly the lemma, tags and features (tag) and the head and relation (parse) of the word with the same number and keeps the words, forms, MISC, multi-word tokens, text and comments; tokenize_tag_parse_tree makes the words of the model in the given tree, one tree for each sentence when resegmenting and one tree otherwise, with the right texts, heads, multi-word tokens and no empty-string attributes. udpipe.Base keeps each bundle once, followed by new bundles for its further sentences, numbered by position with unique sentence ids, leaves other zones alone, and replaces the sentences in order when a whole document is sent.",
  ["inputs", "configurations"], "every model output and every combination of options of the stated size, with stand-ins for the model and the service",
  "No test covers these wrappers: they need a model or the network.",
  ["udapi/block/udpipe/base.py", "udapi/tool/udpipe.py", "udapi/tool/udpipeonline.py"],
  [("tag_parse_tree / tokenize_tag_parse_tree", "udapi/tool/udpipe.py, udapi/tool/udpipeonline.py"), ("process_document", "udapi/block/udpipe/base.py")], ["trees and bundles of the document"])

p("C51", "Lemma, space and punctuation annotation follows the documented rules",
  "ud.Lemmatize gives a word without lemma its (lowercased) form exactly if its part of speech and features say that it is a base form; the Chinese and Cantonese versions also undo negation, questions, copulas and plurals, and keep known lemmas unless asked to rewrite. ud.SetTranslation stores the lines of a file as text_en comments of the sentences in order and overwrites only when asked. ud.AddPunctType gives punctuation its type and side. ud.en.SetSpaceAfter and ud.ro.SetSpaceAfter mark contractions, quotes, hyphens and money as not followed by a space in addition to the general rules. ud.bg.RemoveDotAfterAbbr removes only a full stop that the text does not have, ud.es.FixExclamation splits marks off words and ud.de.FixGSD joins ordinal numbers with their period; the text and the heads of other words stay and the tree stays well-formed.",
  ["inputs", "configurations"], "every word up to the stated length, every tree of the stated size, any features, flags and options",
  "No test covers these blocks.",
  ["udapi/block/ud/lemmatize.py", "udapi/block/ud/zh/lemmatize.py", "udapi/block/ud/yue/lemmatize.py", "udapi/block/ud/settranslation.py", "udapi/block/ud/addpuncttype.py", "udapi/block/ud/en/setspaceafter.py", "udapi/block/ud/ro/setspaceafter.py", "udapi/block/ud/bg/removedotafterabbr.py", "udapi/block/ud/es/fixexclamation.py", "udapi/block/ud/de/fixgsd.py"],
  [("process_node", "udapi/block/ud/lemmatize.py"), ("process_tree", "udapi/block/ud/en/setspaceafter.py"), ("process_node / fix_ordinals", "udapi/block/ud/de/fixgsd.py")], ["node.lemma, node.feats, node.misc, root.comment, root.text"])

p("C52", "Language-specific repairs reattach exactly the words of their construction",
  "The language-specific repair blocks change exactly the construction they are written for and keep words, order, other heads, relations and tags, and the tree well-formed: kk/ug.FixSpuriousAux, hi.FixAux and es.FixTenerQue make a listed auxiliary the head of its former head (now its xcomp), with the clause-level dependents moved and the enhanced relation following; es/ca.ElQue attaches a free relative clause to its determiner; gl.To2 puts complements over copulas and nouns over prepositions and punctuation; da.FixMultiSubject moves one of two subjects to the clause it is nearer to; pt.AddHyphenMwt joins hyphen compounds into multi-word tokens, removing only the hyphens; de.FixHDT splits contractions into preposition and article keeping the text; ru.FixToEst, he/ro.FixNeg, ga.To2 and es.FixVerbFeats relabel exactly the words with the documented properties.",
  ["inputs"], "every tree of the stated size with every relevant relation, lemma, form and feature at any of its words",
  "No test covers these blocks.",
  ["udapi/block/ud/kk/fixspuriousaux.py", "udapi/block/ud/ug/fixspuriousaux.py", "udapi/block/ud/hi/fixaux.py", "udapi/block/ud/es/fixtenerque.py", "udapi/block/ud/es/elque.py", "udapi/block/ud/ca/elque.py", "udapi/block/ud/gl/to2.py", "udapi/block/ud/da/fixmultisubject.py", "udapi/block/ud/pt/addhyphenmwt.py", "udapi/block/ud/de/fixhdt.py", "udapi/block/ud/ru/fixtoest.py", "udapi/block/ud/he/fixneg.py", "udapi/block/ud/ro/fixneg.py", "udapi/block/ud/ga/to2.py", "udapi/block/ud/es/fixverbfeats.py"],
  [("process_node", "udapi/block/ud/kk/fixspuriousaux.py, udapi/block/ud/hi/fixaux.py, udapi/block/ud/da/fixmultisubject.py, udapi/block/ud/gl/to2.py"), ("reattach", "udapi/block/ud/es/fixtenerque.py"), ("fix_pattern", "udapi/block/ud/es/elque.py"), ("process_tree", "udapi/block/ud/pt/addhyphenmwt.py")], ["node.parent, node.deprel, node.upos, node.lemma, node.feats, node.deps"])

p("C53", "Fixers of enhanced relations correct only case labels",
  "ud.ar.FixEdeprels, ud.cs.FixEdeprels, ud.lt.FixEdeprels, ud.ru.FixEdeprels and ud.sk.FixEdeprels correct the labels of enhanced relations: no edge appears, disappears or gets another parent, the basic tree and all attributes of the words stay, labels of relations other than nominal modifiers and clauses with a marker stay. A preposition or marker that the language lists with a single form and case gets it with the relation kept, whatever case was there; of several layers of markers only the outermost one stays (but for the listed exceptions); a preposition with several cases whose label has no case or an impossible one gets the case of its adposition in the tree, or the usual case. The helper that re-attaches a word in both structures replaces exactly its enhanced edges from the old head by one from the new head.",
  ["inputs"], "every listed preposition or marker, any other letters, every case, any adposition features, every tree of the stated size for re-attachments",
  "No test runs these blocks.",
  ["udapi/block/ud/cs/fixedeprels.py", "udapi/block/ud/ru/fixedeprels.py", "udapi/block/ud/sk/fixedeprels.py", "udapi/block/ud/lt/fixedeprels.py", "udapi/block/ud/ar/fixedeprels.py"],
  [("process_node", "udapi/block/ud/*/fixedeprels.py"), ("set_basic_and_enhanced", "udapi/block/ud/*/fixedeprels.py")], ["node.deps"])

p("C54", "Verb phrases and cases of phrases are annotated from their parts",
  "The msf blocks write only MSF and Phrase attributes in MISC: Init copies the features (and takes a missing case from the only single-word adposition, a modifier or the relation; features of a verb phrase replace those of the word), Case derives the case of a phrase from adpositions and case, subordinators or coordinators, NumPhrase gives a counted noun in genitive the case of its quantifier, RemoveFunc removes the MSF attributes of function words, and CreateAbstract adds one abstract subject with the agreement features to a finite verb without a subject and removes them from the verb. The detectors of Slavic verb forms (conditional, converb, future, imperative, infinitive, past, present) write at the head word exactly the sorted numbers of the words of the phrase (the head and its auxiliaries, copulas, reflexives and negative particles that the form is built from, with a copula also the prepositions) and the person, number, tense, mood, voice, polarity and other features of the words that carry them in that form; words that are in no such form and the trees stay as they are, but the preprocessor harmonizes parts of speech and features of the treebanks.",
  ["inputs"], "every head with every combination of the stated number of dependents of the kinds that verb forms and cases are built from, any feature values",
  "No test runs these blocks.",
  ["udapi/block/msf/phrase.py", "udapi/block/msf/init.py", "udapi/block/msf/case.py", "udapi/block/msf/createabstract.py", "udapi/block/msf/slavic/past.py", "udapi/block/msf/slavic/future.py"],
  [("process_node", "udapi/block/msf and udapi/block/msf/slavic")], ["node.misc"])

p("C55", "The complexity report counts exactly the constructions it names",
  "demo.Complexity prints for each sentence the number of its words that are not punctuation, the depth of the tree, the greatest number of clause heads above one another and, for clauses, main clauses, coordinations of each phrase type, T-units, complex T-units, relative clauses, postponed modifiers, adjectivized and controlled predicates and complex nominals, exactly the number of constructions of the documented shape; with matches it lists the words of exactly those constructions. The trees keep their words and heads.",
  ["inputs"], "every tree of the stated number of words, each word of one of the listed kinds (part of speech, relation, features)",
  "No test runs the report; the counts depend on the interplay of clause heads, conjuncts and depth in the whole tree.",
  ["udapi/block/demo/complexity.py"], [("process_tree, get_t_units, expand_subtree, get_coord_phrase", "udapi/block/demo/complexity.py")], ["printed report"])

p("C56", "Google treebanks are converted by the listed rules only",
  "ud.Google2ud renames exactly the listed relations, features and parts of speech, gives each preposition's object the place of the preposition and attaches the preposition (and its other dependents) to it, makes the attribute of a copula the head of the clause, decides about an object of an object of a preposition by their distance and the language, and joins words that were wrongly split (goeswith) only with a neighbor that is written together with them. The text of the sentence stays, every other word keeps its form, head and relation, and what cannot be decided is marked as ToDo.",
  ["inputs"], "every tree of the stated number of words with any of the relations concerned, and any relation label, feature value and form of the stated size",
  "No test runs the conversion; its steps depend on each other and on the word order.",
  ["udapi/block/ud/google2ud.py"], [("fix_deprel, fix_upos, fix_multiword_prep, fix_goeswith, _merge_with, fix_feats", "udapi/block/ud/google2ud.py")], ["trees after the conversion"])

p("C57", "Enhanced dependencies are derived from the basic tree by the stated rules",
  "zellig_harris.EnhanceDeps adds to each conjunct the head and relation of the word it is coordinated with, and to each subject or object of that word the conjunct as a further head unless the conjunct has a dependent with the same relation; it adds nothing else, nothing twice, and keeps the dependencies that were there. The effective parent of a conjunct is the parent of the word it is coordinated with. ud.Basic2Enhanced copies head and relation exactly to the words without enhanced dependencies. The basic tree stays.",
  ["inputs"], "every tree of the stated number of words with any of the relations concerned",
  "No test runs these blocks on trees with several, nested or sharing conjuncts.",
  ["udapi/block/zellig_harris/enhancedeps.py", "udapi/block/ud/basic2enhanced.py"], [("process_node, enhance_deps, eparent", "udapi/block/zellig_harris/enhancedeps.py")], ["deps of the words"])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for q in P:
            assert len(q['title']) <= 80, q['title']
            f.write(json.dumps(q, ensure_ascii=False) + '\n')
    print(len(P), 'properties')
