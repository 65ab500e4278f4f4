TECH = 'contract-based deductive verification of the real C++ (own VC generator on clang ASTs, loop invariants inferred, z3/cvc5), bounded native search beside it'
NOTES = 'vc/engine.py generates and discharges the obligations from /repo\'s current source on every run; native/ compiles the same sources with the same specification for the bounded, labelled searches. See DESIGN.md.'
def inputs(text): return {'over': ['inputs', 'configurations'], 'text': text}
PROPS = []
def prop(**k): PROPS.append(k)
NOTE = 'Every obligation is generated from the current source and discharged for all inputs; assumes the models of lttoolbox/ICU/libstdc++ calls listed in the evidence, unbounded integers, and code points as characters. '

prop(id='C01', title='Post-transfer blank clean-up changes nothing but runs of spaces',
  statement='For every input stream, apertium-posttransfer outputs the input with every maximal run of consecutive plain spaces (U+0020) replaced by a single space and every other character, in order, unchanged. With null-flush enabled, all output owed for the text before a NUL is flushed before the next character is read.',
  quantifier=inputs('every character stream of any length, with and without null-flush'),
  why_tests_cant='No test runs this program on anything but a few pipeline sentences; the guarantee is over all character streams of any length and both modes.',
  anchors={'files': ['apertium/apertium_posttransfer.cc'], 'mechanism': [{'name': 'processStream', 'where': 'apertium/apertium_posttransfer.cc'}], 'observe_at': ['standard output of apertium-posttransfer']},
  note=NOTE + 'processStream is under contract; main (option parsing) is covered by the bounded runs of the program.')

prop(id='C02', title='Pretransfer splits joined units and otherwise copies the stream',
  statement="For every well-formed stream, apertium-pretransfer outputs it with each joined lexical unit split at its unescaped + separators (and with the compound option at ~), word-bound blanks repeated on each part, the multiword queue (# ...) moved directly after the first part's lemma, and everything else - blanks, escapes, unknown words, text between units - copied unchanged and in order. The options select only what they name: surface-form dropping, compound splitting and null-flush; malformed input may be rejected but well-formed input never is.",
  quantifier=inputs('every character stream of any length, all eight combinations of the options'),
  why_tests_cant='The tests run seventeen sentences; escapes, nested blanks, queues, and combinations of options at arbitrary positions are unbounded.',
  anchors={'files': ['apertium/pretransfer.cc', 'apertium/apertium_pretransfer.cc'], 'mechanism': [{'name': 'processStream', 'where': 'apertium/pretransfer.cc'}, {'name': 'procWord', 'where': 'apertium/pretransfer.cc'}, {'name': 'readAndWriteUntil / storeAndWriteWblank', 'where': 'apertium/pretransfer.cc'}], 'observe_at': ['standard output of apertium-pretransfer']},
  note=NOTE + 'processStream and the functions it calls are verified against the splitting automaton in specs/pretransfer_spec.h, for each option combination.')

prop(id='C03', title='cleanstream keeps exactly the lexical units',
  statement='For every stream of lexical units, blanks and text, apertium-cleanstream outputs exactly the lexical units, in order and byte for byte (a bare ^ inside a unit comes out escaped), with each run of other text reduced to one separator: a space, or with -n a newline. Superblanks are dropped, or with -b kept in place. Nothing of a unit is ever lost, split or joined, whatever escapes it holds.',
  quantifier=inputs('every byte stream that ends outside a unit, blank or escape, under the four combinations of -n and -b'),
  why_tests_cant='The tests run cleanstream on a few short fixed streams; escapes, blanks and separators can stand at any position of any stream.',
  anchors={'files': ['apertium/apertium_cleanstream.cc'], 'mechanism': [{'name': 'main', 'where': 'apertium/apertium_cleanstream.cc'}], 'observe_at': ['standard output of apertium-cleanstream']},
  note=NOTE + 'main itself is under contract, for each combination of arguments.')

prop(id='C05', title='Word-bound blanks are closed after exactly their unit',
  statement='For every well-formed stream, apertium-wblank-detach outputs the stream unchanged except that [[/]] is inserted immediately after the closing $ of each lexical unit that is directly preceded by a word-bound blank [[...]], and nowhere else; escaped characters inside blanks, units and text are copied verbatim and never taken for delimiters. At a NUL between units all pending output is flushed before more input is read.',
  quantifier=inputs('every well-formed byte stream of any length, with and without -z'),
  why_tests_cant='No test runs this program; brackets, escapes and word-bound blanks can be arranged in unboundedly many ways.',
  anchors={'files': ['apertium/wblank-detach.cc'], 'mechanism': [{'name': 'main', 'where': 'apertium/wblank-detach.cc'}], 'observe_at': ['standard output of apertium-wblank-detach']},
  note=NOTE + 'main itself is under contract, with and without -z.')

prop(id='C07', title='Transfer stages cut the stream into blanks and units without losing anything',
  statement="For every well-formed stream, each transfer stage (apertium-transfer, interchunk, postchunk, and the multiple-translation stage) reads it as alternating blanks and units whose texts are exactly the characters of the stream: a unit is everything between ^ and its closing $ (in interchunk and postchunk a body {...} only ends at }$; in transfer a word-bound blank [[...]] belongs to the unit after it), and a blank everything between units. Escaped characters and superblanks are never taken for delimiters or cut; the kind of token is that of the delimiter that ended it, at the end of the stream (or at a NUL under null-flush) an end token is delivered. A token that was read and kept for another rule is delivered again without reading; reading a token writes nothing.",
  quantifier=inputs('every well-formed character stream of any length, every state of the token buffer, inside and outside a unit, with and without null-flush'),
  why_tests_cant='The tests transfer some dozens of sentences; escapes, superblanks, nested brackets and word-bound blanks can stand at any position of any stream.',
  anchors={'files': ['apertium/transfer.cc', 'apertium/interchunk.cc', 'apertium/postchunk.cc', 'apertium/transfer_mult.cc'], 'mechanism': [{'name': c + '::readToken', 'where': 'apertium/%s.cc' % f} for c, f in (('Transfer', 'transfer'), ('Interchunk', 'interchunk'), ('Postchunk', 'postchunk'), ('TransferMult', 'transfer_mult'))], 'observe_at': ['the tokens readToken returns', 'standard output of apertium-transfer, apertium-interchunk, apertium-postchunk']},
  note=NOTE + 'The four readToken functions are under contract from any state of the object; lttoolbox Buffer is an assumed contract.')

STAGES = {'Transfer': 'transfer', 'Interchunk': 'interchunk', 'Postchunk': 'postchunk'}
def where(*fns, base=()): return [{'name': c + '::' + f, 'where': 'apertium/%s.cc' % STAGES[c]} for c in STAGES for f in fns] + [{'name': 'TransferBase::' + f, 'where': 'apertium/transfer_base.cc'} for f in base]
RULEFILES = ['apertium/transfer.cc', 'apertium/interchunk.cc', 'apertium/postchunk.cc', 'apertium/transfer_base.cc']
prop(id='C09', title='Conditions of transfer rules mean what they say',
  statement="In every transfer, interchunk and postchunk rule or macro, a condition evaluates to its logical meaning for whatever words the rule matched: and/or/not (of any number of conditions) to the conjunction, disjunction and negation; equal, begins-with, ends-with and contains-substring to equality, prefix, suffix and substring of the values of their two operands; in, begins-with-list and ends-with-list to membership of the value in the named list, or having a prefix or suffix in it; caseless=yes compares without regard to case. choose runs the instructions of the first when whose test holds, else those of otherwise, and nothing else, the first time a rule is used and every later time.",
  quantifier=inputs('every tree of conditions of any size, every value of the operands, every list'),
  why_tests_cant='The tests run a few dozen rules on fixed sentences; conditions can be nested to any depth over any values.',
  anchors={'files': RULEFILES, 'mechanism': where(base=('processLogical', 'processAnd', 'processOr', 'processNot', 'processEqual', 'processBeginsWith', 'processEndsWith', 'processBeginsWithList', 'processEndsWithList', 'processContainsSubstring', 'processIn', 'processChoose', 'processTest')), 'observe_at': ['output of rules whose instructions are under a choose']},
  note=NOTE + 'The evaluators are under contract; choose is compared with a reference interpreter on generated rules (bounded).')

prop(id='C10', title='Expressions and assignments of transfer rules have exactly their effect',
  statement="In every transfer, interchunk and postchunk rule or macro, an expression evaluates to its meaning for whatever words the rule matched: clip to the named part of the named side of the word at that position (with or without its queue, and empty where there is no such word or part), link-to to the tag given when the part is there, lit, lit-tag and var to their text, b to the blank (each blank of the input once, in order, then a space), case-of and get-case-from to the letter case of their source, concat to the concatenation of its parts. let, append, modify-case and the parameters of a macro change exactly the variable or word part they name to exactly that value, and nothing else; a rule behaves the same the first time it is used and every later time.",
  quantifier=inputs('every expression and assignment over every word, variable, position and part'),
  why_tests_cant='The tests run a few dozen rules on fixed sentences; parts, positions, values and sequences of assignments are unbounded.',
  anchors={'files': RULEFILES + ['apertium/transfer_word.cc', 'apertium/interchunk_word.cc', 'apertium/transfer_instr.cc'], 'mechanism': where('evalCachedString', 'processClip', 'processCaseOf', 'processBlank', 'checkIndex', 'processLet', 'processModifyCase', 'processCallMacro', base=('evalString', 'processAppend', 'copycase', 'combineWblanks')), 'observe_at': ['output of rules', 'the variables after a rule']},
  note=NOTE + 'The evaluators of single expressions are under contract; sequences of instructions are compared with a reference interpreter on generated rules (bounded).')

prop(id='C11', title='Rules output exactly the units their out elements describe',
  statement="For every rule, an out element writes the texts of its children in order and nothing else. An lu writes one lexical unit ^...$ of the values of its parts, or nothing when they are all empty; an mlu writes one unit of its lus joined by + (not before an empty one or a queue #...); a chunk writes ^name tags{...}$ with the given name in the letter case asked for, its tags and the units it holds. The word-bound blank of a unit is the blank of the word, when the rule matched one word, and otherwise those of the words its lemmas were taken from, in order and joined by ; . A rejected rule outputs nothing more, and a rule behaves the same the first time it is used and every later time.",
  quantifier=inputs('every out, lu, mlu, chunk and tags element with any number of parts of any values'),
  why_tests_cant='The tests run a few dozen rules on fixed sentences; the number of units and the values of their parts are unbounded.',
  anchors={'files': RULEFILES, 'mechanism': where('processOut', 'processLu', 'processMlu', 'processChunk', 'processTags', base=('processRule', 'processInstruction', 'combineWblanks')), 'observe_at': ['output of rules']},
  note=NOTE + 'processOut, processLu, processMlu, processChunk and processTags are under contract; word-bound blanks, rejection and macros are compared with a reference interpreter on generated rules (bounded).')
prop(id='C08', title='Rules apply to the longest match, and everything else passes through unchanged',
  statement="On every stream, each transfer stage works from left to right: at each unit it applies the rule whose pattern matches the longest sequence of units from there (of those, the first in the file), where a pattern matches what its categories' lemmas (with * for any letters, without regard to case) and tags describe, of the source side in transfer, the whole head in interchunk, the pseudolemma in postchunk; after a rule, matching goes on behind it. A unit no rule begins at is output as the stage's default says (its target side, the unit as it is, or the content of the chunk with the chunk's case and tags), and all blanks come out once, in order. What a rule may leave behind for others are only its variables; texts separated by NUL with null-flush do not affect one another.",
  quantifier=inputs('every rule file, every stream of any length, with and without bilingual side, null-flush and word-bound blanks'),
  why_tests_cant='The tests transfer some dozens of sentences with a few fixed rule files.',
  anchors={'files': RULEFILES + ['apertium/trx_reader.cc'], 'mechanism': where('applyWord', 'applyRule', 'transfer', 'interchunk', 'postchunk', 'transfer_wrapper_null_flush') + [{'name': 'Postchunk::' + f, 'where': 'apertium/postchunk.cc'} for f in ('beginChunk', 'endChunk', 'pseudolemma', 'wordzero', 'getVecTags', 'unchunk')], 'observe_at': ['standard output of apertium-transfer, apertium-interchunk, apertium-postchunk']},
  note=NOTE + 'applyWord, which decides what the matcher sees of a unit, is under contract in the three stages, and so is what postchunk takes from the head of a chunk; matching itself, the default output and null-flush are compared with a reference on generated rule files and streams (bounded).')

prop(id='C13', title="The unigram tagger chooses each unit's best analysis and changes nothing else",
  statement="For every trained model (kinds 1 to 3) and every well-formed analysed stream, apertium-tagger -g -u outputs the stream with each unit ^form/analysis/...$ replaced by ^analysis$, where analysis is the first of those with the highest score (the score formulas of the model; the lemma queue directly behind the lemma), an unknown or analysis-less form by ^*form$, and everything between units unchanged. -p adds the surface form, -m marks units that had not exactly one analysis with =, -f adds the analyses not chosen. Each unit is written once, in order; a model stored in a file and loaded again is the model it was; at a NUL everything before it, and the NUL, is written and flushed before more input is read. A unit that is not well-formed (no lemma, no tag, no end) is rejected, and only such a unit.",
  quantifier=inputs('every stream of any length, every number of units, analyses, morphemes and tags, every training corpus, every combination of -p, -m, -f'),
  why_tests_cant='The tests tag a few sentences with one or two small models; analyses, escapes, blanks and counts are unbounded.',
  anchors={'files': ['apertium/stream.cc', 'apertium/morpheme.cc', 'apertium/analysis.cc', 'apertium/unigram_tagger.cc', 'apertium/lemma.cc', 'apertium/a.cc', 'apertium/i.cc', 'apertium/deserialiser.h', 'apertium/serialiser.h'], 'mechanism': [{'name': n, 'where': 'apertium/%s.cc' % w} for n, w in (('Stream::get', 'stream'), ('Stream::outputLexicalUnit', 'stream'), ('Morpheme::read', 'morpheme'), ('Analysis::read', 'analysis'), ('UnigramTagger::tag', 'unigram_tagger'), ('UnigramTagger::score', 'unigram_tagger'), ('UnigramTagger::train', 'unigram_tagger'))], 'observe_at': ['standard output of apertium-tagger -g -u']},
  note=NOTE + 'Reading (Morpheme::read, Analysis::read, Stream::get), choosing, writing, the tagging loop, the scores of models 1 and 2 and the stored model are under contract; the score of model 3, training and whole runs are compared with a reference on random corpora (bounded).')
prop(id='C14', title='The HMM tagger chooses the most probable analyses and changes nothing else',
  statement="For every trained model and tag set, apertium-tagger -g outputs the stream with each analysed unit replaced by one of its own analyses: that whose coarse tag lies on a most probable sequence of tags given the ambiguity class of each unit (the class itself when the model knows it, else the smallest known class that includes it), unknown words becoming *form, and everything between units unchanged, each unit once and in order. -p adds the surface form, -m marks ambiguous units, -f adds the analyses not chosen. The coarse tag of an analysis is that of the first def-label that matches it; discard-on-ambiguity rules drop exactly the analyses they describe, and only from units that keep another one. A model written to a file and read again, or copied, is the model it was.",
  quantifier=inputs('every stream of any length, every number of units, analyses and tags, every tag set and trained model, every combination of -p, -m, -f'),
  why_tests_cant='The tests train and tag with a few fixed tag sets and sentences; probabilities, ambiguity classes, escapes and blanks are unbounded.',
  anchors={'files': ['apertium/hmm.cc', 'apertium/tagger_word.cc', 'apertium/tagger_utils.cc', 'apertium/tagger_data.cc', 'apertium/tagger_data_hmm.cc', 'apertium/file_morpho_stream.cc', 'apertium/tsx_reader.cc', 'apertium/collection.cc', 'apertium/constant_manager.cc'], 'mechanism': [{'name': n, 'where': 'apertium/%s.cc' % w} for n, w in (('TaggerWord::get_lexical_form', 'tagger_word'), ('TaggerWord::get_all_chosen_tag_first', 'tagger_word'), ('TaggerWord::add_tag', 'tagger_word'), ('TaggerWord::discardOnAmbiguity', 'tagger_word'), ('tagger_utils::find_similar_ambiguity_class', 'tagger_utils'), ('HMM::tagger', 'hmm'), ('FileMorphoStream::get_next_word', 'file_morpho_stream'), ('TaggerData::copy', 'tagger_data'))], 'observe_at': ['standard output of apertium-tagger -g']},
  note=NOTE + "The words, what is written of them, the ambiguity classes and the copies of the model's data are under contract; the search for the most probable sequence, the reading of the stream and the stored model are compared with a reference on random tag sets, models and streams (bounded).")
prop(id='C04', title='Word-bound blanks are distributed over the units they enclose',
  statement="For every well-formed stream, apertium-wblank-attach takes the word-bound blanks [[...]] and [[/]] out of the stream and puts before each lexical unit exactly one word-bound blank [[A; B]] holding the entries of all those open around it, each entry once, in the order they were opened, without the spaces and ; around it; before a unit with none open it puts nothing. [[/]] closes the blank opened last and nothing else. All other text, other blanks and units come out verbatim and in order; escaped characters are never taken for delimiters or lost. At a NUL all blanks are closed and what is owed is flushed.",
  quantifier=inputs('every well-formed byte stream of any length, every number and nesting of word-bound blanks'),
  why_tests_cant='No test runs this program; word-bound blanks can be nested and filled in unboundedly many ways.',
  anchors={'files': ['apertium/wblank-attach.cc'], 'mechanism': [{'name': 'main', 'where': 'apertium/wblank-attach.cc'}, {'name': 'trim_wb', 'where': 'apertium/wblank-attach.cc'}], 'observe_at': ['standard output of apertium-wblank-attach']},
  note=NOTE + 'main and trim_wb are under contract; the loops that write, close and read entries have contracts of their own.')
prop(id='C16', title='Capitalisation is recorded, and restored as the rules say',
  statement="On every well-formed stream, apertium-extract-caps reduces each lexical unit to its first reading (behind the surface form, with -s), adds to its word-bound blank one entry c:X/Y with the letter case of the surface form and of the reading up to the last part's tags, and leaves everything else, and every word-bound blank not directly before a unit, as it was. For every rule file, apertium-restore-caps writes each unit's last form in the letter case with the greatest weight (of equal ones: as it is, aa, Aa, AA), where each rule adds its weight, once per place where its sequence of matches (with or, repeat, begin) describes successive units, to the case it selects for each of them. A word-bound blank keeps its other entries in order (with -k all) and is closed by [[/]]; blanks come out unchanged. What is before a NUL is not affected by what follows, and is flushed before more is read.",
  quantifier=inputs('every stream of any length, every number of units, blanks, readings and word-bound blanks, every rule file'),
  why_tests_cant='The tests restore a dozen short sentences with two rule files and extract a few units; rules, repetitions, escapes and texts are unbounded.',
  anchors={'files': ['apertium/apertium_extract_caps.cc', 'apertium/caps_restorer.cc', 'apertium/caps_compiler.cc', 'apertium/apertium_restore_caps.cc'], 'mechanism': [{'name': n, 'where': 'apertium/%s.cc' % w} for n, w in (('main', 'apertium_extract_caps'), ('lemma_case', 'apertium_extract_caps'), ('CapsRestorer::process', 'caps_restorer'), ('CapsRestorer::read_word', 'caps_restorer'), ('CapsRestorer::read_seg', 'caps_restorer'), ('CapsRestorer::output_all', 'caps_restorer'), ('CapsCompiler::compile_match', 'caps_compiler'), ('CapsCompiler::compile_repeat', 'caps_compiler'), ('CapsCompiler::compile_or', 'caps_compiler'))], 'observe_at': ['standard output of apertium-extract-caps and apertium-restore-caps']},
  note=NOTE + 'apertium-extract-caps is under contract as a whole; of the restorer, reading a form and writing the words; the application of rules and their compilation are compared with a reference on random rules and texts (bounded).')

# Guarantees of the system that contracts on this code cannot decide here.
prop(id='C06', title='Deformatting and reformatting give the document back',
  statement='For every document, a deformatter followed by its reformatter (text, HTML, RTF, LaTeX, ...) gives the document back: markup is held in superblanks, text is escaped, and nothing is lost, added or reordered.',
  quantifier=inputs('every document of every format'),
  why_tests_cant='The tests of the formats cover some sample documents; nesting and escapes are unbounded.',
  anchors={'files': ['apertium/apertium-prelatex.l', 'apertium/apertium-postlatex.l', 'apertium/apertium-postlatex-raw.l'], 'mechanism': [{'name': 'the flex rules', 'where': 'apertium/apertium-prelatex.l'}], 'observe_at': ['apertium-destxt | apertium-retxt and the like']},
  note='', na='The deformatters and reformatters are flex rules (several of them generated from format files by an XSLT): what runs is the table of an automaton and the flex skeleton; a contract on yylex() would need an invariant over the generated tables, so the deciding step would be a proof about flex, or about a hand-written model of the rules.')
prop(id='C12', title='adapt-docx moves no text',
  statement='For every document, apertium-adapt-docx merges and cuts runs so that formatting does not split words, and the text of every paragraph stays what it was.',
  quantifier=inputs('every docx document'),
  why_tests_cant='The tests adapt one document.',
  anchors={'files': ['apertium/adapt_docx.cc'], 'mechanism': [{'name': 'main', 'where': 'apertium/adapt_docx.cc'}], 'observe_at': ['the adapted document.xml']},
  note='', na='The program rewrites a libxml2 tree in place (nodes relinked, freed and copied through the library) and reads it from a zip archive; stating that the text is preserved needs an ownership discipline (separation logic) over the library\'s mutable, doubly linked nodes, which neither the verifier built here nor an installed one has.')
prop(id='C15', title='The perceptron tagger chooses the analyses with the greatest weight',
  statement='For every trained model and stream, apertium-tagger -x outputs for each unit the analysis on a best-scoring sequence under the features of the model (within the beam), and changes nothing else.',
  quantifier=inputs('every model, every stream, every beam'),
  why_tests_cant='The tests train on a few sentences.',
  anchors={'files': ['apertium/perceptron_tagger.cc', 'apertium/feature_vec.cc', 'apertium/mtx_reader.cc'], 'mechanism': [{'name': 'PerceptronTagger::tag', 'where': 'apertium/perceptron_tagger.cc'}], 'observe_at': ['standard output of apertium-tagger -x']},
  note='', na='The features are programs for a stack machine whose values are a tagged union over raw memory (placement new, casts), and the weights are floating-point sums: the verifier built here has neither a byte-level memory model nor floating point, so a contract could only be stated over an abstraction of the machine, not over the code.')
prop(id='C17', title='Modes become the pipelines they describe',
  statement='For every modes.xml, apertium-gen-modes writes for each mode (and each debug mode) a script that runs exactly the programs of the mode, in order, with the options and files given, quoted so that the shell reads them back as they are.',
  quantifier=inputs('every modes.xml'),
  why_tests_cant='The tests generate the modes of one or two files.',
  anchors={'files': ['apertium/gen_modes.cc'], 'mechanism': [{'name': 'gen_mode', 'where': 'apertium/gen_modes.cc'}], 'observe_at': ['modes/*.mode']},
  note='', na='What is to be proved is how a shell reads the text written; the functions are file-system effects (std::filesystem, permissions) and format strings, of which contracts could say only that the text written is the text the code writes: there is no independent specification short of the shell\'s.')
