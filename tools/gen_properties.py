#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the text is reviewable)."""
import json
import os
P = []


def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(),
      hook=None):
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': qtext},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'mechanism': [{'name': n, 'where': w} for n, w in mech],
            'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
            'observe_at': list(observe), 'hook_needed': hook}})


p('C01', 'Analysis of arbitrary bytes is memory-safe and always terminates',
  'For every byte string given as a sentence, every analysis configuration the program accepts and every output format, the analyzer either produces output or reports an error; it never reads or writes outside its memory, executes undefined behaviour, fails an internal assertion, crashes or hangs. This includes empty input, over-long input, malformed UTF-8, control characters, sentences ending in the middle of a number, prolongation or repetition pattern, and inputs analysed after a failed one.',
  ['inputs', 'configurations', 'histories'],
  'every byte string up to and beyond the input limit, in every order, for every beam / global beam / auto-beam / n-best configuration and every output format, with interpreted and with compiled features',
  'Tests feed a few dozen well-formed Japanese sentences through two or three configurations without sanitizers and in a release build with assertions off.',
  ['src/core/analysis', 'src/core/impl', 'src/jumandic/shared', 'src/util/memory.hpp', 'src/util/characters.cc'],
  [('length and UTF-8 validation of input', 'src/core/analysis/analysis_input.cc'),
   ('buffer sizing from lattice statistics', 'src/core/analysis/score_processor.cc'),
   ('bounds in numeric / repetition / normalization matching', 'src/core/analysis/numeric_creator.cc, onomatopoeia_creator.cc, charlattice.cc')],
  [('node pool', 'per-sentence arena reused between sentences', 'src/util/memory.hpp')],
  ['Analyzer::analyze and OutputFormat::format return values', 'sanitizer reports'])

p('C02', 'Every analysis is a gapless segmentation of the input',
  'For every accepted sentence, the surfaces of the best path, taken in order, concatenate byte for byte to the sentence, and so do the surfaces along every n-best path. Neighbouring morphemes meet exactly at the same character position, the first starts at 0 and the last ends at the end of the sentence.',
  ['inputs', 'configurations'],
  'every valid UTF-8 sentence, every dictionary and spec with a fallback handler, every beam configuration',
  'Tests compare the top-1 nodes of a handful of sentences; nothing relates surfaces to input bytes for all inputs, all n-best ranks or all beam settings.',
  ['src/core/analysis/lattice_builder.cc', 'src/core/analysis/analysis_result.cc', 'src/core/analysis/output.cc', 'src/jumandic/shared/juman_format.cc', 'src/core/impl/segmented_format.cc'],
  [('lattice boundaries indexed by character', 'src/core/analysis/lattice_builder.cc'),
   ('path restored through back pointers', 'src/core/analysis/analysis_result.cc'),
   ('surface of unknown nodes kept as a slice of the input', 'src/core/analysis/extra_nodes.cc')],
  [('beam element', 'node + pointer to the previous beam element + total score', 'src/core/analysis/lattice_config.h')],
  ['text output', 'n-best traversal of the EOS beam'])

p('C03', 'Every dictionary word occurring in the sentence is a candidate, exactly once',
  'For every sentence and compiled dictionary, each dictionary entry whose lookup form occurs at some character position of the sentence is offered as a candidate spanning exactly those characters, with all its field values, and exactly once. No candidate marked as coming from the dictionary has a surface that differs from the characters it spans, and template rows used only by unknown-word handlers are never offered as dictionary words.',
  ['inputs', 'programs'],
  'every set of dictionary rows (duplicates, shared prefixes, homographs, empty fields, many homographs) and every valid sentence',
  'Tests look up a few words in dictionaries of two to ten rows.',
  ['src/core/dic', 'src/core/analysis/dictionary_node_creator.cc', 'src/core/analysis/lattice_builder.cc', 'src/core/analysis/output.cc'],
  [('double-array trie over lookup forms', 'src/core/dic/darts_trie.cc'),
   ('delta-coded entry pointer lists', 'src/core/dic/entry_builder.cc'),
   ('alias expansion on output', 'src/core/analysis/output.cc')],
  (), ['lattice nodes read through the output API'])

p('C04', 'Unknown-word handlers create exactly the documented candidates',
  'For every sentence, the unknown-word candidates are exactly those the documented rules of the declared handlers (single, chunking, repeated-pattern, numeric, normalization) give for the character classes of the sentence and the dictionary content, with the surface written to the declared fields, the remaining fields taken from the template row, and the declared placeholder feature value. Handlers of the fallback stage act only if the candidates so far do not connect the beginning with the end of the sentence.',
  ['inputs', 'programs'],
  'all sentences over all character classes, all handler declarations, all dictionaries',
  'Tests pin a few example words per handler; boundary conditions (end of sentence, class unions, overlapping dictionary words, stale data of earlier sentences) are not reached.',
  ['src/core/analysis/unk_nodes_creator.cc', 'src/core/analysis/numeric_creator.cc', 'src/core/analysis/onomatopoeia_creator.cc', 'src/core/analysis/charlattice.cc', 'src/core/analysis/normalized_node_creator.cc', 'docs/spec.md'],
  [('chunking / single handlers', 'src/core/analysis/unk_nodes_creator.cc'),
   ('longest-number search', 'src/core/analysis/numeric_creator.cc'),
   ('two-stage handler dispatch', 'src/core/analysis/analyzer_impl.cc')],
  (), ['lattice nodes read through the output API'])

p('C05', 'Scores are exactly the declared features times the model weights',
  'For every sentence, candidate and context, the score given to a candidate equals the sum of the model weights selected by hashing exactly the uni-, bi- and trigram feature templates declared in the spec over the field values of that candidate and its one or two predecessors. The score of a path is the sum of the scores along it.',
  ['inputs', 'programs', 'configurations'],
  'every feature spec, every weight vector, every dictionary and sentence, full-beam and global-beam search',
  'Tests check a few primitive feature values and a few hash constants; no test recomputes a complete path score from the spec.',
  ['src/core/impl/feature_impl_prim.h', 'src/core/impl/feature_impl_pattern.h', 'src/core/impl/feature_impl_ngram_partial.h', 'src/core/analysis/score_processor.cc', 'src/core/analysis/perceptron.h'],
  [('incremental n-gram hashing over partially applied states', 'src/core/impl/feature_impl_ngram_partial.h'),
   ('score accumulation through T0/T1/T2 buffers', 'src/core/analysis/score_processor.cc'),
   ('weight lookup by masked hash', 'src/core/analysis/perceptron.h')],
  [('score buffers', 'per-boundary partial scores reused between boundaries', 'src/core/analysis/score_processor.h')],
  ['stored local scores and total scores of beam elements'])

p('C06', 'Search returns the best-scoring paths in order',
  'When the beam is at least as wide as the number of partial paths, the returned best path has the highest score among all paths through the candidate lattice and the n-best list contains the n highest-scoring distinct paths in non-increasing order; for any narrower beam the list is still ordered, duplicate-free and consists of real paths with correct total scores. Global-beam search with limits that prune nothing returns the same best path and score as full-beam search.',
  ['inputs', 'configurations'],
  'every lattice, every weight vector (ties, negative, zero, huge), every beam and global-beam configuration',
  'Tests use beam sizes 1, 3 or 5 on a few sentences and check only the top-1 path.',
  ['src/core/analysis/score_processor.cc', 'src/core/analysis/score_processor.h', 'src/core/analysis/analyzer_impl.cc', 'src/core/analysis/lattice_config.h'],
  [('candidate packing and partial sort', 'src/core/analysis/score_processor.h'),
   ('global beam with right check cutoff', 'src/core/analysis/score_processor.cc'),
   ('beam terminated by a fake element', 'src/core/analysis/lattice_config.h')],
  [('beam', 'k best partial paths ending with a node, sorted', 'src/core/analysis/lattice_types.h')],
  ['EOS beam and every intermediate beam'])

p('C07', 'The result depends only on model, configuration and sentence',
  'Analysing a sentence gives the same lattice, scores and output whatever was analysed before by the same analyzer (including rejected, empty, much longer or much shorter sentences), in a fresh or a reused analyzer or formatter, and on every repetition. Memory used by a long-lived analyzer stays bounded by what its largest sentence needs.',
  ['histories', 'inputs'],
  'every sequence of sentences given to one analyzer/formatter instance',
  'Tests create a fresh analyzer per case and analyse one or two sentences; state leaking through reused buffers needs particular sequences.',
  ['src/core/analysis/analyzer_impl.h', 'src/core/analysis/analysis_input.cc', 'src/core/analysis/extra_nodes.h', 'src/util/memory.hpp', 'src/util/memory.cpp', 'src/jumandic/shared/lattice_format.cc'],
  [('reset of all per-sentence state', 'src/core/analysis/analyzer_impl.h'),
   ('page reuse in the arena', 'src/util/memory.cpp')],
  [('arena', 'pages reused between sentences', 'src/util/memory.cpp')],
  ['canonical dump of lattice, beams and formatted output'])

p('C08', 'Analyzers sharing a model can run concurrently',
  'Any number of analyzers created from one loaded model can analyse different sentences in different threads at the same time without data races, and each gives exactly the result it gives when run alone.',
  ['schedules'],
  'every interleaving of loads, analyses and formatting by several analyzers over one shared environment, with interpreted and compiled features',
  'No test runs two analyzers at the same time.',
  ['src/core/env.cc', 'src/core/core.cc', 'src/core/analysis/analyzer.cc', 'src/core/analysis/charlattice.cc', 'src/core/analysis/numeric_creator.cc', 'src/core/analysis/rnn_scorer_gbeam.cc'],
  [('shared state is read-only after loading', 'src/core/env.h'),
   ('function-local statics for rule tables', 'src/core/analysis/charlattice.cc, numeric_creator.cc')],
  (), ['thread sanitizer', 'comparison with sequential results'])

p('C09', 'A compiled dictionary gives back every row unchanged',
  'For every dictionary CSV and dictionary spec that compile without error, the compiled dictionary contains each row with every declared field value (strings, integers, lists, key-value lists, configured separators, empty markers) recoverable unchanged, and no other rows; unused CSV columns, the order of field declarations, storage sharing and alignment options do not change any recovered value. Rows that agree on the fields that identify an entry (the weighted training fields, or all used fields without a train section) are variants of one entry: the other fields are kept for each of them, and its features are those of the first row; lists are kept as sets of elements. Rows that cannot be imported (malformed or too long, missing columns, numbers that are not numbers, no surface) and missing template rows of unknown word processors are reported as errors instead of being dropped silently.',
  ['inputs', 'programs'],
  'every combination of field declarations and options, every CSV content including quoting, empty fields, non-ASCII and long values, huge integer values',
  'Tests import dictionaries of fewer than ten rows with one or two fixed specs.',
  ['src/core/dic/dic_builder.cc', 'src/core/dic/dic_build_detail.cc', 'src/core/dic/field_import.cc', 'src/core/dic/entry_builder.cc', 'src/core/dic/field_reader.h', 'src/core/dic/dic_entries.h', 'src/util/csv_reader.cc'],
  [('string storage with alignment', 'src/core/dic/field_import.cc'),
   ('entry de-duplication by aliasing set', 'src/core/dic/entry_builder.cc'),
   ('readers of pointers and lists', 'src/core/dic/field_reader.h')],
  (), ['every entry enumerated through the output API of a saved and reloaded dictionary'])

p('C10', 'Model files round-trip and corrupted files are rejected',
  'Saving a model and loading it again gives an equivalent model: same spec, dictionary, weights and analysis results, and saving the loaded model again gives the same content. A file that is truncated, is not a model, or whose header magic, header size or weight size is wrong is rejected with an error; any damage of the header makes loading end in an error or in a model whose blocks lie inside the file, never in a crash, hang or read outside the file. A save that is killed or fails leaves no loadable mixture of two models.',
  ['inputs', 'fault_sequences', 'crash_points'],
  'every model that can be built, every truncation point, every point at which a save can be interrupted (new file or over another model) and every header corruption',
  'Tests save and load one tiny model and never a damaged one.',
  ['src/core/impl/model_io.cc', 'src/core/impl/model_format_ser.h', 'src/util/serialization.h', 'src/util/mmap_impl_unix.h', 'src/core/dic/dic_builder.cc', 'src/core/analysis/perceptron.cc'],
  [('page-aligned header and parts', 'src/core/impl/model_io.cc'),
   ('header magic and size', 'src/core/impl/model_io.cc'),
   ('consistency checks on restore', 'src/core/dic/dic_builder.cc, src/core/analysis/perceptron.cc')],
  (), ['Status of loading', 'sanitizer reports', 'analysis results of the reloaded model'])

p('C11', 'Specs mean the same as text, as code and after serialization',
  'A spec written in the text language and the same spec written with the programming interface compile to equal specs that describe exactly the declared fields, features, n-grams, unknown word rules and training fields, and a spec that is saved and restored equals the original, with the same compatibility hash; specs with different dictionary fields or features have different hashes. Every text that does not follow the language or refers to undefined, duplicate or wrongly typed names is rejected with an error message (when the spec is parsed or, for values like the alignment of a field, when a dictionary is built with it), and no text whatsoever makes the compiler crash or hang.',
  ['programs', 'inputs'],
  'every spec text: valid ones over the whole grammar, mutated ones and arbitrary bytes',
  'Tests parse a few fixed spec fragments.',
  ['src/core/spec/spec_parser_impl.h', 'src/core/spec/spec_grammar.h', 'src/core/spec/spec_compiler.cc', 'src/core/spec/spec_dsl.cc', 'src/core/spec/spec_ser.h', 'src/core/spec/spec_hashing.cc', 'docs/spec.md'],
  [('PEG grammar and actions', 'src/core/spec/spec_grammar.h'),
   ('validation of the builder', 'src/core/spec/spec_dsl.cc'),
   ('reference resolution', 'src/core/spec/spec_compiler.cc')],
  (), ['compiled spec structures', 'Status of parsing'])

p('C12', 'UTF-8 decoding and character classes are exact',
  'Every valid UTF-8 string is decoded to exactly its code points with the right byte ranges, every invalid string is reported as invalid, and the character class of a code point depends only on that code point and matches the documented classes and class families. Counting code points and classifying never reads past the given bytes.',
  ['inputs'],
  'all 0x110000 code points, all encodings of one to four bytes, truncated and malformed sequences at every position',
  'Tests check a dozen characters.',
  ['src/util/characters.cc', 'src/util/characters.h', 'src/core/analysis/analysis_input.cc'],
  [('table-less decoder and range classification', 'src/util/characters.cc')],
  (), ['decoded code points, byte slices and classes'])

p('C13', 'All output formats describe the same analysis and stay parseable',
  'For every sentence the JUMAN, morpheme, segmented, lattice and protobuf outputs produced from one analysis agree with each other on the segmentation and on the field values, and each follows its own grammar: fixed number of columns, one terminator per sentence, node identifiers and predecessor links that form the reported n-best paths, scores and ranks that belong to these paths. Escaping and field content never break the framing for sentences over ordinary text characters.',
  ['inputs', 'configurations'],
  'every sentence, every dictionary content of the standard spec, every n-best size, comments present or absent',
  'Tests never compare two formats with each other and check one lattice output.',
  ['src/jumandic/shared/juman_format.cc', 'src/jumandic/shared/lattice_format.cc', 'src/jumandic/shared/morph_format.cc', 'src/jumandic/shared/juman_pb_format.cc', 'src/jumandic/shared/jumanpp_pb_format.cc', 'src/core/impl/segmented_format.cc', 'docs/output.md'],
  [('walkers over alias nodes', 'src/core/analysis/output.cc'),
   ('n-best node collection', 'src/jumandic/shared/lattice_format.cc')],
  (), ['parsed output of each format'])

p('C14', 'The command line tool answers every input line, in order',
  'For every input stream the tool writes exactly one result per sentence line, in input order, whatever the other lines contain (partially annotated examples are separated by empty lines and count as one sentence); a line that cannot be analysed gives an error message and an error placeholder result and does not disturb the following ones. Comment lines are attached to the next sentence only (a comment at the end of the input belongs to an empty last sentence), and the result of a line does not depend on how many lines or files preceded it, on line endings at the end of file or on where output is written.',
  ['inputs', 'histories', 'fault_sequences'],
  'every sequence of lines (empty, comment, invalid UTF-8, over-long, missing final newline), several files, standard input or files, every text format',
  'No test runs the command line tool.',
  ['src/jumandic/main/jumanpp.cc', 'src/core/input/stream_reader.h', 'src/core/input/pex_stream_reader.cc', 'src/jumandic/shared/jumandic_env.cc'],
  [('line reader with comment handling', 'src/core/input'),
   ('error isolation per sentence', 'src/jumandic/main/jumanpp.cc')],
  (), ['standard output, standard error and exit status of the real program'])

p('C15', 'Partially annotated input constrains the analysis',
  'When a sentence is given with partial annotation and the scores of the model are small against the penalties (1000 and 10000), the result satisfies the annotations whenever candidates allow it: if some path of candidates respects all required and forbidden boundaries and annotated word extents, so does the result; if such a path also has all the annotated field values, so does the result. Text without annotations gives the same result as plain input, annotations of one sentence never affect another, and malformed annotations give errors.',
  ['inputs', 'configurations', 'histories'],
  'every sentence with every satisfiable set of boundary and tag constraints, full-beam and global-beam search',
  'Tests read a few annotated examples for training and check the parsed structure, not the analyses they constrain.',
  ['src/core/input/partial_example.cc', 'src/core/input/partial_example_io.cc', 'src/core/input/pex_stream_reader.cc', 'src/core/analysis/score_plugin.h', 'src/core/analysis/score_processor.cc'],
  [('constraint penalties added to scores', 'src/core/input/pex_stream_reader.cc'),
   ('plugin application in the search', 'src/core/analysis/score_processor.cc')],
  (), ['best path'])

p('C16', 'Training updates are exact and training is reproducible',
  'Training on the same corpus, dictionary, configuration and seed with one thread always gives a byte-identical model. Words of the annotation are represented by the dictionary entry with the same weighted fields if there is one, and otherwise by a node with exactly the annotated surface. The loss of an example is the weighted part of compared words that differ between the best path and the annotation: zero exactly when the analysis equals the gold annotation on the weighted fields, and then nothing is updated. Otherwise only weights of features whose counts differ between the gold and the predicted path at the places where the paths differ change, in the direction that favours the gold path, by the amount of the soft confidence-weighted update.',
  ['inputs', 'histories'],
  'every corpus that fits the dictionary, every order of examples, seeds, beam configurations and batch sizes',
  'One training test is known to be flaky and left out; the others check that a loss decreases on two sentences.',
  ['src/core/training/trainer.cc', 'src/core/training/loss.cc', 'src/core/training/scw.cc', 'src/core/training/training_env.cc', 'src/core/training/gold_example.cc'],
  [('gold path resolution', 'src/core/training/gold_example.cc'),
   ('loss by comparing paths', 'src/core/training/loss.cc'),
   ('soft confidence-weighted update', 'src/core/training/scw.cc')],
  [('weights and covariance', 'model parameters', 'src/core/training/scw.h')],
  ['dumped weights, loss values and saved model bytes'])

p('C17', 'Parallel training processes every example exactly once',
  'With any number of worker threads each submitted example is processed exactly once by one thread and its result, failures included, is delivered exactly once (with one worker in the order of submission), without data races on the queues, deadlock or lost wake-ups, and shutting down terminates at any moment, also while work is pending. The number of threads changes nothing else: when updates have no effect, losses and models are the ones of one thread. Bounded queues never lose, duplicate or reorder elements and never exceed their capacity.',
  ['schedules', 'histories'],
  'every interleaving of submitter and workers, all queue capacities, shutdown at any moment',
  'No test uses more than one thread or the queue directly.',
  ['src/util/bounded_queue.h', 'src/core/training/training_executor.cc', 'src/core/training/training_executor.h', 'src/core/training/training_env.cc'],
  [('bounded blocking queue', 'src/util/bounded_queue.h'),
   ('executor threads', 'src/core/training/training_executor.cc')],
  (), ['recorded event log of queue operations', 'thread sanitizer'])

p('C18', 'Compiled feature code equals interpreted features',
  'For every spec, the generated C++ feature code, when compiled and used, gives exactly the same lattice features, scores and analysis results as the interpreted features for every dictionary, weight vector and sentence. Generated code that belongs to a different spec than the loaded model is never used.',
  ['programs', 'inputs'],
  'every spec accepted by the generator, every sentence and configuration',
  'Tests compare a few feature values for one generated class on one dictionary.',
  ['src/core/codegen/feature_codegen.cc', 'src/core/codegen/pattern_feature_codegen.cc', 'src/core/codegen/partial_ngram_feature_codegen.cc', 'src/core/features_api.cc', 'src/core/env.cc'],
  [('code generators', 'src/core/codegen'),
   ('runtime hash comparison', 'src/core/features_api.cc')],
  (), ['scores and paths with and without the compiled features'])

p('C19', 'The neural re-scorer computes the recurrent model it was given',
  'With a recurrent language model, the additional score of every word (and of the end of the sentence) of every path of the last global beam equals a direct evaluation of that network over the words of this path: hidden state and all earlier words of the path back to the sentence start, n-gram weights of up to the order of the network, NCE constant of the network unless another was set. Dictionary words are looked up by their values of the configured fields, other words by surfaces the dictionary does not have; words which the network does not know get exactly the configured constant and per-character penalty. The final ranking orders the same paths by the configured linear combination of both scores. A network gives the same results whether it is given as a file, embedded into a model, or replaces an embedded one; settings given later change only what they name. Damaged or mismatching network files and network parts of models (cut, extended, impossible sizes, wrong type, missing or misplaced special words, wrong fields) are rejected with an error and nothing outside of them is read.',
  ['inputs', 'configurations', 'fault_sequences'],
  'every network shape and weights, every lattice and global beam configuration, truncated or inconsistent network files',
  'The existing network tests need a file that is not available, so nothing of this is tested here.',
  ['src/rnn/mikolov_rnn.cc', 'src/rnn/mikolov_rnn_impl.h', 'src/core/analysis/rnn_scorer_gbeam.cc', 'src/core/analysis/rnn_id_resolver.cc', 'src/core/analysis/rnn_serialization.h'],
  [('batched context and score computation', 'src/rnn/mikolov_rnn_impl.h'),
   ('word id resolution for lattice nodes', 'src/core/analysis/rnn_id_resolver.cc')],
  (), ['stored scores of beam elements'])

p('C20', 'Binary encodings round-trip and damaged data is read safely',
  'Every integer, string, list and structure written with the binary codecs and the serializer is read back unchanged and leaves the reader exactly after it; reading from truncated data reports failure, and reading damaged data never reads outside the buffer, crashes or allocates without bound. Text conversion of numbers, values and strings used in output and configuration is exact for every value.',
  ['inputs', 'fault_sequences'],
  'all 64-bit integers by magnitude class, all byte strings, nested structures, all truncation points and bit flips',
  'Tests encode fewer than ten values.',
  ['src/util/coded_io.cc', 'src/util/coded_io.h', 'src/util/serialization.h', 'src/core/impl/int_seq_util.h', 'src/util/parse_utils.cc', 'src/util/fast_printer.h', 'src/util/printer.cc'],
  [('varint coding', 'src/util/coded_io.cc'),
   ('archive loader/saver', 'src/util/serialization.h')],
  (), ['values and reader positions'])

p('C21', 'Containers, caches and arenas behave like their simple models',
  'Under every sequence of operations the hash map and set, the small-vector, the LRU cache, slices and the character buffer behave like the corresponding standard container. Memory blocks given out by the arena are aligned as requested, disjoint and stay intact until reset.',
  ['histories', 'inputs'],
  'all operation sequences with colliding keys, growth, erasure, clearing, moves and copies, all allocation sizes and alignments',
  'Tests run a few short fixed operation sequences for some of them.',
  ['src/util/flatrep.h', 'src/util/flatmap.h', 'src/util/flatset.h', 'src/util/inlined_vector.h', 'src/util/lru_cache.h', 'src/util/array_slice.h', 'src/util/sliceable_array.h', 'src/util/char_buffer.h', 'src/util/memory.hpp', 'src/util/memory.cpp'],
  [('open addressing with markers', 'src/util/flatrep.h'),
   ('page allocator', 'src/util/memory.cpp')],
  (), ['contents compared with a reference container after every operation'])

p('C22', 'CSV input is read exactly',
  'For every well-formed CSV text the reader yields exactly the rows and fields of the text: quoted fields with embedded separators, quotes and line breaks, empty fields, trailing empty fields, both line endings and a missing final line break. Malformed text (and a field with escaped quotes longer than the 16 KiB unescape buffer) ends the reading in an error state, never in an endless repetition or an out-of-bounds read.',
  ['inputs'],
  'every CSV text, well-formed or not, of any length',
  'Tests read five small texts.',
  ['src/util/csv_reader.cc', 'src/util/csv_reader.h'],
  [('hand-written state machine', 'src/util/csv_reader.cc')],
  (), ['rows, fields and line numbers'])

p('C23', 'Settings take effect with the documented precedence',
  'Options given on the command line override the configuration file, which overrides the defaults; only one configuration file is read (that of --config, or else the global one, or else the one of the user), inside one source the last value counts, and a model path in a file is relative to that file. Each option changes exactly its setting (only the beam is raised to the number of requested results), and an option value that cannot be interpreted or a missing model is reported as an error with a failing exit status before any sentence is analysed. Printing help, version or model information never analyses input.',
  ['configurations', 'inputs'],
  'every combination of options across defaults, configuration files and command line, valid and invalid values',
  'No test parses options.',
  ['src/jumandic/shared/jumanpp_args.cc', 'src/util/cfg.h', 'src/jumandic/shared/jumandic_env.cc', 'src/jumandic/main/jumanpp.cc'],
  [('mergeable configuration values', 'src/util/cfg.h'),
   ('option parser', 'src/jumandic/shared/jumanpp_args.cc')],
  (), ['behaviour of the real program and the parsed configuration'])

p('C24', 'Explanations agree with the scores they explain',
  'For every analysed sentence the feature-level explanation of a path element and the detailed lattice dump list exactly the features that were used, and their weights add up to the reported scores; every node, connection and beam element in the dump is one of the lattice and vice versa.',
  ['inputs', 'configurations'],
  'every sentence, spec and weight vector, with interpreted and compiled features',
  'One test checks that a dump can be produced.',
  ['src/core/impl/feature_debug.cc', 'src/core/proto/lattice_dump_output.cc', 'src/core/impl/graphviz_format.cc', 'src/core/impl/global_beam_position_fmt.cc', 'src/core/impl/feature_computer.cc'],
  [('second, independent feature evaluation', 'src/core/impl/feature_computer.cc'),
   ('dump of the lattice', 'src/core/proto/lattice_dump_output.cc')],
  (), ['dump messages compared with the lattice'])

p('C25', 'Building and training programs deliver a complete model or fail',
  'jpp_jumandic_bootstrap and jumanpp_v2_train (training and embedding a network) exit with status 0 exactly when they have written a complete, loadable model built from all of the inputs they were given. Whatever prevents that is reported with a message and a non-zero status: unknown options and values, settings under which nothing can be trained (no threads, empty batches, impossible beams), missing, unreadable, cut or malformed dictionaries, models, networks and corpora (also partially annotated ones, and a malformed line in the middle), and outputs that can not be written completely. A failed run leaves no new file that loads as a model. The last example of a corpus counts whether or not the file ends with a line end or an end marker. The programs never crash or hang.',
  ['inputs', 'configurations', 'fault_sequences'],
  'every combination of valid and invalid inputs, settings and output failures',
  'No test runs the programs; library tests only use valid corpora and writable files.',
  ['src/jumandic/main/bootstrap.cc', 'src/jumandic/main/jumanpp_train.cc', 'src/core/training/training_env.cc', 'src/core/training/full_example.cc', 'src/core/input/partial_example_io.cc', 'src/core/impl/model_io.cc'],
  [('reporting of failures', 'src/jumandic/main/jumanpp_train.cc'),
   ('corpus readers', 'src/core/training/full_example.cc')],
  (), ['exit status, messages and files of the programs'])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
print(len(P))
