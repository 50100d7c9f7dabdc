#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run after editing the tables below)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = 'core/src/main/cpp/'
A, I, TK, VB = C + 'algorithm/', C + 'interfaces/', C + 'interfaces/tokenizers/', C + 'interfaces/vgram_builders/'
P = []; NA = []
def prop(id, title, statement, over, quant, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None))
    if state: d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, (id, len(title)); P.append(d)
ID, SD, VBU = A + 'int_dict_p.cc', A + 'stat_dict_p.cc', A + 'int_vgram_builder_p.cc'
prop('P01', 'Greedy parsing is lossless for every dictionary and input',
 'Parsing a sequence with a dictionary yields ids of that dictionary, and concatenating the v-grams they stand for gives back the sequence, symbol for symbol. The ids are appended to the output. This holds for every dictionary, including an empty one, and for inputs with symbols the dictionary has never seen. The returned count is the number of ids written.',
 ['inputs', 'configurations'], 'every dictionary (set of v-grams over any integers) and every input sequence',
 'The tests parse a few short sequences with a handful of dictionaries over small alphabets; lossiness appears only for particular overlaps between v-grams and input or for unknown symbols.',
 [ID, A + 'int_dict.cc'], [('greedy parse', ID + ' linearParse'), ('longest-prefix lookup with parent links', ID + ' search'), ('extension by an unknown symbol', ID + ' search')], ['result of parse on a dictionary'])
prop('P02', 'Frequency-weighted parsing is lossless for every dictionary and weights',
 'Parsing with symbol frequencies yields ids whose v-grams concatenate to exactly the input, whatever the frequencies are and however many of them are given. They are appended to the output. Unknown symbols in the input are kept as v-grams of their own.',
 ['inputs', 'configurations'], 'every dictionary, every input, every frequency vector (shorter than, equal to or longer than the dictionary)',
 'The tests use only a few inputs whose symbols are all known; back-tracking errors depend on ties, on which prefix wins and on where unknown symbols sit.',
 [ID, SD], [('dynamic programme over positions and its back-tracking', ID + ' weightedParse'), ('statistics dictionary delegating to it', SD + ' parse')], ['result of the weighted parse'])
prop('P03', 'Greedy parsing takes the longest matching v-gram at every position',
 'At every position the greedy parse reaches, it chooses the longest v-gram of the dictionary that occurs there.',
 ['inputs', 'configurations'], 'every dictionary and every input, known and unknown symbols mixed',
 'Whether a longer v-gram is overlooked depends on the sorted neighbourhood of the input among the v-grams; the tests try a few neighbourhoods.',
 [ID], [('binary search, then walk along parent links', ID + ' search')], ['result of the greedy parse and of a lookup'])
prop('P04', 'Lookups and parses with excluded v-grams respect the exclusions',
 'A lookup with a set of excluded ids returns the longest v-gram that is a prefix of the query and not excluded, or reports that there is none. A parse with exclusions uses the longest allowed v-gram at each position, skips symbols nothing allowed matches, and neither the dictionary nor the set is changed.',
 ['inputs', 'configurations'], 'every dictionary, query and set of excluded ids (also ids that do not exist)',
 'The tests exclude one id in one dictionary.', [ID], [('lookup with exclusions', ID + ' search'), ('parse with exclusions', ID + ' linearParse')], ['lookup and parse results'])
prop('P05', 'A dictionary built from v-grams contains exactly them, sorted, findable',
 'A dictionary built from distinct v-grams has one entry for each, in lexicographic order, lists them under their ids, and finds every one of them. The order in which they are given makes no difference.',
 ['inputs'], 'every finite set of v-grams in every order', 'The tests build dictionaries from a few lists.', [ID], [('construction', ID + ' init')], ['size, alphabet, get, search'])
prop('P06', 'The parent of a v-gram is its longest proper prefix in the dictionary',
 'For every v-gram of a newly built dictionary the reported parent is the longest other v-gram that is a proper prefix of it, and none if there is no such v-gram.',
 ['inputs'], 'every finite set of v-grams', 'Which entry is on top of the construction stack depends on all of its predecessors; tests check a few fixed dictionaries.', [ID], [('prefix stack', ID + ' init')], ['parent'])
prop('P07', 'Ids stay valid when parsing adds unknown symbols',
 'Parsing a sequence with unknown symbols adds one single-symbol entry for each of them and changes nothing else: existing ids keep their meaning, no symbol gets two entries, and every entry can be found under its id afterwards. Parsing the same sequence again adds nothing and gives the same result.',
 ['inputs', 'histories'], 'every dictionary and every series of parses', 'It needs a second parse after an extension with symbols in a particular order; the tests parse once.', [ID], [('appending entries to a sorted list', ID + ' search'), ('lookup of appended entries', ID + ' search')], ['alphabet, get, search, size after parses'],
 [('sorted part and appended part', 'ids below the first limit are in order, later ones in order of appearance', A + 'int_dict_p.h')])
prop('P08', 'Weighted parsing finds a most likely segmentation',
 'When every symbol of the input is in the dictionary, no other segmentation of the input into v-grams has a higher likelihood under the given frequencies (add-one smoothed) than the one returned.',
 ['inputs', 'configurations'], 'every dictionary, frequency vector and input whose symbols are known', 'Optimality is a statement about all segmentations; the tests compare one output with one expectation.', [ID, SD], [('dynamic programme', ID + ' weightedParse')], ['result of the weighted parse'])
prop('P09', 'A copied dictionary is equal and independent',
 'A copy of a dictionary has the same entries, ids and parents as the original and parses every sequence in the same way, including one copied after unknown symbols were added. Using the copy never changes the original.',
 ['inputs', 'histories'], 'every dictionary, with and without parses before the copy', 'No test copies a dictionary.', [ID], [('copy constructor', ID + ' IntDictImpl(const IntDictImpl&)')], ['alphabet, parent, parse of both'])
prop('P10', 'Symbol frequencies are exactly the occurrences counted',
 'The frequency a statistics dictionary reports for an id is the number of times parses have emitted it plus what was reported for it explicitly, for every id and after every sequence of parses and reports. A parse appends to its output and counts nothing that was there before. Parses stay lossless while the counts change.',
 ['inputs', 'histories'], 'every dictionary and every series of parses and updates, with unknown symbols and ids beyond the dictionary', 'The tests check the counts after one parse of known symbols.', [SD], [('counting', SD + ' parse, update_symbol'), ('reading', SD + ' freq')], ['freq'],
 [('symbol, parse and pair counts', 'occurrences since construction', A + 'stat_dict_p.h')])
prop('P11', 'Initial frequencies stay with the v-grams they were given for',
 'A statistics dictionary built from v-grams with initial frequencies parses the same way whatever the order in which they were given, and takes the most likely segmentation under them. Initial frequencies do not count as occurrences.',
 ['inputs', 'configurations'], 'every list of v-grams with frequencies, every permutation of it', 'Every test gives v-grams in sorted order or without frequencies.', [SD, ID], [('frequencies follow the sort of the v-grams', SD + ' constructor'), ('ordering', ID + ' freqs_in_dict_order')], ['parse'])
prop('P12', 'Code length per character is the entropy of the emitted v-grams',
 'After any series of parses the reported code length per character is sum f*log(N/f) over the emitted v-grams divided by the number of symbols parsed, and never negative.',
 ['inputs', 'histories'], 'every dictionary and every series of parsed sequences', 'The tests look at one value or only at its sign.', [SD], [('formula', SD + ' code_length_per_char')], ['code length'])
prop('P13', 'The stopping rule fires exactly when enough symbols were counted',
 'A dictionary reports to have seen enough exactly when the number of counted symbols exceeds -log(p)/m for confidence p and minimal probability m. Once it has seen enough it stays so, and a weaker demand is met no later.',
 ['inputs', 'histories', 'configurations'], 'every p, m and count', 'Not tested at all.', [SD], [('threshold', SD + ' enough')], ['enough'])
prop('P14', 'Expansion adds only concatenations of known v-grams seen in the data',
 'When a builder expands its dictionary it keeps every v-gram it had, and everything it adds is the concatenation of two v-grams it had and occurs in the training data. The new dictionary has no duplicates and no empty entries.',
 ['inputs', 'histories'], 'every training sequence and every builder (new, with a declared alphabet, restored)', 'The tests train once on generated text and look at sizes.', [SD, VBU], [('expansion', SD + ' expand'), ('update cycle', VBU + ' update')], ['result after accept'])
prop('P15', 'Reduction keeps single symbols and respects the dictionary size',
 'When a builder reduces its dictionary it only removes v-grams, never a single symbol, and the result does not exceed the declared size unless the symbols alone do.',
 ['inputs', 'histories', 'configurations'], 'every training sequence, alphabet and declared size', 'Tests check an upper bound on the size once; the loss of a particular symbol depends on counts and scores.', [SD, VBU], [('reduction', SD + ' reduce, filter_stat_items, stat_items'), ('slots', VBU + ' update')], ['result after accept'])
prop('P16', "A builder's minimal probability is positive and never grows",
 'The minimal probability a builder reports is positive from the start and never increases while it is trained.',
 ['inputs', 'histories'], 'every builder and every training history', 'Never read by a test.', [SD, VBU], [('minimum over kept v-grams', SD + ' expand, reduce'), ('report', VBU + ' get_min_probability')], ['get_min_probability'])
prop('P17', 'Frequencies of the result line up with its v-grams and count the data',
 'At every moment of training a builder gives exactly one non-negative frequency for each v-gram of its current dictionary. Right after a dictionary is installed they are zero, and frequencies times v-grams spell exactly the symbols accepted since.',
 ['inputs', 'histories'], 'every builder and every training history, asked at every point', 'The tests compare the two sizes once, with symbols all known.', [VBU, SD], [('padding and copy', VBU + ' result_freqs'), ('counts', SD + ' parse')], ['result_freqs and result'])
prop('P18', 'Training is deterministic and independent of verbosity',
 'Two builders constructed alike and fed the same sequences have the same v-grams, frequencies and minimal probability, also when one of them prints progress.',
 ['inputs', 'histories', 'configurations'], 'every training history, kind of builder and verbosity', 'No test trains two builders and compares.', [VBU, A + 'fast_random.cc', SD], [('fixed-seed generator', A + 'fast_random.cc'), ('update cycle', VBU + ' update')], ['result, result_freqs, get_min_probability of both'])
prop('P19', 'A builder survives every history of calls with a consistent dictionary',
 'No sequence of accepting sequences (empty ones and unknown symbols included), asking for frequencies and parsing with the result crashes, hangs or touches memory it does not own. After each call the current dictionary has distinct non-empty v-grams, each found under its id with a proper prefix as parent, and a frequency for each.',
 ['inputs', 'histories', 'configurations'], 'every history of calls on new and restored builders', 'Memory errors need an unknown symbol at a particular moment (after frequencies were read, during a reduction of v-grams that cannot be spelled otherwise); the tests train on known alphabets in one go.', [VBU, SD, ID], [('growth of the frequency vectors', SD + ' update_symbol'), ('rebuild', VBU + ' update')], ['result, result_freqs, alpha, sanitizer'])
prop('P20', 'Symbol codes are dense, stable and reversible',
 'Encoding gives each distinct symbol the next free code, in order of first appearance, and never changes it; decoding gives the symbols back. Encoding in read-only mode keeps the known symbols in order, drops the others, and learns nothing.',
 ['inputs', 'histories'], 'every history of encoded sequences over any integers', 'The tests encode one or two sequences.', [I + 'seq_coder.cc'], [('code table', I + 'seq_coder.cc')], ['encode, decode, read-only encode, code map'])
prop('P21', 'Token codes identify tokens, also with a restored code table',
 'A tokenizer gives equal tokens equal codes and different tokens different codes, over any number of calls, and decoding gives the tokens back and skips codes that were never given. A tokenizer restored from a code table keeps the codes of the table and never gives one of them to a new token.',
 ['inputs', 'histories', 'configurations'], 'every series of texts and every restored table', 'Restored tables with codes that are not 0..n-1 are not tested.', [TK + 'base_tokenizer.cc'], [('code table and its inverse', TK + 'base_tokenizer.cc')], ['transform, decode'])
prop('P22', 'Character tokenizer keeps exactly the letters and digits, lowercased',
 'The character tokenizer lowercases letters, keeps digits, removes everything else and keeps the order; doing so twice changes nothing. Each remaining character is one token and decoding gives the normalised text.',
 ['inputs'], 'every byte string', 'Tests normalise a few ASCII words.', [TK + 'char_tokenizer.cc'], [('normalisation', TK + 'char_tokenizer.cc')], ['normalize, tokenize, transform, decode'])
prop('P23', 'Word tokenizer yields exactly the maximal runs without spaces',
 'The word tokenizer splits a text into its maximal runs of non-space characters, in order and unchanged, however many spaces stand before, between or after them.',
 ['inputs'], 'every byte string', 'Tests use single spaces between words.', [TK + 'word_tokenizer.cc'], [('splitting', TK + 'word_tokenizer.cc')], ['tokenize, transform, decode'])
prop('P24', 'Batches are tokenized and decoded like their texts one by one',
 'Tokenizing or decoding a batch gives, for each text and in order, what a tokenizer gives that gets the same texts one by one.',
 ['inputs'], 'every batch of texts, empty texts and empty batches included', 'Tests use one batch of two words.', [TK + 'base_tokenizer.cc'], [('batch versions', TK + 'base_tokenizer.cc')], ['transform and decode of batches'])
prop('P25', 'Fitting a model counts the training data and parses it without loss',
 'After fitting, every training symbol is a v-gram, frequencies times v-grams give exactly the symbols of the training data, and transforming the training data is lossless. Fitting again changes nothing, and a restored model keeps its v-grams and, if asked to, recounts them.',
 ['inputs', 'histories', 'configurations'], 'every training set and every choice of the random generator', 'The tests fit on one random text and compare sizes; the counts depend on the random order of the passes.', [VB + 'int_vgram.cc', VB + 'int_stream_vgram.cc'], [('passes and freezing', VB + 'int_vgram.cc fit'), ('recount', VB + 'int_vgram.cc')], ['alphabet, freqs, transform after fit'])
prop('P26', 'A model lists one frequency per v-gram at any time',
 'After any mix of accepting data, updating the dictionary and parsing, the model lists as many frequencies as v-grams, no v-gram twice, and only v-grams made of symbols it was given. Before the first rebuild, the frequencies after an update count exactly the symbols accepted, and an update shows exactly what training with the same data has learned.',
 ['inputs', 'histories'], 'every history of accept, update and parse on new and restored models', 'Tests update once and never parse unknown symbols in between.', [VB + 'int_stream_vgram.cc'], [('snapshot of the dictionary', VB + 'int_stream_vgram.cc update_dict'), ('views', VB + 'int_stream_vgram.cc alphabet, freqs')], ['alphabet, freqs'])
prop('P27', 'Model parsing is lossless on known symbols and repeatable',
 'A model parses any sequence into ids of its alphabet whose v-grams spell the symbols of the sequence it knows, in order, leaving out those it has never seen. Parsing again gives the same ids and leaves the meaning of ids unchanged.',
 ['inputs', 'histories'], 'every trained or restored model and every sequence, also with symbols accepted after the last update', 'Tests parse training data only.', [VB + 'int_stream_vgram.cc', I + 'seq_coder.cc'], [('encode, parse', VB + 'int_stream_vgram.cc parse')], ['parse, alphabet'])
prop('P28', 'A saved streaming model loads with the same v-grams, counts and behaviour',
 'Loading a saved streaming model gives the same symbols, the same v-grams each with its frequency, and the same parse of every sequence; saving and loading once more changes nothing. The loaded model can be trained on.',
 ['inputs', 'histories', 'configurations'], 'every model and every sequence parsed with it', 'Saving and loading has no test.', [VB + 'int_stream_vgram.cc', I + 'loader.h', I + 'saver.h'], [('serialisation', VB + 'int_stream_vgram.cc to_json'), ('restoring', I + 'loader.h')], ['alphabet, freqs, parse of both'])
prop('P29', 'A saved batch model loads with the same v-grams, counts and behaviour',
 'Loading a saved batch model gives the same v-grams each with its frequency and the same transform of every sequence, and the loaded model counts as fitted.',
 ['inputs', 'histories', 'configurations'], 'every fitted or restored model and every sequence', 'Saving and loading has no test.', [VB + 'int_vgram.cc', I + 'loader.h', I + 'saver.h'], [('serialisation', VB + 'int_vgram.cc'), ('restoring', I + 'loader.h')], ['alphabet, freqs, transform of both'])
prop('P30', 'Saved text models load with the same pieces, counts and behaviour',
 'Loading a saved character-based text model, batch or streaming, gives the same textual v-grams each with its frequency and the same output for every text, and it can be trained on.',
 ['inputs', 'histories', 'configurations'], 'every trained character-based text model and every text', 'Text models have no test at all.', [VB + 'string_vgram.cc', VB + 'string_stream_vgram.cc', I + 'loader.h', I + 'saver.h'], [('serialisation with the code table', VB + 'string_vgram.cc'), ('restoring', I + 'loader.h')], ['alphabet, freqs, transform/parse of both'])
prop('P31', 'Text transform yields pieces of the alphabet that spell the text',
 'Transforming a text gives v-grams of the alphabet separated by single spaces that spell, in order, the known characters of the normalised text. After fitting, frequencies times v-grams count the characters of the training text.',
 ['inputs', 'configurations'], 'every training text and every text transformed', 'Text models have no test at all.', [VB + 'string_vgram.cc', TK + 'base_tokenizer.cc'], [('tokenize, transform, decode', VB + 'string_vgram.cc')], ['transform, alphabet, freqs'])
prop('P32', 'Streaming text parse spells the text; contradictory options are rejected',
 'A streaming text model parses a text into pieces of its alphabet that spell, in order, what it knows of the text, whether tokens are characters or words. Creating one with contradictory options is rejected, and only then.',
 ['inputs', 'histories', 'configurations'], 'every training history, text and combination of options', 'Text models have no test at all.', [VB + 'string_stream_vgram.cc', TK + 'base_tokenizer.cc'], [('tokenize, parse, decode', VB + 'string_stream_vgram.cc'), ('option check', VB + 'string_stream_vgram.cc constructors')], ['parse, alphabet, constructors'])
prop('P33', 'Id strings list the ids of a transform, batch by batch element',
 'The textual form of a transform lists the ids of each sequence in order, each preceded by a space, or -1 when there are none. Each sequence of a batch is transformed as if it came alone, and its v-grams spell the known symbols of the sequence.',
 ['inputs', 'configurations'], 'every model and batch, empty sequences included', 'One fixed example is tested, none with an empty result.', [VB + 'int_vgram.cc'], [('rendering', VB + 'int_vgram.cc transform_to_string')], ['transform, transform_to_string, parse'])
prop('P34', 'Sequences are rendered as their numbers in parentheses',
 'A sequence is rendered as its numbers in decimal, separated by single spaces, in parentheses, also when it is empty; the stream form and the string form agree.',
 ['inputs'], 'every sequence of integers', 'Used only for debugging output in tests; no test asserts on it.', [A + 'int_dict.cc', A + 'int_dict.h'], [('rendering', A + 'int_dict.cc')], ['string and stream output'])
prop('P35', 'The generic encoder gives dense codes in order of first appearance',
 'The generic encoder appends exactly one code per item, gives equal items equal codes and each new item the next free one, and reports how many distinct items it has seen.',
 ['inputs', 'histories'], 'every history of batches of items', 'Not tested.', [A + 'list_dict.h'], [('insertion', A + 'list_dict.h')], ['encode, size'])
prop('P36', 'Hashing of sequences agrees with equality',
 'Two equal sequences have the same hash, whatever memory they live in and however they came about.',
 ['inputs'], 'every sequence of integers', 'Not tested directly.', [A + 'vector_hash.h'], [('hash', A + 'vector_hash.h')], ['hash value'])

prop('P37', 'A saved model file holds what the documentation says',
 'The file written by save has the declared size, the minimal probability, the list of symbols in the order of their codes, and one item per v-gram with its codes, its frequency and, for text models, its text; batch models also say that they are fitted and counted. What it lists is what the model shows.',
 ['inputs', 'histories', 'configurations'], 'every trained or restored model', 'Saving and loading has no test; that loading undoes saving does not fix the documented layout.', [VB + 'int_stream_vgram.cc', VB + 'int_vgram.cc', VB + 'string_vgram.cc', VB + 'string_stream_vgram.cc', I + 'saver.h', 'docs/source/save.rst'], [('serialisation', VB + 'int_stream_vgram.cc to_json'), ('texts of v-grams', VB + 'string_vgram.cc')], ['the file written by save'])
prop('P38', 'A fitted or restored model can be trained on',
 'A model that was fitted, restored or updated accepts further data: after the next update the new symbols are v-grams, every earlier symbol still is, frequencies line up with v-grams, everything known is parsed without loss, and the result can be saved and loaded.',
 ['inputs', 'histories', 'configurations'], 'every model and every continuation of its training', 'Tests train a model once, from the beginning.', [VB + 'int_stream_vgram.cc', VB + 'int_vgram.cc', VBU], [('accept and update_dict', VB + 'int_stream_vgram.cc'), ('restored builder', VBU)], ['alphabet, freqs, parse, transform after more training'])
prop('P39', 'Interrupting fit or transform leaves a usable model',
 'When training is interrupted, fit returns null and the model can be fitted again with the full guarantees of fitting. An interrupted transform gives a beginning of what the whole one gives, and does not change the model.',
 ['inputs', 'fault_sequences'], 'every training set and every point of interruption', 'No test interrupts a model.', [VB + 'int_vgram.cc'], [('interruption points', VB + 'int_vgram.cc fit, recompute_freqs, transform, transform_to_string')], ['fit, transform, transform_to_string, alphabet, freqs'])
prop('P40', 'A model depends on its own data only',
 'Two models made alike and given the same data show the same v-grams, frequencies and parses, whatever other models in the process are trained on or asked in between, and whether or not they print progress.',
 ['inputs', 'histories', 'configurations'], 'every interleaving with other models', 'Tests use one model at a time.', [VB + 'int_stream_vgram.cc', I + 'seq_coder.cc', VBU, A + 'fast_random.cc', TK + 'base_tokenizer.cc'], [('state of a model', VB + 'int_stream_vgram.h'), ('seeded generator', A + 'fast_random.cc')], ['alphabet, freqs, parse of both'])
prop('P41', 'Ids and frequencies keep their meaning until the next update',
 'Between two updates of the dictionary, nothing that a user does with a model (accepting data, parsing, saving, looking at it) changes the v-gram an id stands for or the frequency shown for it. Only single symbols without occurrences can be added at the end.',
 ['inputs', 'histories'], 'every series of calls between two updates', 'Tests do not use a result after further calls.', [VB + 'int_stream_vgram.cc', VBU, ID], [('snapshot taken by update_dict', VB + 'int_stream_vgram.cc update_dict')], ['alphabet, freqs before and after'])
prop('P42', 'Model parsing is most likely under the frequencies the model shows',
 'When every symbol of a sequence is a v-gram of the model, no other segmentation of it into v-grams of the model is more likely (add-one smoothed) under the frequencies the model shows than the one parse returns.',
 ['inputs', 'configurations'], 'every trained or restored model and every sequence of known symbols', 'Tests do not compare with other segmentations; frequencies out of step with v-grams show up only here.', [VB + 'int_stream_vgram.cc', ID, I + 'loader.h'], [('frequencies passed to the weighted parse', VB + 'int_stream_vgram.cc parse'), ('frequencies in dictionary order', ID + ' freqs_in_dict_order')], ['parse, alphabet, freqs'])

prop('P43', 'What repeats is learned, also by a loaded model',
 'A sequence of two or more different symbols that a builder or model sees over and over is, once its dictionary has been rebuilt with room for v-grams, parsed into fewer v-grams than it has symbols. This holds for new ones and for those restored or loaded from a file, however little they had learned before. No dictionary exceeds its declared size unless the symbols alone do, and no symbol loses its entry.',
 ['inputs', 'histories', 'configurations'], 'every sequence of different symbols, every kind of builder and model, declared sizes with and without room', 'The tests train new builders on one alphabet; none trains a restored one or uses a size near the number of symbols.', [VBU, SD, VB + 'int_stream_vgram.cc', I + 'loader.h'], [('slots', VBU + ' update'), ('selection', SD + ' expand, reduce'), ('restoring', VB + 'int_stream_vgram.cc constructor')], ['parse, alphabet'])

def na(id, title, statement, over, quant, why, files, mech, observe, reason):
    prop(id, title, statement, over, quant, why, files, mech, observe); NA.append(dict(property=id, reason=reason))
na('P90', 'Training improves compression of the training text', 'The dictionary learned from a text encodes further text from the same source in fewer bits per character than the plain symbols do.',
 ['inputs', 'histories'], 'every stationary source and sufficiently long text', 'The tests try one generated source.', [SD, VBU], [('scores of candidate v-grams', SD + ' expand, stat_items')], ['code_length'],
 'A statement about expectations over long random texts (tens of thousands of symbols, sampled scores): no bound on length that a symbolic execution can reach makes it true, so there is no bounded assertion to hand to the solver.')
na('P91', 'Sampled probabilities follow the Dirichlet distribution', 'The sampler used for scoring candidates draws from the Dirichlet distribution with the given parameters.',
 ['inputs'], 'every parameter vector', 'A distribution is not settled by samples of a test either.', [A + 'fast_random.cc'], [('sampler', A + 'fast_random.cc')], ['sampled values'],
 'A property of the distribution of floating-point random variates; it is not an assertion over one execution or a bounded set of them.')
na('P92', 'The Python binding returns what the C++ models return', 'Every call through the Python module gives the same result as the C++ model it wraps.',
 ['inputs', 'histories'], 'every call of the binding', 'The Python tests do not run here.', ['binding/src/main/cpp/bind_vgram.cc', 'binding/src/main/cpp/py_int_vgram_builder.h', 'binding/src/main/cpp/py_vgram_builder.h'], [('binding', 'binding/src/main/cpp/bind_vgram.cc')], ['Python results'],
 'The binding needs pybind11 and a compiled extension; neither is in the repository nor installed, so the code cannot be translated or encoded.')
NOTE = ('Bounded: every value of the symbolic inputs within the bounds listed in evidence (bounds, outside_the_bounds), nothing beyond. Trusted: clang 18 -O1, the executor in engine/ and Z3, '
        'the models of out-of-line C++ runtime functions in rt/rt.cc; path witnesses and counterexamples are replayed on an AddressSanitizer build of the same sources.')
JS = ' The JSON library and files are an in-memory stand-in in the encoding, the real ones in replays.'
def main():
    os.chdir(V)
    with open('properties.jsonl', 'w') as f:
        for p in P: f.write(json.dumps(p) + '\n')
    nas = {n['property'] for n in NA}
    import sys; sys.path.insert(0, V); sys.dont_write_bytecode = True
    import specs
    ck = []
    for p in P:
        if p['id'] in nas: continue
        s = specs.SPECS[p['id']]
        ck.append(dict(property=p['id'], quick_cmd='python3 check.py %s' % p['id'], thorough_cmd='python3 check.py %s --tier thorough' % p['id'],
                       technique='symbolic execution of the LLVM bitcode of the current sources, path by path, Z3 deciding every branch and assertion (bounded), counterexamples replayed natively',
                       level='model_checking', level_note=NOTE + (JS if any(j.get('group') == 'full' for j in s['jobs']) else '')))
    assert {c['property'] for c in ck} == set(specs.SPECS), {c['property'] for c in ck} ^ set(specs.SPECS)
    json.dump(dict(version=1, setup_cmd='bash engine/build.sh', checks=ck, not_applicable=NA,
                   notes='No hooks: the checks compile /repo\'s sources as they are.'), open('MANIFEST.json', 'w'), indent=1)
    open('MANIFEST.json', 'a').write('\n')
main()
