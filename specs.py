# What each check runs.  params are the vs_param values of the harness (see the first lines of
# harness/<h>.cc), one run of the engine per tuple; job key tier: 'both' (default), 'quick', 'thorough'.
COMMON_ASSUMPTIONS = [
  'C++ standard library: headers are compiled and executed as they are (libstdc++ 13, with its container assertions); out-of-line parts are modelled in rt/rt.cc (hash tables with one bucket, unbalanced red-black trees, integer formatting, C-locale character classes, output streams)',
  'floating point: doubles are concrete or exact functions of small symbolic integers; a branch on a double that is neither is taken both ways and counted in floating_point_branches_overapproximated',
  'allocation never fails; every load, store, free and container precondition is checked on every path',
  'the compiler (clang 18 -O1) preserves the meaning of the source; a sample of path witnesses and every counterexample is replayed on a g++ AddressSanitizer build of the same sources',
]
JSON_NOTE = 'the third-party JSON library and file streams are replaced by an in-memory value tree in the encoding (rt/stub_json.h); replays use the real ones; the header word_splitter.h that the repository lacks is an empty file'
SPECS = {}
def prop(pid, **kw): SPECS[pid] = kw
def J(h, params, **kw): return dict(h=h, params=params, **kw)
def Q(h, params, **kw): return dict(h=h, params=params, quick_only=True, **kw)
def T(h, params, **kw): return dict(h=h, params=params, thorough_only=True, **kw)
ALLSYM = 'every symbol is any 32-bit integer'

# ---------------------------------------------------------------- dictionary
DICT_B = ('dictionaries of 0 to 3 distinct v-grams of length 1 to 3 and inputs of length 0 to %s, ' + ALLSYM + '; and fixed dictionaries of up to 30 (thorough: 60) v-grams of length up to 5 (6) over 2 or 3 symbols with every input of length up to %s over those symbols and two others')
prop('P01', bounds=DICT_B % ('4 (3 with three v-grams; thorough: 5)', '7 (8)') + '; inputs of 43 to 1203 symbols with a stretch of up to 5 arbitrary ones in the middle (known symbols, or all different unknown ones), on dictionaries of 40 to 600 fixed v-grams' + '; v-grams of length up to 40' + '; v-grams of length up to 150' + '; dictionaries of up to 1200 v-grams nested in each other to a length of up to 600 (every beginning of a sequence is a v-gram), in inputs of up to 1400 symbols that leave the chains at arbitrary points; dictionaries of 70000 v-grams' + '; inputs of 10000 symbols all unknown but one', outside='larger symbolic dictionaries and longer inputs', jobs=[
  J('greedy', [(0, n, 3, L, 1) for n in (0, 1, 2) for L in (0, 1, 3, 4)] + [(0, 3, 3, 3, 1)]),
  J('greedy', [(m, 30, 5, 7, 1) for m in range(1, 7)]),
  T('greedy', [(0, 3, 3, 4, 1)], split=8), T('greedy', [(0, 2, 4, 5, 1), (0, 4, 2, 3, 1)], split=4), T('greedy', [(m, 60, 6, 8, 1) for m in range(7, 15)]),
  J('greedy', [(1, 300, 8, 4, 1, 150), (2, 300, 8, 4, 1, 150), (4, 600, 6, 3, 1, 600, 0, 6), (1, 40, 12, 5, 1, 20)]),
  T('greedy', [(3, 120, 4, 3, 1, 40, 1, 5), (5, 1500, 9, 4, 1, 400, 0, 8)]),
  J('greedy', [(1, 80, 40, 3, 1, 120, 3)]),
  J('greedy', [(2, 60, 150, 2, 1, 200, 3)]),
  J('greedy', [(101, 60, 40, 2, 1, 60, 3, 3), (102, 300, 300, 1, 1, 300, 3, 3), (1, 70000, 9, 1, 1, 50, 3, 12), (1, 300, 300, 1, 1, 1000, 3)], maxinst=8000000000),
  T('greedy', [(1, 5000, 9, 2, 1, 300, 3, 8), (2, 300, 8, 1, 1, 20000, 0), (2, 70000, 20, 2, 1, 200, 3, 2)], maxinst=8000000000),
  J('greedy', [(2, 30, 4, 1, 1, 5000, 1)], maxinst=16000000000),
])
prop('P02', bounds=DICT_B % ('3 (thorough: 4)', '6 (8)') + '; frequencies 0 or 1 each on symbolic dictionaries, arbitrary fixed ones up to 300 on the others, with the frequency vector shorter than, as long as or longer than the dictionary' + '; inputs of 83 to 304 symbols with a stretch of up to 4 arbitrary ones in the middle (known symbols, or all different unknown ones), on dictionaries of 100 to 300 fixed v-grams, frequencies up to 1000000' + '; v-grams of length up to 30' + '; dictionaries of up to 1200 v-grams nested in each other to a length of up to 600 (every beginning of a sequence is a v-gram), in inputs of up to 1400 symbols that leave the chains at arbitrary points; dictionaries of 70000 v-grams' + '; 5000 symbols over 20 with frequencies up to 1000000', outside='larger symbolic dictionaries and longer inputs', jobs=[
  J('weighted', [(0, n, 3, L, 2, 1) for n in (0, 1, 2) for L in (0, 1, 2, 3)] + [(0, 2, 2, 2, 2, 1, -1), (0, 2, 2, 2, 2, 1, 1), (0, 1, 2, 3, 2, 1, -1)]),
  J('weighted', [(m, 30, 5, 6, 2, 30) for m in range(1, 7)] + [(m, 30, 5, 5, 2, 300, -15) for m in (1, 2)]),
  T('weighted', [(0, 2, 3, 4, 2, 1), (0, 3, 2, 3, 2, 1), (0, 3, 3, 3, 2, 1)], split=2), T('weighted', [(m, 60, 6, 8, 2, 300) for m in range(7, 13)]),
  J('weighted', [(1, 300, 8, 4, 2, 1000, 0, 150), (2, 300, 8, 4, 2, 1000000, 0, 150), (3, 300, 4, 4, 2, 100, -200, 60, 2, 5)]),
  T('weighted', [(3, 120, 4, 3, 2, 10, 5, 40, 1, 5), (5, 1500, 9, 4, 2, 100000, -500, 400, 0, 8)]),
  J('weighted', [(1, 40, 30, 3, 2, 1000, 0, 60, 3)]),
  J('weighted', [(101, 60, 40, 2, 2, 100, 0, 60, 3, 3), (102, 300, 300, 1, 2, 1000, 0, 300, 3, 3), (1, 70000, 9, 1, 2, 1000, -20000, 50, 3, 12), (1, 300, 300, 1, 2, 1000, 0, 500, 3)], maxinst=8000000000),
  T('weighted', [(1, 5000, 9, 2, 2, 1000, 0, 300, 3, 8), (103, 600, 600, 1, 2, 1000, 0, 700, 3, 3)], maxinst=8000000000),
  J('weighted', [(1, 30, 2, 1, 2, 1000000, 0, 5000, 0, 20)], maxinst=8000000000),
])
prop('P03', bounds=DICT_B % ('4 (3 with three v-grams; thorough: 5)', '7 (8)') + '; inputs of 43 to 304 symbols with a stretch of up to 5 arbitrary ones in the middle (known symbols, or all different unknown ones), on dictionaries of 40 to 600 fixed v-grams' + '; v-grams of length up to 40' + '; v-grams of length up to 150' + '; dictionaries of up to 1200 v-grams nested in each other to a length of up to 600 (every beginning of a sequence is a v-gram), in inputs of up to 1400 symbols that leave the chains at arbitrary points; dictionaries of 70000 v-grams', outside='larger symbolic dictionaries and longer inputs', jobs=[
  J('greedy', [(0, n, 3, L, 3) for n in (0, 1, 2) for L in (0, 1, 3, 4)] + [(0, 3, 3, 3, 3)]),
  J('greedy', [(m, 30, 5, 7, 3) for m in range(1, 7)]),
  T('greedy', [(0, 3, 3, 4, 3)], split=8), T('greedy', [(0, 2, 4, 5, 3), (0, 4, 2, 3, 3)], split=4), T('greedy', [(m, 60, 6, 8, 3) for m in range(7, 15)]),
  J('greedy', [(1, 300, 8, 4, 3, 150), (2, 300, 8, 4, 3, 150), (1, 40, 12, 5, 3, 20), (4, 600, 6, 3, 3, 20, 0, 6)]),
  T('greedy', [(3, 120, 4, 3, 3, 40, 1, 5), (5, 1500, 9, 4, 3, 40, 0, 8)]),
  J('greedy', [(2, 80, 24, 3, 3, 60, 3), (1, 60, 40, 2, 3, 100, 3)]),
  J('greedy', [(2, 60, 150, 2, 3, 200, 3)]),
  J('greedy', [(101, 60, 40, 2, 3, 60, 3, 3), (102, 300, 300, 1, 3, 300, 3, 3), (1, 70000, 9, 1, 3, 20, 3, 12), (103, 1200, 600, 1, 3, 700, 3, 3), (104, 120, 60, 3, 3, 40, 3, 2)], maxinst=8000000000),
  T('greedy', [(1, 5000, 9, 2, 3, 300, 3, 8), (103, 1200, 1200, 1, 3, 3000, 3, 3), (2, 70000, 20, 2, 3, 50, 3, 2)], maxinst=8000000000),
])
prop('P04', bounds='dictionaries of 0 to 2 (thorough: 3) distinct v-grams of length up to 3, query length 0 to 3, any 32-bit symbols, every subset of the ids excluded; and fixed dictionaries of 25 (40) v-grams over 2 or 3 symbols with queries of length 5 (6)' + '; dictionaries that a parse extended before by one or two symbols; and queries of 42 to 122 symbols, two of them arbitrary, on dictionaries of 25 to 300 v-grams' + '; v-grams of length up to 30' + '; v-grams of length up to 150' + '; dictionaries of up to 300 v-grams nested in each other to a length of up to 300 (every beginning of a sequence is a v-gram)', outside='larger symbolic dictionaries', jobs=[
  J('excl', [(0, n, 3, L) for n in (0, 1, 2) for L in (0, 1, 2, 3)] + [(0, 3, 2, 2)], reach=['end', 'found', 'none']),
  J('excl', [(m, 25, 4, 5) for m in range(1, 5)]),
  T('excl', [(0, 3, 3, 3), (0, 3, 2, 3), (0, 2, 4, 4)], split=4), T('excl', [(5, 40, 5, 6), (6, 40, 5, 6)]),
  J('excl', [(0, 1, 2, 2, 0, 0, 2), (0, 2, 2, 1, 0, 0, 1), (2, 300, 8, 2, 60), (4, 300, 5, 2, 30, 2)], reach=['end', 'found', 'none', 'grown']),
  T('excl', [(2, 50, 4, 2, 20, 1, 1), (2, 30, 5, 2, 5, 2, 1)], split=2), T('excl', [(2, 300, 8, 4, 100), (1, 25, 4, 4, 20, 2), (5, 1500, 9, 2, 200)]),
  J('excl', [(2, 60, 20, 2, 40, 3), (1, 60, 30, 1, 30, 3, 1)], reach=['end', 'found', 'none']),
  J('excl', [(2, 50, 120, 1, 150, 3)]),
  J('excl', [(102, 300, 300, 1, 300, 3), (103, 300, 150, 2, 100, 3), (104, 100, 50, 2, 30, 3)], maxinst=8000000000),
  T('excl', [(103, 1200, 600, 1, 600, 3), (1, 70000, 12, 1, 100, 3)], maxinst=8000000000),
])
prop('P05', bounds='0 to 4 distinct v-grams of length up to 3 (2 with four; thorough: 5), any 32-bit symbols, in any order of insertion; and 23 v-grams of length up to 4 of which three are symbolic' + '; up to 300 v-grams of length up to 8 of which two or three are symbolic' + '; v-grams of length up to 30' + '; up to 5000 (thorough: 70000) fixed v-grams around one to three arbitrary ones, and 300 (1200) nested in each other to a length of up to 300 (400)', outside='larger symbolic dictionaries; repeated v-grams in the input of a construction', jobs=[
  J('misc', [(5, 1, 3), (5, 2, 3), (5, 3, 3), (5, 4, 2), (5, 0, 1), (5, 20, 4, 1), (5, 20, 4, 2)]),
  T('misc', [(5, 4, 3, 0), (5, 5, 2, 0), (5, 40, 5, 1), (5, 60, 5, 2)]),
  J('misc', [(5, 150, 7, 1), (5, 300, 8, 2)]),
  T('misc', [(5, 1500, 9, 2)]),
  J('misc', [(5, 60, 30, 1)]),
  J('misc', [(5, 300, 300, 102), (5, 5000, 12, 2)], maxinst=8000000000),
  T('misc', [(5, 1200, 400, 103), (5, 70000, 20, 2)], maxinst=8000000000),
])
prop('P06', bounds='1 to 4 distinct v-grams of length up to 3 (2 with four; thorough: 5), any 32-bit symbols, in any order of insertion; and 23 v-grams of length up to 4 of which three are symbolic' + '; up to 300 v-grams of length up to 8 of which two or three are symbolic' + '; v-grams of length up to 30' + '; v-grams of length up to 150' + '; up to 5000 (thorough: 70000) fixed v-grams around one to three arbitrary ones, and 300 (1200) nested in each other to a length of up to 300 (400)', outside='larger symbolic dictionaries', jobs=[
  J('misc', [(6, 1, 3), (6, 2, 3), (6, 3, 3), (6, 4, 2), (6, 20, 4, 1), (6, 20, 4, 2)], reach=['end', 'parent']),
  T('misc', [(6, 4, 3), (6, 5, 2), (6, 40, 5, 1), (6, 60, 5, 2)]),
  J('misc', [(6, 150, 7, 1), (6, 300, 8, 2)], reach=['end', 'parent']),
  T('misc', [(6, 1500, 9, 2)], reach=['end', 'parent']),
  J('misc', [(6, 60, 30, 2)], reach=['end', 'parent']),
  J('misc', [(6, 60, 150, 1)], reach=['end', 'parent']),
  J('misc', [(6, 300, 300, 102), (6, 5000, 12, 2)], reach=['end', 'parent'], maxinst=8000000000),
  T('misc', [(6, 1200, 400, 103), (6, 70000, 20, 2)], reach=['end', 'parent'], maxinst=8000000000),
])
prop('P07', bounds='dictionaries of 0 to 2 v-grams of length up to 3 (thorough: 3 of length 2), inputs of length up to 3 (4) parsed forwards, again and backwards, any 32-bit symbols; and fixed dictionaries of 30 (60) v-grams with inputs of length 6 (7) including unknown symbols' + '; inputs of 63 to 84 symbols with a stretch of up to 5 arbitrary ones in the middle (known symbols, or all different unknown ones), on dictionaries of 40 to 600 fixed v-grams' + '; dictionaries of up to 70000 v-grams, or nested to a length of 300' + '; inputs of 2400 symbols all unknown but one', outside='longer histories of parses than three', jobs=[
  J('greedy', [(0, n, 3, L, 7) for n in (0, 1, 2) for L in (0, 1, 3)]),
  J('greedy', [(m, 30, 5, 6, 7) for m in range(1, 7)], reach=['end']),
  T('greedy', [(0, 2, 3, 4, 7), (0, 3, 2, 3, 7)], split=4), T('greedy', [(m, 60, 6, 7, 7) for m in range(7, 13)]),
  J('greedy', [(2, 100, 4, 3, 7, 40, 2), (1, 300, 8, 4, 7, 30)], reach=['end']),
  T('greedy', [(3, 120, 4, 3, 7, 40, 1, 5), (5, 1500, 9, 4, 7, 40, 2, 8)], reach=['end']),
  J('greedy', [(101, 300, 300, 1, 7, 50, 0, 3), (1, 70000, 9, 1, 7, 50, 0, 12)], reach=['end'], maxinst=8000000000),
  T('greedy', [(1, 5000, 9, 2, 7, 300, 2, 8), (4, 300, 6, 1, 7, 1500, 1)], reach=['end'], maxinst=8000000000),
  J('greedy', [(1, 30, 4, 1, 7, 1200, 1)], reach=['end', 'extended'], maxinst=16000000000),
])
prop('P08', bounds='dictionaries of 1 or 2 (thorough: 3) v-grams of length up to 3 containing every symbol of an input of length 0 to 3 (4), any 32-bit symbols, frequencies 0 or 1 (2); and fixed dictionaries of 30 (60) v-grams with frequencies up to 30 and every input of length 6 (8)' + '; inputs of 82 to 304 symbols with a stretch of up to 4 arbitrary ones in the middle (known symbols, or all different unknown ones), on dictionaries of 100 to 300 fixed v-grams, frequencies up to 1000000' + '; v-grams of length up to 30' + '; v-grams of length up to 150' + '; dictionaries of up to 600 v-grams nested in each other to a length of up to 600 (every beginning of a sequence is a v-gram), in inputs of up to 1400 symbols that leave the chains at arbitrary points; dictionaries of 70000 (thorough) v-grams' + '; 5000 symbols over 20 with frequencies up to 1000000', outside='likelihood differences below 1e-9; larger symbolic dictionaries', jobs=[
  J('weighted', [(0, n, 3, L, 8, 1) for n in (1, 2) for L in (0, 1, 2, 3)]),
  J('weighted', [(m, 30, 5, 6, 8, 30) for m in range(1, 7)]),
  T('weighted', [(0, 2, 3, 4, 8, 2), (0, 3, 2, 3, 8, 1), (0, 3, 3, 3, 8, 1)]), T('weighted', [(m, 60, 6, 9, 8, 300) for m in range(7, 13)]),
  J('weighted', [(2, 300, 8, 4, 8, 1000000, 0, 150), (2, 100, 4, 3, 8, 100000, 0, 40, 0, 8)]),
  T('weighted', [(5, 1500, 9, 4, 8, 100000, 0, 400, 0, 8)]),
  J('weighted', [(2, 60, 24, 2, 8, 1000, 0, 60, 3), (1, 40, 30, 2, 8, 1000, 0, 40, 3)]),
  J('weighted', [(2, 60, 150, 2, 8, 1000, 0, 200, 3)]),
  J('weighted', [(101, 60, 40, 2, 8, 100, 0, 60, 3, 3), (102, 300, 300, 1, 8, 1000, 0, 300, 3, 3), (1, 300, 300, 1, 8, 1000, 0, 500, 3), (103, 600, 600, 1, 8, 1000, 0, 700, 3, 3)], maxinst=8000000000),
  T('weighted', [(1, 5000, 9, 2, 8, 1000, 0, 300, 3, 8), (1, 70000, 9, 1, 8, 1000, 0, 20, 3, 12)], maxinst=8000000000),
  J('weighted', [(1, 30, 2, 1, 8, 1000000, 0, 5000, 0, 20)], maxinst=8000000000),
])
prop('P09', bounds='dictionaries of 0 to 2 (thorough: 3) v-grams of length up to 2, one optional parse before the copy and one after it of length 2 (3), any 32-bit symbols' + '; 60 or 200 fixed v-grams of length up to 6 and inputs of up to 122 symbols', outside='copies of copies', jobs=[
  J('misc', [(9, 0, 2), (9, 1, 2), (9, 2, 2)]), T('misc', [(9, 2, 3), (9, 3, 2)], split=4),
  J('misc', [(9, 60, 2, 1), (9, 200, 2, 2, 60)]),
  T('misc', [(9, 60, 3, 1), (9, 900, 2, 3, 200)]),
])
# ---------------------------------------------------------------- statistics
prop('P10', bounds='1 to 3 v-grams of length up to 2, one to three operations (parse of an input of length up to 4, or a reported count of 0 to 2 on a known or new id), any 32-bit symbols' + '; repeated operations (260 times) and reported counts of up to 50000000 each; and 30 fixed v-grams of length up to 5 with inputs of 43 symbols' + '; one output for all parses', outside='longer operation sequences', jobs=[
  J('stat', [(10, n, 2, L, K, v) for n, L, K in ((0, 2, 2), (1, 2, 2), (2, 2, 1), (2, 3, 1), (1, 1, 3)) for v in (0, 1)] + [(10, 2, 2, 2, 2, 0), (10, 1, 2, 3, 2, 0)], reach=['end', 'update']),
  T('stat', [(10, 3, 2, 2, 1, 0), (10, 2, 2, 4, 1, 0), (10, 2, 2, 3, 2, 0), (10, 1, 2, 2, 3, 1), (10, 2, 3, 2, 2, 1), (10, 1, 2, 2, 4, 0)]),
  J('stat', [(10, 2, 2, 2, 2, 1, 1, 0, 0, 0, 1), (10, 1, 2, 2, 3, 0, 2, 0, 0, 0, 1), (10, 30, 5, 3, 1, 0, 3, 2, 20, 1, 1)], reach=['end', 'appended']),
  J('stat', [(10, 1, 2, 2, 2, 1, 2), (10, 30, 5, 3, 1, 0, 3, 2, 20, 1), (10, 2, 2, 2, 1, 0, 260)], reach=['end']),
  T('stat', [(10, 2, 2, 5, 1, 0), (10, 12, 4, 3, 2, 0, 300, 1)], reach=['end']),
])
prop('P11', bounds='three symbols and one v-gram of length up to 3 or two of length 2 (thorough: two of length 3), frequencies of the longer v-grams in {0, 5, 10}, all rotations and reversals of the given order, every input of length up to 4 (5)' + '; frequencies of 50000000 to 1000000000 each', outside='other orders and frequencies', jobs=[
  J('stat', [(11, 1, 3, 4), (11, 2, 2, 3)]), T('stat', [(11, 2, 3, 3)], split=4), T('stat', [(11, 1, 3, 5), (11, 2, 2, 4)]),
  J('stat', [(11, 1, 3, 4, 0, 100000000), (11, 2, 2, 2, 0, 100000000)]),
])
prop('P12', bounds='builders that start empty, with two declared symbols or restored, fed up to 2000 times with one or two sequences of 2 or 3 symbols, up to 2 rebuilds; dictionaries of 0 to 2 v-grams of length up to 2, one or two (thorough: three) inputs of length 0 to 3, any 32-bit symbols' + '; 20 fixed v-grams of length up to 5 with inputs of 23 symbols; dictionaries of 2 v-grams of length up to 3' + '; 20 fixed v-grams with inputs of 1200 symbols' + '; one output for all parses', outside='relative error below 1e-9', jobs=[
  J('stat', [(12, 1, 2, 2, 2), (12, 2, 2, 3, 1), (12, 0, 1, 3, 2)], reach=['end', 'measured']), T('stat', [(12, 1, 2, 3, 2), (12, 2, 2, 2, 2), (12, 0, 1, 2, 3)], reach=['end', 'measured']),
  J('stat', [(12, 1, 2, 2, 2, 0, 1, 0, 0, 0, 1)], reach=['end', 'measured']),
  J('stat', [(12, 2, 3, 3, 1), (12, 20, 5, 3, 2, 0, 1, 2, 10, 1)], reach=['end', 'measured']),
  T('stat', [(12, 20, 5, 3, 2, 0, 2, 1, 10)], reach=['end', 'measured']),
  J('stat', [(12, 1, 3, 3, 2)], reach=['end', 'measured']),
  J('builder', [(12, 0, 0, 1, 3, 6, 2000, 2, 2), (12, 1, 2, 2, 2, 6, 2000, 2, 2), (12, 3, 2, 1, 3, 4, 2000, 2, 2)], reach=['end', 'measured', 'rebuilt']),
  J('stat', [(12, 20, 5, 1, 1, 0, 1, 2, 600, 0), (12, 20, 5, 1, 1, 0, 1, 2, 600, 1)], reach=['end', 'measured'], maxinst=16000000000),
])
prop('P13', bounds='minimal probability m/20 for m = 1..40, confidence p/20 for p = 1..19, every pair of counts 0..12 reported in two steps' + '; minimal probabilities of 0.0001 to 0.01 with counts up to the threshold and beyond', outside='values within 1e-6 of the threshold', jobs=[J('stat', [(13,)], reach=['end', 'enough']),
  J('stat', [(13, 0, 0, 0, 0, 1)], reach=['end', 'enough']),
])
# ---------------------------------------------------------------- vocabulary builder
BU = 'one or two training sequences with four symbols in all, every symbol any 32-bit integer, accepted alternately up to %s times (builders that start empty); and every pair of sequences of length 2 or 3 over 2 or 3 declared symbols, or restored dictionaries with v-grams, up to %s rebuilds'
BO = 'more than four independent training symbols; training sequences that change over time (see P19)'
prop('P14', bounds=BU % ('2000', '2 (thorough: 4)') + '; fixed sequences of 20 or 30 symbols over 3 to 5 symbols, or two to six symbols repeated in skewed proportions, together with one arbitrary sequence of length 1 to 3 seen every time or once in 3 to 300, up to 20 rebuilds' + '; declared alphabets that contain longer v-grams' + '; alphabets of 300 declared symbols' + '; alphabets of 5000 and 70000 declared symbols of which the largest occur; v-grams of up to 100 symbols grown over 14 rebuilds' + '; declared sizes below the number of symbols; restored the way models are', outside=BO, jobs=[
  J('builder', [(14, 0, 0, 1, 4, 6, 2000, 2, 2), (14, 0, 0, 2, 2, 12, 2000, 2, 2), (14, 1, 2, 2, 3, 6, 2000, 2, 2), (14, 2, 3, 2, 2, 7, 2000, 2, 2), (14, 3, 2, 2, 3, 4, 2000, 2, 2), (14, 0, 2, 2, 3, 6, 2000, 2, 1)], reach=['end', 'expanded', 'rebuilt']),
  T('builder', [(14, 0, 0, 1, 5, 6, 2000, 2, 2)], split=4), T('builder', [(14, 1, 2, 2, 4, 6, 4000, 2, 4), (14, 0, 3, 2, 3, 8, 2000, 2, 3), (14, 2, 2, 3, 3, 6, 2000, 2, 3), (14, 3, 2, 2, 4, 4, 4000, 2, 3), (14, 1, 2, 1, 8, 8, 4000, 2, 4)]),
  J('builder', [(14, 1, 4, 1, 2, 20, 3000, 2, 4, 0, 3), (14, 1, 2, 2, 3, 6, 2000, 2, 4)], reach=['end', 'expanded', 'rebuilt']),
  T('builder', [(14, 1, 2, 1, 6, 12, 3000, 2, 5), (14, 2, 5, 1, 1, 60, 4000, 2, 4, 0, 6, 30), (14, 0, 4, 1, 1, 20, 4000, 2, 6, 0, 3, 20)], reach=['end', 'rebuilt']),
  J('builder', [(14, 4, 2, 1, 4, 16, 3000, 2, 1)], reach=['end', 'expanded', 'rebuilt']),
  J('builder', [(14, 1, 300, 1, 1, 320, 3000, 2, 1, 0, 6, 40), (14, 0, 600, 1, 1, 620, 3000, 2, 2, 0, 4, 60)], reach=['end', 'rebuilt'], maxinst=8000000000),
  J('builder', [(14, 1, 2, 1, 1, 5020, 3000, 2, 2, 0, 6, 40, 5000), (14, 1, 2, 1, 1, 70020, 30000, 2, 2, 0, 6, 40, 70000)], reach=['end', 'expanded', 'rebuilt'], opts=['--buckets'], maxinst=16000000000), J('builder', [(14, 1, 1, 1, 1, 30, 30000, 2, 14, 0, 1, 100), (14, 1, 2, 1, 1, 30, 30000, 2, 12, 0, 3, 60)], reach=['end', 'long', 'rebuilt'], opts=['--buckets'], maxinst=16000000000), J('builder', [(14, 3, 2, 1, 1, 30, 9000, 2, 12, 0, 3, 60)], opts=['--buckets'], maxinst=16000000000),
  J('builder', [(14, 1, 4, 1, 2, 2, 3000, 2, 3), (14, 2, 4, 1, 2, 0, 3000, 2, 3), (14, 5, 3, 1, 2, 6, 3000, 2, 3)], reach=['end', 'rebuilt']),
])
prop('P15', bounds=BU % ('4000', '4') + '; fixed sequences of 20 or 30 symbols over 4 or 5 symbols, or two to six symbols repeated in skewed proportions, together with one arbitrary sequence of length 1 to 3 seen every time or once in 3 to 300, up to 20 rebuilds' + '; declared alphabets that contain longer v-grams' + '; alphabets of 300 declared symbols (thorough)' + '; alphabets of 5000 declared symbols' + '; declared sizes below the number of symbols; symbols that first occur late or were not declared; restored the way models are, with a declared size', outside=BO, jobs=[
  J('builder', [(15, 0, 0, 1, 4, 3, 2000, 2, 2), (15, 0, 0, 2, 2, 3, 2000, 2, 3), (15, 1, 2, 2, 3, 4, 4000, 2, 4), (15, 2, 3, 2, 2, 5, 2000, 2, 2), (15, 3, 2, 2, 3, 4, 2000, 2, 3), (15, 0, 2, 2, 3, 4, 4000, 2, 4)], reach=['end', 'reduced', 'multi', 'rebuilt']),
  T('builder', [(15, 0, 0, 1, 5, 3, 2000, 2, 2)], split=4), T('builder', [(15, 1, 2, 2, 4, 4, 4000, 2, 4), (15, 2, 3, 2, 3, 5, 2000, 2, 2), (15, 3, 2, 2, 4, 4, 4000, 2, 3), (15, 1, 2, 1, 8, 5, 4000, 2, 6), (15, 1, 3, 1, 5, 3, 3000, 2, 4)]),
  J('builder', [(15, 1, 4, 1, 2, 8, 3000, 2, 4, 0, 3), (15, 0, 4, 1, 1, 9, 4000, 2, 6, 0, 3, 20), (15, 2, 5, 1, 1, 60, 4000, 2, 4, 0, 6, 30)], reach=['end', 'rebuilt']),
  T('builder', [(15, 1, 4, 1, 3, 8, 6000, 2, 8, 0, 3), (15, 1, 4, 1, 2, 60, 9000, 2, 8, 0, 6, 40)], reach=['end', 'rebuilt']),
  J('builder', [(15, 4, 2, 1, 4, 9, 3000, 2, 2)], reach=['end', 'rebuilt']),
  T('builder', [(15, 1, 300, 1, 1, 310, 3000, 2, 2, 0, 6, 40)], reach=['end', 'rebuilt'], maxinst=8000000000),
  J('builder', [(15, 1, 2, 1, 1, 5020, 3000, 2, 2, 0, 6, 40, 5000)], reach=['end', 'rebuilt'], opts=['--buckets'], maxinst=16000000000),
  J('builder', [(15, 0, 0, 1, 3, 1, 3000, 2, 4), (15, 1, 4, 1, 3, 1, 3000, 2, 4), (15, 2, 6, 1, 2, 3, 3000, 2, 4), (15, 4, 2, 1, 3, 3, 3000, 2, 3), (15, 5, 3, 1, 2, 2, 3000, 2, 4), (15, 5, 3, 1, 2, 7, 4000, 2, 4), (15, 0, 0, 2, 2, 1, 4000, 2, 4, 1500), (15, 0, 0, 2, 2, 3, 4000, 2, 4, 2500), (15, 1, 4, 1, 3, 3, 3000, 2, 4, 0, 0, 0, -2), (15, 5, 4, 1, 3, 6, 3000, 2, 4, 0, 0, 0, -3), (15, 1, 3, 2, 2, 4, 4000, 2, 4, 1600, 0, 0, -1)], reach=['end', 'reduced', 'rebuilt']),
  T('builder', [(15, 0, 0, 2, 3, 2, 4000, 2, 4, 2500)]),
])
prop('P16', bounds=BU % ('4000', '4 (thorough: 8)') + '; fixed sequences of 20 symbols over 2 to 4 symbols, or two to six symbols repeated in skewed proportions, together with one arbitrary sequence of length 1 to 3 seen every time or once in 3 to 300, up to 20 rebuilds' + '; declared alphabets that contain longer v-grams' + '; alphabets of 300 declared symbols (thorough)' + '; alphabets of 5000 declared symbols' + '; restored the way models are; sizes below the number of symbols', outside=BO, jobs=[
  J('builder', [(16, 0, 0, 1, 4, 3, 2000, 2, 2), (16, 1, 2, 2, 3, 4, 4000, 2, 4), (16, 1, 2, 1, 3, 4, 2000, 2, 2), (16, 3, 2, 2, 3, 4, 4000, 20, 5), (16, 2, 3, 2, 2, 5, 2000, 2, 2)], reach=['end', 'rebuilt']),
  T('builder', [(16, 0, 0, 1, 5, 3, 2000, 2, 2)], split=4), T('builder', [(16, 1, 2, 2, 4, 4, 6000, 2, 8), (16, 3, 2, 2, 4, 4, 4000, 20, 8), (16, 1, 3, 1, 5, 6, 6000, 2, 6)]),
  J('builder', [(16, 1, 3, 2, 1, 8, 6000, 2, 6, 120), (16, 1, 2, 2, 2, 6, 4000, 2, 6, 300), (16, 1, 4, 1, 2, 12, 6000, 2, 8, 0, 3)], reach=['end', 'rebuilt']),
  T('builder', [(16, 1, 2, 2, 3, 4, 4000, 2, 4, 50), (16, 0, 4, 1, 1, 9, 6000, 2, 8, 0, 3, 20)], reach=['end', 'rebuilt']),
  J('builder', [(16, 4, 2, 1, 4, 9, 3000, 2, 3)], reach=['end', 'rebuilt']),
  T('builder', [(16, 1, 300, 1, 1, 310, 3000, 2, 2, 0, 6, 40)], reach=['end', 'rebuilt'], maxinst=8000000000),
  J('builder', [(16, 1, 2, 1, 1, 5020, 3000, 2, 2, 0, 6, 40, 5000)], reach=['end', 'rebuilt'], opts=['--buckets'], maxinst=16000000000),
  J('builder', [(16, 5, 3, 1, 3, 7, 3000, 2, 4), (16, 1, 4, 1, 2, 1, 3000, 2, 4)]),
])
prop('P17', bounds=BU % ('3000', '3') + '; fixed sequences of 20 symbols over 4 symbols, or two to six symbols repeated in skewed proportions, together with one arbitrary sequence of length 1 to 3 seen every time or once in 3 to 300, up to 20 rebuilds' + '; alphabets of 300 declared symbols (thorough)' + '; alphabets of 5000 declared symbols' + '; restored the way models are; sizes below the number of symbols', outside=BO, jobs=[
  J('builder', [(17, 0, 0, 1, 4, 3, 2000, 2, 2), (17, 1, 2, 2, 3, 4, 3000, 2, 3), (17, 0, 2, 2, 3, 4, 2000, 2, 2), (17, 3, 2, 2, 3, 4, 2000, 2, 2), (17, 2, 3, 2, 2, 5, 2000, 2, 2)], reach=['end', 'counted', 'rebuilt']),
  T('builder', [(17, 0, 0, 1, 5, 3, 2000, 2, 2)], split=4), T('builder', [(17, 1, 2, 2, 4, 4, 4000, 2, 4), (17, 1, 3, 1, 5, 6, 4000, 2, 4), (17, 2, 2, 3, 3, 6, 3000, 2, 3)]),
  J('builder', [(17, 0, 4, 1, 1, 12, 3000, 2, 4, 0, 3, 20)], reach=['end', 'counted', 'rebuilt']),
  T('builder', [(17, 1, 4, 1, 2, 20, 4000, 2, 4, 0, 3), (17, 2, 5, 1, 1, 60, 4000, 2, 4, 0, 6, 30)], reach=['end', 'rebuilt']),
  T('builder', [(17, 2, 300, 1, 1, 320, 3000, 2, 2, 0, 4, 60)], reach=['end', 'rebuilt'], maxinst=8000000000),
  J('builder', [(17, 1, 2, 1, 1, 5020, 3000, 2, 2, 0, 6, 40, 5000)], reach=['end', 'rebuilt'], opts=['--buckets'], maxinst=16000000000),
  J('builder', [(17, 5, 3, 1, 3, 7, 3000, 2, 3), (17, 0, 0, 1, 3, 1, 3000, 2, 4)]),
])
prop('P18', bounds=BU % ('2000', '2 (thorough: 4)') + '; fixed sequences of 20 symbols over 4 symbols, or two to six symbols repeated in skewed proportions, together with one arbitrary sequence of length 1 to 3 seen every time or once in 3 to 300, up to 20 rebuilds' + '; verbosity 0, 1 and 2', outside=BO + '; different machines or standard libraries', jobs=[
  J('builder', [(18, 0, 0, 1, 3, 3, 2000, 2, 2), (18, 1, 2, 2, 3, 4, 2000, 2, 2), (18, 0, 2, 2, 3, 4, 2000, 2, 2), (18, 3, 2, 2, 3, 4, 2000, 2, 2)], reach=['end', 'rebuilt']),
  T('builder', [(18, 0, 0, 1, 4, 3, 2000, 2, 2)]), T('builder', [(18, 1, 2, 2, 4, 4, 4000, 2, 4), (18, 1, 3, 1, 5, 6, 4000, 2, 4), (18, 3, 2, 2, 3, 4, 4000, 2, 4)]),
  J('builder', [(18, 0, 4, 1, 1, 12, 3000, 2, 4, 0, 3, 20)], reach=['end', 'rebuilt']),
  T('builder', [(18, 1, 4, 1, 2, 20, 4000, 2, 4, 0, 3), (18, 2, 5, 1, 1, 60, 4000, 2, 4, 0, 6, 30)], reach=['end', 'rebuilt']),
  J('builder', [(18, 1, 2, 1, 1, 5020, 3000, 2, 2, 0, 6, 40, 5000)], reach=['end', 'rebuilt'], opts=['--buckets'], maxinst=16000000000),
])
prop('P19', bounds='builders that start empty, with one or two symbolic v-grams as alphabet, or restored from them with minimal probability 1 (a rebuild after every third symbol); two or three operations (accept a sequence of length up to 3 once or up to 20 times, ask for frequencies, parse with the result), every symbol any 32-bit integer', outside='longer histories; restored models with more than two v-grams', jobs=[
  J('history', [(2, 1, 2, 3, 1, 4, 1000, 7), (2, 1, 2, 2, 2, 4, 1000, 3), (2, 1, 2, 2, 2, 4, 1000, 1, 6), (2, 1, 3, 1, 3, 4, 1000, 1, 20), (0, 0, 0, 2, 2, 4, 2, 7), (0, 0, 0, 3, 1, 4, 2, 7), (1, 1, 2, 2, 2, 4, 2, 7), (2, 1, 2, 3, 1, 4, 1000, 7, 8)], reach=['end', 'rebuilt']),
  J('history', [(2, 2, 2, 2, 2, 4, 1000, 1)], split=2, reach=['end', 'rebuilt']),
  T('history', [(2, 1, 2, 2, 3, 4, 1000, 1), (1, 1, 2, 3, 2, 4, 2, 3), (2, 1, 2, 3, 2, 4, 1000, 7), (2, 2, 2, 1, 3, 4, 1000, 1, 30), (0, 0, 0, 3, 2, 4, 2, 7)], split=4),
])
# ---------------------------------------------------------------- coders and tokenizers
prop('P20', bounds='one to four sequences encoded, three (thorough: five) symbols each, and a probe of length 1 or 2, ' + ALLSYM + '; 40 or 200 fixed symbols (extreme values included) encoded first' + '; 400 (thorough: 1000) fixed symbols first, 2000 without arbitrary ones' + '; 5000 and 70000 fixed symbols first, then known or new ones', outside='longer histories', jobs=[
  J('coder', [(1, 3, 2), (2, 2, 2), (2, 3, 2), (3, 2, 1), (1, 0, 1)], reach=['end', 'unknown']), T('coder', [(2, 4, 2), (3, 2, 2), (1, 5, 2), (4, 1, 2)]),
  J('coder', [(1, 1, 1, 40), (1, 1, 0, 200)]),
  J('coder', [(1, 1, 0, 400), (1, 0, 0, 2000)], maxinst=8000000000),
  T('coder', [(1, 1, 0, 1000)], maxinst=8000000000),
  J('coder', [(1, 1, 1, 5000), (1, 1, 1, 100000)], opts=['--buckets'], maxinst=16000000000),
])
prop('P21', bounds='one to three texts of one to three tokens, tokenizers that start empty (characters: any byte) or from a loaded map of 2 or 3 tokens with any distinct codes 0..9' + '; 200 fixed words or 90 fixed characters first' + '; 2000 fixed words first', outside='codes above 9 in a loaded map', jobs=[
  J('token', [(21, 0, 2, 2, 0), (21, 0, 1, 3, 0), (21, 0, 2, 2, 2), (21, 0, 1, 3, 3), (21, 1, 2, 2, 2), (21, 1, 2, 3, 0)], reach=['end', 'new']), T('token', [(21, 0, 2, 3, 0), (21, 0, 2, 3, 2), (21, 1, 2, 3, 3), (21, 0, 3, 2, 2)], reach=['end', 'new']),
  J('token', [(21, 1, 1, 2, 0, 200), (21, 0, 1, 1, 0, 90)]),
  J('token', [(21, 1, 1, 2, 0, 2000)], maxinst=8000000000),
])
prop('P22', bounds='texts of 0 to 5 (thorough: 8) arbitrary bytes' + '; 200 or 600 fixed bytes around two arbitrary ones' + '; texts of 10000 (thorough: 140000) bytes', outside='locales other than "C"', jobs=[J('token', [(22, 0, 1, L) for L in range(0, 6)] + [(22, 0, 2, 2)]), T('token', [(22, 0, 1, 6), (22, 0, 1, 7), (22, 0, 1, 8), (22, 0, 2, 4)]),
  J('token', [(22, 0, 1, 2, 0, 100), (22, 0, 2, 1, 0, 300)]),
  J('token', [(22, 0, 1, 2, 0, 5000)], maxinst=8000000000),
  T('token', [(22, 0, 1, 2, 0, 70000)], maxinst=8000000000),
])
prop('P23', bounds='texts of 0 to 6 (thorough: 10) arbitrary bytes' + '; 200 fixed bytes around three arbitrary ones' + '; words of up to 3300 (thorough: 93000) bytes in texts of up to 10000 (140000)', outside='', jobs=[J('token', [(23, 1, 1, L) for L in range(0, 7)], reach=['end', 'many']), T('token', [(23, 1, 1, L) for L in range(7, 11)], reach=['end', 'many']),
  J('token', [(23, 1, 1, 3, 0, 100)], reach=['end', 'many']),
  J('token', [(23, 1, 1, 3, 0, 500), (23, 1, 1, 3, 0, 5000)], reach=['end', 'many'], maxinst=8000000000),
  T('token', [(23, 1, 1, 1, 0, 70000)], maxinst=8000000000),
])
prop('P24', bounds='batches of 0 to 3 texts of 0 to 2 (thorough: 3) arbitrary bytes, both tokenizers' + '; 40 or 300 fixed texts before one or two arbitrary ones' + '; 1000 (3000) fixed texts first', outside='', jobs=[J('token', [(24, 0, 2, 2), (24, 1, 2, 2), (24, 0, 3, 1), (24, 1, 0, 1)]), T('token', [(24, 0, 2, 3), (24, 1, 3, 2), (24, 1, 2, 4)]),
  J('token', [(24, 0, 2, 1, 0, 40), (24, 1, 2, 2, 0, 40), (24, 1, 1, 1, 0, 300)]),
  J('token', [(24, 1, 1, 1, 0, 1000)], maxinst=8000000000),
  T('token', [(24, 1, 1, 1, 0, 3000)], maxinst=8000000000),
])
# ---------------------------------------------------------------- public models
IO = 'training data with more independent symbols; models restored from files not written by this library'
F = dict(group='full')
prop('P25', bounds='one to three training sequences of length up to 3 of any 32-bit symbols, every choice of the random generator in the first two passes; two sequences of length 2 or 3 over two symbols with 300 passes (several rebuilds); restored models with two symbols, one v-gram of length 2 or 3, recounted or not' + '; fixed sequences of 700 symbols, and 130 fixed sequences' + '; no training data and empty sequences', outside=IO, assumptions=[JSON_NOTE], jobs=[
  J('iface', [(25, 0, 0, 2, 2, 6, 2, 0, 0, 0), (25, 0, 0, 3, 1, 6, 1, 0, 0, 0), (25, 0, 0, 2, 2, 6, 1, 0, 0, 2), (25, 1, 2, 1, 3, 6, 0, 1000, 0, 1), (25, 1, 2, 2, 1, 6, 0, 1000, 0, 1), (25, 2, 2, 1, 2, 6, 0, 1000, 0, 1), (25, 0, 2, 2, 2, 6, 1, 0, 0, 0)], **F),
  J('iface', [(25, 0, 2, 2, 3, 6, 300, 0, 0, 0), (25, 0, 0, 1, 4, 6, 320, 0, 0, 0)], opts=['--rand', '1'], reach=['end', 'multi'], **F),
  T('iface', [(25, 1, 2, 2, 2, 6, 0, 1000, 0, 1), (25, 1, 2, 1, 2, 6, 0, 1000, 0, 2), (25, 0, 0, 2, 3, 6, 2, 0, 0, 0)], split=2, **F), T('iface', [(25, 0, 2, 2, 4, 6, 500, 0, 0, 0), (25, 0, 0, 2, 2, 5, 700, 0, 0, 0), (25, 0, 2, 3, 3, 6, 300, 0, 0, 0)], opts=['--rand', '3'], reach=['end', 'multi'], **F),
  J('iface', [(25, 0, 0, 0, 0, 6, 1, 1000, 2, 0, 2, 700), (25, 0, 0, 0, 0, 6, 1, 0, 0, 0, 130, 5)], opts=['--rand', '1'], **F),
  J('iface', [(25, 0, 0, 0, 0, 6, 2, 0, 0, 0), (25, 0, 0, 2, 0, 6, 2, 0, 0, 0)], reach=['end'], **F),
])
prop('P26', bounds='three (thorough: four) operations out of accept, update, parse, in any order, on new models (sequences of one or two symbols, any 32-bit integers) and on models restored from two symbols and one v-gram; and three operations with 400 accepts each over two symbols (several rebuilds)' + '; models trained on fixed sequences of 20 symbols besides' + '; fixed sequences of 700 symbols; restored frequencies of 20000001' + '; empty sequences', outside=IO, assumptions=[JSON_NOTE], jobs=[
  J('iface', [(26, 0, 0, 2, 2, 6, 3, 1000, 1, 0), (26, 0, 0, 3, 1, 6, 4, 1000, 1, 0), (26, 1, 2, 1, 1, 6, 3, 1000, 1, 1), (26, 1, 2, 1, 2, 6, 2, 1000, 1, 1), (26, 1, 2, 1, 1, 6, 3, 1000, 6, 1), (26, 0, 2, 2, 3, 6, 3, 0, 400, 0), (26, 0, 0, 1, 3, 6, 3, 0, 500, 0)], reach=['end', 'updated'], **F),
  T('iface', [(26, 1, 2, 1, 2, 6, 3, 1000, 1, 1), (26, 1, 2, 2, 1, 6, 4, 1000, 5, 1)], split=4, **F), T('iface', [(26, 0, 0, 2, 2, 6, 4, 1000, 1, 0), (26, 0, 2, 2, 3, 6, 5, 0, 400, 0), (26, 0, 0, 1, 4, 5, 4, 0, 400, 0)], **F),
  J('iface', [(26, 0, 2, 2, 2, 6, 4, 0, 300, 0), (26, 0, 0, 1, 2, 6, 5, 0, 400, 0), (26, 0, 2, 1, 1, 12, 5, 0, 60, 0, 2, 20), (26, 1, 2, 1, 1, 12, 4, 1000, 3, 0, 0, 0, 4), (26, 0, 2, 0, 0, 7, 4, 0, 300, 0, 2, 20, 0, -4)], reach=['end', 'updated', 'rebuilt'], **F),
  J('iface', [(26, 0, 2, 0, 0, 7, 4, 0, 1, 0, 2, 700), (26, 1, 2, 1, 1, 6, 2, 1000, 1, 1, 0, 0, 0, 4, 20000001)], **F),
  J('iface', [(26, 0, 0, 2, 0, 6, 3, 1000, 1, 0)], reach=['end'], **F),
])
prop('P27', bounds='new models trained on one or two sequences of two or three symbols (any 32-bit integers) once or over 400 passes (several rebuilds), optionally with a symbol accepted after the update, and models restored from two symbols and one v-gram; inputs of length up to 3, any 32-bit integers' + '; models trained on fixed sequences of 20 symbols besides, or restored with v-grams of length up to 12' + '; a sequence parsed before and after a symbol is accepted and the model updated' + '; no training data and empty sequences', outside=IO + '; parsing before the first update', assumptions=[JSON_NOTE], jobs=[
  J('iface', [(27, 0, 0, 1, 2, 6, 1, 1000, 2, 0), (27, 0, 0, 1, 3, 6, 1, 1000, 2, 0), (27, 0, 2, 2, 3, 6, 400, 1000, 2, 0), (27, 0, 0, 1, 3, 6, 700, 1000, 3, 0), (27, 1, 2, 1, 1, 6, 1, 1000, 3, 1), (27, 1, 2, 1, 1, 6, 2, 1000, 2, 1)], reach=['end', 'late', 'shorter'], **F),
  T('iface', [(27, 1, 2, 1, 2, 6, 1, 1000, 3, 1), (27, 1, 3, 1, 1, 6, 1, 1000, 3, 1), (27, 0, 0, 2, 2, 6, 600, 1000, 3, 0), (27, 0, 0, 1, 4, 5, 600, 1000, 2, 0)], split=2, **F),
  J('iface', [(27, 0, 2, 1, 1, 12, 60, 0, 2, 0, 2, 20), (27, 1, 2, 1, 1, 6, 1, 1000, 3, 0, 0, 0, 4)], reach=['end'], **F),
  J('iface', [(27, 0, 0, 1, 2, 6, 1, 1000, 2, 3), (27, 0, 0, 1, 3, 6, 1, 1000, 1, 3)], reach=['end', 'late'], **F),
  J('iface', [(27, 0, 0, 0, 0, 6, 1, 1000, 2, 0), (27, 0, 0, 2, 0, 6, 1, 1000, 2, 0)], reach=['end'], **F),
])
prop('P28', bounds='new models trained on one or two sequences (any 32-bit symbols, or two symbols with 400 passes) and models restored from two symbols and one v-gram and trained on; parses between update and save; inputs of length 2, any 32-bit integers; saved and loaded twice' + '; models trained on fixed sequences of 20 symbols besides, or restored with v-grams of length up to 12' + '; restored frequencies of 20000001; alphabets of 300 symbols' + '; no training data and empty sequences', outside=IO, assumptions=[JSON_NOTE], jobs=[
  J('iface', [(28, 0, 0, 1, 2, 6, 1, 1000, 2, 0), (28, 0, 2, 2, 3, 6, 400, 1000, 2, 0), (28, 0, 0, 1, 3, 6, 700, 1000, 1, 0), (28, 0, 0, 2, 2, 6, 1, 1000, 2, 0)], **F), J('iface', [(28, 1, 2, 1, 1, 6, 1, 1000, 2, 1)], split=2, **F),
  T('iface', [(28, 1, 2, 1, 2, 6, 1, 1000, 2, 1)], split=8, **F), T('iface', [(28, 0, 0, 2, 2, 6, 600, 1000, 2, 0), (28, 0, 0, 1, 4, 5, 600, 1000, 2, 0)], split=2, **F),
  J('iface', [(28, 0, 2, 1, 1, 12, 60, 0, 2, 0, 2, 20), (28, 1, 2, 1, 1, 6, 1, 1000, 2, 0, 0, 0, 4)], reach=['end'], **F),
  J('iface', [(28, 1, 2, 1, 1, 6, 1, 1000, 1, 0, 0, 0, 2, 4, 20000001), (28, 0, 0, 0, 0, 400, 1, 1000, 1, 0, 2, 300, 0, 300)], **F),
  J('iface', [(28, 0, 0, 0, 0, 6, 1, 1000, 2, 0), (28, 0, 0, 1, 0, 6, 1, 1000, 2, 0)], reach=['end'], **F),
])
prop('P29', bounds='optionally two more symbols accepted and parsed after the last update; fitted models (any two symbols once; two sequences of length 3 over two symbols, 300 passes) and restored ones with two symbols and one v-gram; inputs of length up to 2, any 32-bit integers' + '; models trained by accept and update instead of fit, on sequences over two symbols for up to 300 passes' + '; restored frequencies of 20000001; alphabets of 300 symbols' + '; no training data and empty sequences', outside=IO, assumptions=[JSON_NOTE], jobs=[
  J('iface', [(29, 0, 2, 1, 2, 6, 1, 1000, 2, 0), (29, 0, 0, 1, 2, 6, 1, 1000, 1, 0), (29, 2, 2, 1, 2, 6, 1, 1000, 1, 1), (29, 2, 2, 1, 1, 6, 1, 1000, 2, 1)], **F), J('iface', [(29, 0, 2, 2, 3, 6, 300, 0, 1, 0), (29, 0, 0, 1, 3, 6, 500, 0, 1, 0)], opts=['--rand', '1'], **F),
  T('iface', [(29, 2, 2, 1, 2, 6, 1, 1000, 2, 1), (29, 2, 2, 1, 3, 6, 1, 1000, 2, 1), (29, 2, 3, 1, 2, 6, 1, 1000, 1, 1)], split=2, **F), T('iface', [(29, 0, 0, 2, 2, 5, 600, 0, 2, 0)], opts=['--rand', '2'], **F),
  J('iface', [(29, 0, 2, 1, 2, 6, 1, 1000, 2, 5), (29, 0, 2, 2, 3, 6, 300, 1000, 1, 5), (29, 0, 0, 0, 0, 12, 40, 1000, 1, 5, 2, 40, 0, 2)], **F),
  J('iface', [(29, 2, 2, 1, 1, 6, 1, 1000, 1, 0, 0, 0, 2, 4, 20000001), (29, 0, 0, 0, 0, 400, 1, 1000, 1, 0, 2, 300, 0, 300)], **F),
  J('iface', [(29, 0, 0, 0, 0, 6, 1, 1000, 2, 0), (29, 0, 0, 2, 0, 6, 1, 1000, 2, 0)], reach=['end'], **F),
])
prop('P30', bounds='text models and streaming text models over characters, trained on one text of two characters out of {a, b, A, space} or on two texts of three characters over {a, b} with 300 (400) passes; probes: the training texts and one or two arbitrary bytes' + '; training texts and probes of one arbitrary byte' + '; no training texts and empty ones', outside=IO + '; tokenizers other than the character tokenizer (the loader always restores that one); loaded models probed with characters that were accepted after the last update', assumptions=[JSON_NOTE], jobs=[
  J('iface', [(30, 0, 2, 1, 2, 6, 1, 1000, 1, 0), (30, 1, 2, 1, 2, 6, 1, 1000, 1, 0), (30, 0, 2, 2, 1, 6, 2, 1000, 2, 0)], reach=['end', 'unknown'], **F), J('iface', [(30, 0, 2, 2, 3, 6, 300, 0, 1, 2), (30, 1, 2, 2, 3, 6, 400, 0, 1, 2)], opts=['--rand', '1'], **F),
  T('iface', [(30, 0, 2, 2, 3, 6, 300, 0, 1, 0), (30, 1, 2, 2, 3, 6, 400, 0, 1, 0)], opts=['--rand', '1'], split=4, **F), T('iface', [(30, 0, 0, 1, 3, 6, 1, 0, 1, 1), (30, 1, 0, 1, 3, 6, 1, 0, 1, 1)], **F),
  J('iface', [(30, 0, 0, 1, 1, 6, 1, 0, 1, 1), (30, 1, 0, 1, 1, 6, 1, 0, 1, 1)], **F),
  J('iface', [(30, 0, 2, 0, 0, 6, 1, 1000, 1, 0), (30, 1, 2, 1, 0, 6, 1, 1000, 1, 0)], reach=['end'], **F),
])
prop('P31', bounds='text models trained on one text of two characters out of {a, b, A, space}, of two arbitrary bytes, or two texts of three characters over {a, b} with 300 passes; probes: the training texts, the empty text and one or two arbitrary bytes' + '; texts of 700 letters; word models made with each constructor, on texts of three characters' + '; no training texts and empty ones', outside=IO, assumptions=[JSON_NOTE], jobs=[
  J('iface', [(31, 0, 2, 1, 2, 6, 1, 1000, 2, 0), (31, 0, 2, 1, 2, 6, 1, 1000, 1, 1), (31, 0, 2, 2, 1, 6, 2, 1000, 2, 0)], reach=['end', 'unknown', 'many', 'multi'], **F), J('iface', [(31, 0, 2, 2, 3, 6, 300, 0, 1, 2)], opts=['--rand', '1'], **F),
  T('iface', [(31, 0, 2, 2, 3, 6, 300, 0, 1, 0)], opts=['--rand', '1'], split=6, **F), T('iface', [(31, 0, 0, 1, 3, 6, 1, 0, 1, 1)], **F),
  J('iface', [(31, 0, 0, 0, 0, 60, 1, 1000, 1, 0, 1, 700), (31, 7, 2, 1, 3, 6, 1, 1000, 1, 0), (31, 7, 2, 1, 3, 6, 300, 1000, 1, 2)], opts=['--rand', '1'], **F),
  J('iface', [(31, 0, 2, 0, 0, 6, 1, 1000, 2, 0), (31, 0, 2, 2, 0, 6, 1, 1000, 1, 0)], reach=['end'], **F),
])
prop('P32', bounds='streaming text models trained on one text of two characters out of {a, b, A, space}, of two arbitrary bytes, or two texts of three characters over {a, b} with 400 passes; word models on texts of three characters; every combination of the two options and both constructors' + '; texts of 700 letters; models with the option inner_words_split' + '; no training texts', outside=IO, assumptions=[JSON_NOTE], jobs=[
  J('iface', [(32, 0, 2, 1, 2, 6, 1, 1000, 1, 0), (32, 9), (32, 8, 2, 1, 3, 6, 1, 1000, 1, 0), (32, 0, 2, 1, 2, 6, 1, 1000, 1, 1), (32, 8, 2, 1, 3, 6, 1, 1000, 1, 1), (32, 0, 2, 2, 3, 6, 400, 0, 1, 2)], reach=['end', 'unknown', 'rejected'], **F),
  T('iface', [(32, 0, 2, 2, 3, 6, 400, 0, 1, 0)], split=6, **F), T('iface', [(32, 0, 0, 1, 3, 6, 1, 0, 1, 1), (32, 8, 2, 1, 5, 6, 300, 1000, 1, 0)], **F),
  J('iface', [(32, 0, 0, 0, 0, 60, 1, 1000, 1, 0, 1, 700), (32, 7, 2, 1, 2, 6, 1, 1000, 1, 0)], **F),
  J('iface', [(32, 0, 2, 0, 0, 6, 1, 1000, 1, 0)], reach=['end'], **F),
])
prop('P33', bounds='models fitted on one sequence of two symbols or restored from two symbols and one v-gram; batches of the training data, the empty sequence and one of length 2, any 32-bit integers' + '; sequences of 600 symbols that are all different' + '; no training data and empty sequences', outside=IO, assumptions=[JSON_NOTE], jobs=[
  J('iface', [(33, 0, 2, 1, 2, 6, 1, 1000, 2, 0), (33, 0, 0, 1, 2, 6, 1, 1000, 2, 0), (33, 2, 2, 1, 1, 6, 1, 1000, 2, 1), (33, 2, 2, 1, 2, 6, 1, 1000, 1, 1)], reach=['end', 'empty'], **F),
  T('iface', [(33, 2, 2, 1, 2, 6, 1, 1000, 2, 1), (33, 2, 3, 1, 2, 6, 1, 1000, 2, 1)], split=2, **F), T('iface', [(33, 0, 2, 2, 3, 6, 300, 0, 2, 0)], opts=['--rand', '1'], **F),
  J('iface', [(33, 0, 2, 0, 0, 700, 1, 1000, 1, 0, 1, 600, 0, 600)], maxinst=8000000000, **F),
  J('iface', [(33, 0, 0, 0, 0, 6, 1, 1000, 2, 0), (33, 0, 0, 2, 0, 6, 1, 1000, 2, 0)], reach=['end'], **F),
])
# ---------------------------------------------------------------- public models, second part (harness/model.cc)
MB = 'new streaming models trained on one sequence of two arbitrary 32-bit symbols, and on two fixed sequences of 20 symbols with one arbitrary one in between over %s passes (several rebuilds)'
prop('P37', bounds=MB % '60' + '; models restored from two symbols and two v-grams of length up to 3 in any order; batch models and text models fitted on sequences of two symbols and on fixed texts' + '; alphabets of 300 symbols; restored frequencies of 20000001', outside=IO, assumptions=[JSON_NOTE], jobs=[
  J('model', [(37, 0, 0, 1, 2, 6, 1), (37, 0, 2, 1, 1, 9, 60, 0, 0, 0, 2, 20), (37, 1, 0, 1, 1, 6, 1, 2, 0, 2), (37, 1, 0, 0, 0, 6, 1, 0, 2), (37, 3, 0, 1, 1, 6, 1, 2, 0, 0), (37, 0, 2, 2, 2, 9, 300, 0), (37, 2, 0, 1, 2, 6, 1), (37, 4, 1, 1, 2, 6, 1), (37, 5, 0, 1, 1, 6, 1), (37, 5, 1, 0, 0, 9, 60, 0, 0, 0, 2, 20)], reach=['end', 'flags', 'text'], **F),
  J('model', [(37, 4, 1, 0, 0, 9, 60, 0, 0, 0, 2, 20), (37, 2, 2, 1, 1, 9, 60, 0, 0, 0, 2, 20)], opts=['--rand', '1'], **F),
  T('model', [(37, 0, 0, 2, 2, 6, 2), (37, 1, 0, 1, 1, 6, 1, 2, 0, 4), (37, 3, 0, 1, 1, 6, 1, 2, 0, 2), (37, 4, 1, 2, 2, 6, 1), (37, 5, 1, 2, 2, 6, 1)], **F),
  J('model', [(37, 0, 0, 0, 0, 400, 1, 1, 0, 0, 2, 300, 300), (37, 2, 0, 0, 0, 400, 1, 1, 0, 0, 2, 300, 300), (37, 1, 0, 0, 0, 6, 1, 2, 0, 2, 0, 0, 4, 20000001), (37, 3, 0, 0, 0, 6, 1, 2, 0, 2, 0, 0, 4, 20000001)], **F),
])
prop('P38', bounds=MB % '60' + '; batch models fitted on one sequence of two symbols; then one or two rounds of training with one arbitrary new symbol, with or without parsing in between', outside=IO, assumptions=[JSON_NOTE], jobs=[
  J('model', [(38, 0, 0, 1, 2, 6, 1, 1), (38, 0, 2, 1, 1, 9, 60, 1, 0, 0, 2, 20), (38, 2, 0, 1, 2, 6, 1, 1, 0, 0), (38, 2, 0, 0, 0, 6, 1, 1, 0, 0, 1, 4)], reach=['end'], **F),
  T('model', [(38, 1, 0, 1, 1, 6, 1, 1, 1, 0), (38, 3, 0, 1, 1, 6, 1, 1, 1, 0)], split=4, **F), T('model', [(38, 0, 0, 2, 2, 6, 2, 1)], **F),
])
prop('P39', bounds='batch models with one or two passes over one or two sequences of one or two symbols (any 32-bit integers, or two symbols), every choice of the random generator, interrupted at every point of fit and of both transforms; one arbitrary probe symbol', outside=IO + '; a model whose final count was interrupted has partial frequencies', assumptions=[JSON_NOTE], jobs=[
  J('model', [(39, 2, 0, 1, 2, 6, 1, 1), (39, 2, 2, 2, 1, 6, 1, 1), (39, 2, 0, 2, 1, 6, 1, 1), (39, 2, 2, 1, 2, 6, 3, 1)], reach=['end', 'interrupted'], **F),
  T('model', [(39, 2, 0, 2, 2, 6, 2, 1), (39, 2, 0, 3, 1, 6, 1, 1), (39, 2, 2, 2, 2, 6, 3, 1)], **F),
])
prop('P40', bounds=MB % '60' + ' and on every pair of sequences of length 3 over two symbols, next to another model that gets other sequences (two of them arbitrary), updates and parses in between; streaming text models over arbitrary characters next to a word model; one arbitrary probe symbol' + '; fixed sequences of 60 symbols over 200 and 400 passes' + '; fixed sequences of 700 symbols', outside=IO, assumptions=[JSON_NOTE], jobs=[
  J('model', [(40, 0, 0, 1, 2, 6, 2, 1), (40, 0, 2, 1, 1, 9, 60, 1, 0, 0, 2, 20), (40, 5, 1, 1, 2, 6, 1, 1), (40, 0, 2, 2, 3, 5, 300, 0)], reach=['end'], **F),
  T('model', [(40, 1, 0, 1, 1, 6, 3, 1, 1), (40, 0, 0, 1, 2, 6, 3, 2)], split=4, **F),
  J('model', [(40, 0, 0, 0, 0, 60, 200, 1, 0, 0, 3, 60, -5), (40, 0, 0, 0, 0, 20, 400, 1, 0, 0, 3, 60, -3)], maxinst=8000000000, **F),
  J('model', [(40, 0, 0, 0, 0, 12, 2, 1, 0, 0, 2, 700)], **F),
])
prop('P41', bounds=MB % '60' + ' and more data afterwards (several rebuilds), restored models (thorough) and fitted batch models; then two or three of: accept (arbitrary sequences), parse (arbitrary sequences), save, look at the model', outside=IO, assumptions=[JSON_NOTE], jobs=[
  J('model', [(41, 0, 0, 1, 2, 6, 1, 1), (41, 2, 0, 1, 2, 6, 1, 1), (41, 0, 0, 0, 0, 9, 60, 1, 0, 0, 2, 20)], reach=['end'], **F),
  T('model', [(41, 0, 2, 1, 1, 9, 60, 1, 0, 0, 2, 20), (41, 1, 0, 1, 1, 6, 1, 1, 0, 3)], split=2, **F),
])
prop('P42', bounds=MB % '60' + '; restored models with two symbols and up to five v-grams of length up to 12, in any order and with any given frequencies 0 or 3; inputs of two to five symbols known to the model or a stretch of 12 training symbols and two arbitrary known ones' + '; models restored with frequencies of 0 or 9000 and recounted, or not, on 30 sequences of one symbol each' + '; 300 training symbols and two known ones parsed at once', outside=IO + '; likelihood differences below 1e-9', assumptions=[JSON_NOTE], jobs=[
  J('model', [(42, 0, 0, 1, 2, 6, 1, 2), (42, 0, 2, 1, 1, 12, 60, -12, 0, 0, 2, 20), (42, 1, 0, 0, 0, 6, 1, 3, 1, 3), (42, 3, 0, 1, 1, 6, 1, 3, 1, 3), (42, 2, 0, 1, 2, 6, 1, 2), (42, 0, 2, 2, 3, 9, 300, 5), (42, 1, 0, 0, 0, 6, 1, 3, 1, 4)], reach=['end', 'shorter'], **F),
  T('model', [(42, 1, 0, 0, 0, 6, 1, 5, 1, 4), (42, 0, 2, 2, 3, 9, 300, 5), (42, 1, 0, 0, 0, 6, 1, 4, 2, 2)], split=2, **F),
  J('model', [(42, 3, 0, 0, 0, 10, 1, 2, 2, 0, 0, 0, 4, 9000, 30), (42, 3, 0, 0, 0, 10, 1, 2, 0, 3, 0, 0, 4, 9000, 30)], **F),
  J('model', [(42, 0, 0, 0, 0, 12, 2, -300, 0, 0, 2, 700)], **F),
])
prop('P43', bounds='builders of every kind with one sequence of 2 to 4 (thorough: 6) different symbols (any 32-bit integers, or any of 2 to 4 declared ones), up to 6 rebuilds; models trained up to 3000 times on a sequence of 2 to 4 arbitrary different symbols, saved, loaded as streaming or batch model and trained up to 6000 times on the same or another sequence that shares none, some or all symbols, or trained on a second sequence without being saved (up to 10000 and 20000 times); declared sizes from the number of symbols to 12', outside='sequences in which a symbol occurs twice; what is learned from data that does not repeat', assumptions=[JSON_NOTE], jobs=[
  J('builder', [(43, 0, 0, 1, 2, 3, 3000, 2, 6), (43, 0, 0, 1, 3, 4, 3000, 2, 6), (43, 0, 0, 1, 4, 6, 3000, 2, 6), (43, 1, 4, 1, 4, 5, 3000, 2, 6), (43, 2, 4, 1, 3, 5, 3000, 2, 6), (43, 5, 4, 1, 4, 6, 3000, 2, 6), (43, 5, 3, 1, 2, 3, 3000, 2, 6), (43, 5, 4, 1, 3, 3, 3000, 2, 6), (43, 3, 3, 1, 3, 6, 3000, 2, 6), (43, 5, 3, 1, 3, 6, 3000, 2, 6, 0, 0, 0, -2), (43, 1, 3, 1, 3, 6, 3000, 2, 6, 0, 0, 0, -1)], reach=['end', 'learned']),
  J('model', [(43, 3, 0, 1, 3, 10, 3000, 6000, 3), (43, 3, 0, 1, 3, 12, 3000, 6000, 0), (43, 3, 0, 1, 3, 7, 3000, 12000, 0), (43, 3, 0, 1, 2, 8, 6000, 6000, 1), (43, 3, 0, 1, 4, 12, 10000, 20000, 2)], reach=['end', 'learned'], maxinst=16000000000, **F),
  J('model', [(43, 0, 0, 1, 2, 3, 3000, 3000, 2), (43, 0, 0, 1, 4, 2, 2000, 2000, 4), (43, 1, 0, 1, 3, 1, 3000, 3000, 0), (43, 0, 0, 1, 3, 8, 3, 3000, 3), (43, 2, 0, 1, 3, 5, 3000, 3000, 3), (43, 1, 0, 1, 3, 8, 1, 3000, 1), (43, 0, 0, 1, 2, 2, 3000, 3000, 0), (43, 0, 0, 1, 3, 4, 2500, 4000, 2), (43, 2, 0, 1, 2, 6, 3000, 6000, 0), (43, 1, 0, 1, 4, 6, 2000, 3000, 0), (43, 0, 0, 1, 4, 12, 2000, 2000, 4)], reach=['end', 'learned'], **F),
  T('builder', [(43, 0, 0, 1, 5, 8, 4000, 2, 10), (43, 0, 0, 1, 6, 12, 3000, 2, 6), (43, 5, 5, 1, 5, 8, 4000, 2, 8)], reach=['end', 'learned']), T('model', [(43, 1, 0, 1, 5, 8, 3000, 6000, 2), (43, 0, 0, 1, 6, 20, 3000, 6000, 6)], reach=['end', 'learned'], **F),
])
# ---------------------------------------------------------------- helpers with an API of their own
prop('P34', bounds='sequences of 0 to 3 integers out of {0, 7, -3, 10, 123456, 2147483647, -2147483648}, and of one or two integers in -12..112' + '; up to 200 fixed integers' + '; up to 3000 fixed integers', outside='other integers', jobs=[J('misc', [(34, n) for n in (0, 1, 2, 3)] + [(34, 1, 0, 1)]), T('misc', [(34, 2, 0, 1), (34, 4)]),
  J('misc', [(34, 0, 0, 0, 200), (34, 1, 0, 0, 40)]),
  J('misc', [(34, 1, 0, 0, 3000)], maxinst=8000000000),
])
prop('P35', bounds='zero to two batches of 0 to 3 (thorough: three batches) items, any 32-bit integers; one batch of up to 3 one-letter strings' + '; 60 or 400 fixed items first' + '; 1000 (thorough: 3000) fixed items first' + '; 70000 fixed items first, then known or new ones', outside='', jobs=[J('misc', [(35, 1, 3), (35, 2, 2), (35, 0, 0)]), T('misc', [(35, 2, 3), (35, 3, 2)]),
  J('misc', [(35, 1, 2, 0, 60), (35, 1, 1, 0, 400)]),
  J('misc', [(35, 1, 1, 0, 1000)], maxinst=8000000000),
  T('misc', [(35, 1, 1, 0, 3000)], maxinst=8000000000),
  J('misc', [(35, 1, 1, 0, 70000)], opts=['--buckets'], maxinst=16000000000),
])
prop('P36', bounds='pairs of sequences of length 0 to 3 and 8, any 32-bit integers', outside='longer sequences', jobs=[J('misc', [(36, n) for n in (0, 1, 2, 3)], opts=['--real-hash'], reach=['end', 'equal']),
  J('misc', [(36, 8)], opts=['--real-hash'], reach=['end', 'equal']),
])
