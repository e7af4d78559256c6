#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (kept as a script so that the long text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
                  anchors=dict(files=list(files),
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe), hook_needed=None)))

CO, BP, DS = 'nlcodec/codec.py', 'nlcodec/bpe.py', 'nlcodec/dstruct.py'
DB, BA = 'nlcodec/db/core.py', 'nlcodec/db/batch.py'

p('C01', 'Byte encoding is lossless for every text',
  'Encoding any UTF-8 encodable text with a byte vocabulary yields exactly its UTF-8 bytes, in order, as ids 0..255 (and as pieces that name those ids), and decoding those ids or pieces gives the same text back. '
  'Begin and end markers inserted anywhere between characters of the sequence are copied to the output verbatim and change nothing else. '
  'Decoding an invalid byte sequence never raises; every undecodable byte shows up as a replacement character.',
  ['inputs'], 'every text of up to N code points drawn from the whole Unicode range (surrogates excluded), every marker position, every byte sequence up to N bytes',
  'The tests try three fixed strings (no control characters, no markers next to multi-byte characters); the guarantee is over all code points and all positions.',
  [CO], [('ByteScheme.encode/encode_str/decode/decode_str/compose_str', CO + ':566')],
  observe=['ByteScheme.encode', 'ByteScheme.decode', 'ByteScheme.encode_str', 'ByteScheme.decode_str'])

p('C02', 'Word encoding maps every token to its id and unknowns to the UNK id',
  'Encoding a line with a word vocabulary gives one id per whitespace-separated token: the id of that token in the vocabulary, or the unknown id (1) if the token is not in it. '
  'Decoding gives the tokens joined by single spaces with every unknown token shown as <unk>, so text whose tokens are all known is recovered up to whitespace. '
  'Encoding the decoded text again gives the same ids.',
  ['inputs', 'configurations'], 'every line up to N characters over all Unicode characters and every vocabulary of up to K types with arbitrary names',
  'No test encodes or decodes with a word vocabulary at all.',
  [CO], [('WordScheme.encode_str/decode_str', CO + ':356'), ('EncoderScheme.encode/decode', CO + ':222')])

p('C03', 'Character encoding is one id per character, lossless up to whitespace',
  'Encoding a line with a character vocabulary gives one id per character of the whitespace-normalised line, spaces being represented by the space marker type, and characters outside the vocabulary by the unknown id. '
  'For lines not containing the space marker itself, decoding restores the whitespace-normalised line, with exactly the unknown characters shown as <unk>.',
  ['inputs', 'configurations'], 'every line up to N characters over all Unicode characters (the literal space marker excluded), every character vocabulary of up to K characters',
  'No test encodes or decodes with a character vocabulary.',
  [CO], [('CharScheme.encode_str/decode_str', CO + ':416')])

p('C04', 'BPE segmentation covers the text exactly, greedily, longest piece first',
  'Encoding a line with a BPE vocabulary splits its whitespace-normalised form (words separated and terminated by the space marker) from left to right: at each position the longest vocabulary type that is a prefix of the rest is taken, and where none is, exactly one character is consumed and reported as unknown. '
  'Ids and string pieces agree, and encoding terminates for every line. '
  'No character is lost, duplicated or reordered.',
  ['inputs', 'configurations'], 'every line up to N characters and every vocabulary made of reserved types, letters and up to K learned subwords of any composition',
  'The tests learn and save BPE models but never encode a line with one and look at the result.',
  [CO, DS], [('BPEScheme.encode_str longest match with back-up', CO + ':461'), ('prefix trie', CO + ':448'), ('TrNode.get_node', DS + ':92')],
  state=[('trie', 'prefix tree of all type names', CO + ':448')])

p('C05', 'BPE decoding inverts encoding, also under stochastic splitting',
  'Decoding the BPE encoding of a line whose characters are all in the vocabulary gives the line back with whitespace normalised, for the greedy encoding and for every outcome of stochastic splitting at any split ratio. '
  'Stochastic splitting only ever replaces a piece by pieces it was composed of, a ratio of 0 never splits, a ratio of 1 splits all the way down, and every listed permutation of a type concatenates to that type.',
  ['inputs', 'configurations', 'schedules'], 'every line up to N characters, every BPE vocabulary of up to K merges, every outcome of the random generator',
  'No test decodes BPE output, and none calls the stochastic split; random outcomes cannot be enumerated by running it.',
  [CO], [('BPEScheme.decode_str', CO + ':500'), ('Type.get_stochastic_split', CO + ':170'), ('Type.get_permutations', CO + ':156'), ('BPEScheme.stochastic_split', CO + ':529')])

p('C06', 'Class vocabularies map whole labels to ids one-to-one',
  'A class vocabulary learned from labels contains every distinct label exactly once, in alphabetical order, with its exact number of occurrences and contiguous ids from 0, regardless of size and frequency limits. '
  'Encoding a known label (with surrounding whitespace removed) gives its single id and decoding that id gives the label; an unknown label never encodes to the id of another label.',
  ['inputs', 'configurations'], 'every list of up to N labels of up to L characters each (internal spaces and commas included)',
  'One test checks only the number of classes for one fixed list.',
  [CO], [('ClassScheme', CO + ':536')])

p('V01', 'Vocabularies have fixed reserved ids, contiguous ids and honour limits',
  'Every learned word, character or BPE vocabulary starts with the six reserved types at their fixed ids 0..5, its ids are contiguous; names are unique in word and character vocabularies. '
  'Corpus types follow by decreasing frequency, a more frequent type is never dropped in favour of a less frequent one, no type below the minimum frequency is kept, all types are kept when no limit applies, and the size limit is respected (reserved types always stay). '
  'Reserved names occurring in the corpus never get a second entry.',
  ['inputs', 'configurations'], 'every table of up to N corpus types with arbitrary frequencies, reserved names among them or not, and every minimum frequency, coverage and size limit',
  'Tests check only that the learned size equals one requested size.',
  [CO, 'nlcodec/utils.py'], [('EncoderScheme.get_init_vocab', CO + ':246'), ('Reseved.validate', CO + ':49'), ('filter_types_coverage', 'nlcodec/utils.py:33')])

p('V02', 'Vocabulary building conserves token counts and respects coverage',
  'For word and character vocabularies the frequencies of all kept types plus the frequency recorded for the unknown type add up to the number of tokens seen: what is excluded by coverage, minimum frequency or size is counted as unknown, exactly once. '
  'With a coverage threshold, the kept types cover at least that share of tokens and no fewer types would do. '
  'Line counts are added to begin, end and class markers only when the number of lines is known.',
  ['inputs', 'configurations'], 'every table of up to N corpus types with arbitrary frequencies and every combination of coverage, minimum frequency, size limit and line count',
  'No test looks at frequencies after trimming.',
  [CO, 'nlcodec/utils.py'], [('EncoderScheme.get_init_vocab unk_count', CO + ':255'), ('filter_types_coverage', 'nlcodec/utils.py:33')])

p('V03', 'Saving and loading a vocabulary preserves it and its kind',
  'A vocabulary written to a file and loaded again has the same kind of codec and the same types in the same order: same id, name, level, frequency and constituent pieces. '
  'The loaded codec encodes every line exactly like the saved one.',
  ['inputs', 'configurations'], 'every vocabulary of up to N types with arbitrary names (as produced by tokenisation), frequencies and compositions, for each of the five kinds',
  'Tests reload three learned models and compare their text form; names, levels and compositions are whatever the sample corpus produced.',
  [CO], [('Type.format', CO + ':77'), ('Type.parse', CO + ':90'), ('Type.write_out / read_vocab', CO + ':110'), ('load_scheme', CO + ':667')])

p('V04', 'Learning from a term-frequency file equals learning from the text',
  'Term frequencies written to a statistics file are read back exactly, with the line count, whatever the terms are, and a file without the header line is read completely too. '
  'Learning a word vocabulary from such a file gives the same types, frequencies and order as learning it from the text the counts were taken from; a BPE vocabulary learned from the file has the same pieces and frequencies as one learned from the same counts directly.',
  ['inputs'], 'every table of up to N terms of up to L arbitrary non-whitespace characters (terms starting with # included) with arbitrary counts',
  'No test reads or writes a statistics file.',
  [CO, 'nlcodec/term_freq.py'], [('WordScheme.read_term_freqs', CO + ':376'), ('write_stats', 'nlcodec/term_freq.py:68'), ('WordScheme.term_frequencies', CO + ':365')])

p('V05', 'Shrinking a vocabulary keeps what the data needs and nothing breaks',
  'Shrinking a word, character or BPE vocabulary, or a class vocabulary of which some class is used, keeps all reserved types, every type the given files use at least the minimum number of times, and all pieces those are composed of, and drops everything else; the returned mapping lists the old ids of the new ids in increasing order. '
  'The saved vocabulary loads as the same kind of codec with contiguous ids and the same names, levels, frequencies and (renumbered) compositions. '
  'With minimum frequency 1, encoding the given data with the new codec and mapping the ids back gives the original encoding.',
  ['inputs', 'configurations'], 'every vocabulary of up to K learned types, every text of up to N characters and every minimum frequency',
  'One test only compares the number of types with the length of the mapping.',
  [CO], [('EncoderScheme.shrink_vocab', CO + ':289')])

p('B01', 'BPE learning merges a most frequent pair with exact counts every time',
  'Each type learned by BPE joins two earlier types that, at that point of the learning, form an adjacent pair within words occurring at adjacent positions (overlapping occurrences counted) at least as often as any other pair, weighting words by their frequency; its recorded frequency is exactly that count. '
  'Its name is the concatenation of the two names, ids grow by one, and learning never crosses word boundaries.',
  ['inputs', 'histories'], 'every corpus of up to W word types of up to L letters with arbitrary positive frequencies, every number of merges',
  'Tests learn from one corpus and check only the size of the result; the incremental counts are never compared with a recount.',
  [BP, DS], [('BPELearn.learn_codes', BP + ':115'), ('MaxHeap', DS + ':118'), ('LnNode', DS + ':10')],
  state=[('bi, bi_ixs', 'pair counts and occurrences', BP + ':38'), ('heap, heap_dirty', 'priority queue with lazy decrements', BP + ':127')])

p('B02', 'BPE learning stops exactly when asked or when nothing is left to merge',
  'BPE learning returns a vocabulary of exactly the requested size unless the best remaining pair occurs fewer than the minimum co-evidence times or no pair is left, in which case it stops there and returns what was learned so far. '
  'It never raises for a valid corpus and a size above the alphabet, and no learned type has less than the minimum evidence.',
  ['inputs', 'configurations', 'histories'], 'every corpus of up to W word types of up to L letters with arbitrary frequencies, every requested size and minimum co-evidence',
  'Tests use one corpus that is large enough never to run out of pairs.',
  [BP, CO], [('early stop', BP + ':145'), ('BPEScheme.learn', CO + ':504')])

p('B03', 'BPE learning is reproducible: same data, same model',
  'Learning a BPE vocabulary twice from the same data with the same settings gives identical models, independent of process, memory layout and hash seeds.',
  ['schedules', 'inputs'], 'every iteration order the unordered collections of the learner may take, for corpora of up to W words of up to L letters (repeated letters in particular)',
  'A test run sees one memory layout; the order of address-hashed sets differs from run to run.',
  [BP, DS], [('update_nodes iteration in learn_codes', BP + ':169'), ('LnNode.__hash__ = id', DS + ':26')])

p('B04', 'BPE learning never builds pieces out of the unknown symbol',
  'No learned BPE piece contains the unknown marker as a constituent: characters left out of the alphabet by the coverage limit split a word, and pairs are counted and merged only on either side of them. '
  'Counts of all other pairs are unaffected.',
  ['inputs', 'configurations'], 'every corpus of up to W word types of up to L letters with any subset of letters left out of the alphabet',
  'Tests use a coverage so high that no character is dropped.',
  [BP], [('BPELearn._make_idxs', BP + ':242'), ('create_index', BP + ':47')])

p('D01', 'The chosen integer width holds the whole range and is the narrowest',
  'For every pair of integers lo <= hi representable by some 64-bit integer type, the selected storage type can represent every value from lo to hi, and no supported type with fewer bytes can. '
  'A range that fits no 64-bit type is refused.',
  ['inputs'], 'all pairs of integers lo <= hi, unbounded',
  'The test samples 17 pairs.',
  [DB], [('best_dtype', DB + ':34')])

p('D02', 'A stored sequence database returns exactly what was put in',
  'For every list of records of integer sequences, looking up or iterating a database built from it, in memory or after saving and loading, gives for each id exactly the original sequences in the original fields, as integers; iteration yields each record exactly once and reported lengths match. '
  'This holds whatever mix of value ranges, lengths (empty sequences and no records at all included) and internal buffering the data meets. '
  'A duplicate id is refused.',
  ['inputs', 'configurations'], 'every list of up to R records with sequences of mixed lengths holding arbitrary 64-bit values, every flush threshold of the builder',
  'The test uses one random data set of small positive values in one buffer; widening between buffers and large values never happen.',
  [DB], [('SeqField.Builder.append/shrink/build', DB + ':79'), ('SeqField.__getitem__', DB + ':115'), ('Db.create/__getitem__/__iter__', DB + ':199')],
  state=[('frozen, buffer, refs', 'values already narrowed, pending values, (start,length) per record', DB + ':73')])

p('D03', 'A multi-part database holds every record exactly once',
  'Writing a stream of records as a multi-part database and loading it gives every record exactly once with its own content, whatever the part size; all parts but the last hold exactly the part size, the reported number of records is the true one, and keeping parts in memory makes no difference. '
  'An existing non-empty database is never overwritten unless asked, and when asked no old record survives.',
  ['inputs', 'configurations'], 'every stream of up to R records, every part size, both memory modes, every pre-existing state of the target directory',
  'Tests use sizes where part and record numbers are round and never check refusal or overwriting.',
  [DB], [('MultipartDb.slices', DB + ':282'), ('MultipartDb.create', DB + ':293'), ('Writer', DB + ':363'), ('MultipartDb.__iter__', DB + ':342')])

p('D04', 'An interrupted write is never mistaken for a complete database',
  'If writing a database is interrupted at any point, by a crash or by an exception from the record source, then loading the directory afterwards either fails or yields exactly the complete set of records of one finished write. '
  'This also holds when an earlier complete database was being overwritten, and for a database written to a single file.',
  ['crash_points', 'fault_sequences', 'inputs'], 'every crash point between (and within) file-system operations, every position at which the source of records fails, with and without a previous database',
  'No test interrupts a write.',
  [DB], [('_SUCCESS flag written last', DB + ':396'), ('Writer.__exit__', DB + ':402'), ('load requires _SUCCESS', DB + ':312')])

p('D05', 'Length-sorted random batches use each record once within both budgets',
  'For every database and every token budget, the random length-sorted batches together contain each record with no empty field exactly once and no other record, whatever the random generator does. '
  'In every batch the number of records times the longest sequence is at most the token budget, and the number of records is between one and the sentence budget. '
  'A record longer than the token budget is reported as an error rather than dropped.',
  ['inputs', 'configurations', 'schedules'], 'every set of up to R records with arbitrary lengths, every token and sentence budget, every outcome of shuffling',
  'Tests check one budget on random data, never the sentence budget, and not that every record appears once.',
  [DB, BA], [('Db._make_eq_len_batch_ids', DB + ':228'), ('make_eq_len_ran_batches', DB + ':265'), ('MultipartDb.make_eq_len_ran_batches', DB + ':353')])

p('D06', 'Sequential batches keep order, use each record once, honour both budgets',
  'Iterating a batched data set without random sorting yields every record with non-empty sides exactly once and in database order. '
  'In every batch the number of records times the longest stored sequence is at most the token budget, and the number of records is between one and the sentence budget. '
  'A record longer than the token budget is reported as an error rather than dropped.',
  ['inputs', 'configurations'], 'every list of up to R records with arbitrary lengths, every token and sentence budget',
  'No test iterates without random sorting.',
  [BA], [('BatchIterable.read_all', BA + ':229')])

p('D07', 'Batches lay out sequences exactly, padded, with the requested markers',
  'In every batch, row i of the source and target matrices holds the sequences of one and the same record, padded with the padding id on the right up to the longest row, and the reported lengths, token totals and maxima are exact; with descending sorting the rows are ordered by source length. '
  'Begin and end markers are added exactly where requested and not already present, never twice, and batch-first or not differ only by transposition.',
  ['inputs', 'configurations'], 'every batch of up to R records with sequences of up to L arbitrary values, all marker settings, both orientations, sorted or not',
  'Tests only look at the number of target tokens of batches whose sequences already carry markers.',
  [BA], [('Batch.__init__', BA + ':80'), ('Batch.val_exists / bos_eos_check', BA + ':127')])

p('D08', 'Shuffled iteration visits every record exactly once',
  'Iterating a database with shuffling switched on, single or multi-part, yields each record exactly once with its own content, for every outcome of the random generator, and does not change the stored data.',
  ['schedules', 'inputs'], 'every outcome of the random generator for databases of up to R records and P parts',
  'No test switches shuffling on.',
  [DB], [('Db.__iter__', DB + ':220'), ('MultipartDb.__iter__', DB + ':342')])

p('D09', 'Masks hide exactly the padding and the later positions',
  'The mask of a matrix of sequences has one square per sequence; position i sees position j of its own sequence exactly when j is not later than i and the value at j is not the padding id. '
  'The mask of a given size without sequences shows exactly the positions that are not later. Masks of different sequences do not influence each other, and making one leaves the sequences unchanged.',
  ['inputs', 'configurations'], 'every matrix of up to B sequences of up to N values with every padding id, every size up to K, and the matrices of every batch of up to B records',
  'No test makes a mask.',
  [BA], [('Batch.make_autogres_mask_', BA + ':169'), ('subsequent_mask', BA + ':176')])

p('P01', 'Iterative pairwise reduction equals folding the items in order',
  'For every non-empty sequence of items and every associative reduce function with the given default as identity, the map-reduce engine returns the left-to-right reduction of the mapped items: every item used exactly once, in order, also for odd counts at every level. '
  'An empty input is refused. '
  'Using worker pools that deliver results in order makes no difference.',
  ['inputs', 'configurations'], 'every sequence of up to N arbitrary items, serial or with ordered pools',
  'Tests use commutative addition on three round sizes, which cannot see reordering.',
  ['nlcodec/para/mapred.py'], [('pair_subsequent', 'nlcodec/para/mapred.py:22'), ('IterativeReducer', 'nlcodec/para/mapred.py:48'), ('MapReduce', 'nlcodec/para/mapred.py:97')])

p('P02', 'Merged term frequencies are the exact sums',
  'Merging two term-frequency tables gives for every term the sum of its counts in both and no other term, and counting words of any number of lines through the map-reduce engine gives the same counts as counting them one by one. '
  'The shared default of the reduction is never altered.',
  ['inputs'], 'every pair of tables of up to K terms with arbitrary counts, every list of up to N lines',
  'One fixed pair of tables is tested.',
  ['nlcodec/para/mapred.py'], [('merge_freqs', 'nlcodec/para/mapred.py:125'), ('WordCounter', 'nlcodec/para/mapred.py:140')])

p('P03', 'Parallel encoding equals sequential encoding, in input order',
  'Encoding a stream of lines with several worker processes gives the same id sequences, in the same order and number, as encoding each line by itself, for every order in which workers finish.',
  ['schedules', 'inputs'], 'every completion order of the workers for streams of up to N lines',
  'No test runs the parallel encoder, and a run sees one completion order.',
  [CO], [('EncoderScheme.parallel_map', CO + ':233')])

p('S01', 'Bitext conversion keeps pairs aligned and honours length limits',
  'Converting parallel text to a database stores, for every line pair with non-empty encodings, the encoded source and target of the same line under that line number and the requested column names, and nothing else. '
  'With truncation each side is cut to its maximum length; without it exactly the pairs with a side longer than its maximum are dropped. '
  'Source and target files of different length are refused, and the number of partitions, empty ones included, does not change the stored records.',
  ['inputs', 'configurations', 'schedules'], 'every pair of files of up to N lines with arbitrary encoded lengths, every limit, every assignment of records to partitions',
  'The spark test writes ready-made ids; the text path, limits and alignment are not tested.',
  ['nlcodec/spark.py', 'nlcodec/bitextdb.py', DB], [('read_raw_bitext', 'nlcodec/spark.py:49'), ('read_raw_bitext_tok', 'nlcodec/spark.py:85'), ('rdd_as_db', 'nlcodec/spark.py:122')])

p('S02', 'Distributed term counting equals sequential counting',
  'Counting words and characters of text files with the distributed backend gives the exact word frequencies, character frequencies (each character weighted by its word frequency) and number of lines of the input, independent of partitioning and order. '
  'With de-duplication on, repeated lines count once; with it off, every line counts.',
  ['inputs', 'schedules', 'configurations'], 'every input of up to N lines in up to F files, every partitioning and combination order',
  'No test calls the distributed counter.',
  ['nlcodec/term_freq.py'], [('word_counts', 'nlcodec/term_freq.py:17')])

p('E01', 'Merge tracking reports exact counts and sequence lengths',
  'While merges of a BPE model are replayed over a corpus, the tracked type counts are exactly the numbers of occurrences in the re-segmented corpus and the reported mean length is exactly that of the re-segmented corpus, after every merge. '
  'In particular counts never become negative and add up to the total length.',
  ['inputs', 'histories'], 'every corpus of up to S sequences of up to L symbols (repeats included), every merge list of up to M merges',
  'The tracker has no test.',
  ['nlcodec/eval/bpe_len.py'], [('BpeTracker.track_merges', 'nlcodec/eval/bpe_len.py:132'), ('BPECodecXt.merge', 'nlcodec/eval/bpe_len.py:53')])

p('E02', 'N-gram precision, recall and F1 follow their definitions',
  'For every candidate and reference, n-gram frequencies on both sides are exact for the requested n, the recall of an n-gram is its clipped matches over its reference count averaged over the sentences whose reference has it, precision likewise for candidates, and all lie in [0,1]. '
  'F1 is the harmonic mean, 0 when both are 0. The tool compares line i of the candidates with line i of the references.',
  ['inputs'], 'every set of up to S sentence pairs of up to L symbols, every n up to L, every precision and recall in [0,1]',
  'The metric code has no test.',
  ['nlcodec/eval/pr_measure.py', 'nlcodec/utils.py'], [('count_gram_recall', 'nlcodec/eval/pr_measure.py:18'), ('f1_measure', 'nlcodec/eval/pr_measure.py:44'), ('make_n_grams', 'nlcodec/utils.py:17')])

p('E03', 'Codec quality estimates are exact',
  'The quality report of a codec on a corpus states the true number of tokens, of unknown tokens, of types and the true mean encoded length. '
  'The imbalance is half the total absolute deviation of the type distribution from the uniform one: 0 exactly for a uniform distribution and always below 1. '
  'The distance between two distributions is half their total absolute difference, and anything that is no distribution is refused.',
  ['inputs', 'configurations'], 'every corpus of up to S encoded sequences of up to L ids over vocabularies of up to V types',
  'The estimator has no test.',
  ['nlcodec/qestim.py'], [('QualityEstimator._estimate', 'nlcodec/qestim.py:89'), ('EMD_simple', 'nlcodec/qestim.py:55')])

p('E04', 'Out-of-vocabulary statistics partition the tokens exactly',
  'Splitting the tokens of a corpus by a vocabulary puts every token type into exactly one of the in-vocabulary and out-of-vocabulary tables, the former exactly when the vocabulary has it, with its exact number of occurrences.',
  ['inputs'], 'every text of up to N characters and every vocabulary of up to K words',
  'The tool has no test.',
  ['nlcodec/eval/oov_count.py'], [('partition_vocab_toks', 'nlcodec/eval/oov_count.py:30')])

p('E05', 'N-gram frequency tables list every n-gram with its exact count',
  'The n-gram frequency tool writes, for a corpus, a codec and n, every n-gram of ids occurring within an encoded line exactly once, with the exact number of its occurrences over all lines (n-grams never span lines) and the names of its types, most frequent first. Line breaks belong to no line.',
  ['inputs', 'configurations'], 'every corpus of up to S lines of up to L characters, word, character and BPE codecs, every n up to 3; every set of sequences of arbitrary symbols',
  'The tool has no test.',
  ['nlcodec/eval/termfreq.py', 'nlcodec/utils.py'], [('termfreq.main', 'nlcodec/eval/termfreq.py:36'), ('make_n_grams_all', 'nlcodec/utils.py:22')])

p('T01', 'The priority queue always yields the current maximum',
  'From any starting table and after any sequence of insertions and removals, removing from the priority queue returns an entry with the largest priority among those present, each inserted entry is returned exactly once with its own priority, and peeking shows the entry that would be removed next.',
  ['histories', 'inputs'], 'every sequence of up to K operations with arbitrary integer priorities',
  'The queue has no test of its own.',
  [DS], [('MaxHeap', DS + ':118')])

p('T02', 'Linked sequences stay consistent under deletion, prefix trees under lookup',
  'After building a doubly linked sequence and deleting any of its nodes in any order, walking forwards and backwards from the remaining nodes visits exactly the remaining items in their original order. '
  'A prefix tree holds exactly the keys put in: each key leads to its own node, node and data counts are exact, and looking up an absent key without creating it fails and leaves the tree unchanged.',
  ['histories', 'inputs'], 'every sequence of up to N items with every order of deletions; every set of up to K keys of up to L characters',
  'The structures have no tests of their own.',
  [DS], [('LnNode.from_seq / delete', DS + ':46'), ('TrNode.get_node', DS + ':92')])

p('L01', 'Command-line encode and decode work line by line and invert each other',
  'Encoding a stream of lines and decoding the result, as pieces or as ids, produces exactly one output line per input line, in order, and line i of the result is the codec\'s own decoding of the encoding of line i, for every codec kind. '
  'For the byte codec this is the input line itself. This holds for the nlcodec command with files and standard streams and with its options in any spelling and order. '
  'Lines end at line feeds and nowhere else; carriage returns are text.',
  ['inputs', 'configurations'], 'every stream of up to N lines (with line terminators, empty lines included), word, character, BPE and byte codecs, pieces or ids',
  'No test runs the stream encode/decode path.',
  [CO, 'nlcodec/__main__.py'], [('encode/decode generators', CO + ':681'), ('main / write_lines', 'nlcodec/__main__.py:83')])

p('L02', 'Learning programs give the vocabulary of the text, also from reused statistics',
  'The learn command writes a model that loads as the requested kind of codec and has exactly the types learned in memory from the same lines with the same limits, each option given on the command line setting its own limit. '
  'The distributed learning program gives the vocabulary learned from the term counts of its input files (repeated lines counted once if de-duplication is on); a second run that reuses the statistics files of the first gives the same vocabulary.',
  ['inputs', 'configurations', 'histories'], 'every text of up to N lines, every level, size limit, minimum frequency and evidence, first and repeated runs',
  'No test runs the learning programs, and none runs one twice.',
  ['nlcodec/__main__.py', 'nlcodec/learn.py', CO], [('main', 'nlcodec/__main__.py:82'), ('learn.main', 'nlcodec/learn.py:62'), ('learn_vocab', CO + ':638')])

p('L03', 'Interrupted learning is never mistaken for a finished one',
  'If saving or shrinking a vocabulary, or the distributed learning program, is interrupted at any point, by a crash or by a failing write, then loading the model file afterwards either fails or gives one complete vocabulary, the old or the new one. '
  'Running the program again either fails or gives exactly the vocabulary of the text: incomplete statistics are never reused.',
  ['crash_points', 'fault_sequences', 'histories'], 'every crash point between (and within) file-system operations, every write at which the statistics file fails, followed by loading and by a second run',
  'No test interrupts a write or runs the program twice.',
  [CO, 'nlcodec/learn.py', 'nlcodec/utils.py'], [('Type.write_out', CO + ':112'), ('statistics reused if the file exists', 'nlcodec/learn.py:72')])

p('U01', 'Files read back the lines written, plain or compressed',
  'Text written through the file helpers, whole, in pieces or appended, to a plain or gzip-compressed file, reads back as exactly the lines written: lines end at line feeds and nowhere else (carriage returns and other separators inside a line stay). '
  'Reading several files as a stream gives the lines of the files in order. Bytes written in binary mode read back unchanged, and bytes that are no valid UTF-8 read as text without an exception. '
  'Replacing a file safely shows the old content until the new one is complete: if writing fails, the old file is unchanged and nothing is left behind.',
  ['inputs', 'configurations', 'fault_sequences'], 'every text of up to N characters, plain and compressed files, every split into pieces, streams of up to 3 files, success or failure of the writer',
  'The helpers have no tests of their own; other tests pass ASCII through plain files.',
  ['nlcodec/utils.py'], [('IO', 'nlcodec/utils.py:97'), ('IO.read_as_stream', 'nlcodec/utils.py:135')])

p('X01', 'Unicode expansion for Devanagari is exactly undone by its inverse',
  'For every text that does not contain the expansion mark, de-expanding the expanded text gives the text back, and the mark is inserted exactly between adjacent consonants.',
  ['inputs'], 'every text of up to N code points',
  'The scratch tool has no test.',
  ['experimental/uxdx.py'], [('Devanagari.encode/decode', 'experimental/uxdx.py:17')])

p('X02', 'Writing out the vowels of Devanagari is undone for well-formed text',
  'The vowel encoder for Devanagari leaves no virama: a consonant without a vowel is written alone, one with its implied vowel gets the vowel letter, and vowel signs become letters. '
  'Decoding gives the text back exactly, for both variants of the encoder and line by line, for every text whose viramas stand between a consonant and a consonant or the end of a word and '
  '(full variant) no word of which begins with a vowel sign, or (lite variant) no letter of the implied vowel directly follows a consonant. Other characters are copied.',
  ['inputs'], 'every well-formed text of up to N code points',
  'The tool has no test.',
  ['experimental/unicode_fix.py'], [('AbugidaLang.encode/decode', 'experimental/unicode_fix.py:108'), ('AbugidaLangLite', 'experimental/unicode_fix.py:189')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
print(len(P), 'properties')
