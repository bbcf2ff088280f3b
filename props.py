COMMON_ASSUMPTIONS = [
  "clang -O0 + mem2reg,simplifycfg bitcode of the sources represents the code under test (counterexamples and sampled path witnesses are replayed against an ASan build of the same sources)",
  "libc functions and I/O are modelled by /verif/lib/libc.c and /verif/lib/io.c; malloc succeeds unless a harness injects a failure",
]
def R(name, src, entry, **k): return dict(name=name, src=src, entry=entry, **k)
def C(name, entry, **k): return R(name, 'cli.c', entry, cli='main', repo_flags=['-Dmain=passgen_main'], **k)
PROPS = {
 'P01': dict(runs=[
   R('stream', 'random.c', 'h_stream', params={0: 1026, 1: 0}, thorough={1: 1}, jobs=4, covers=['oversized first', 'crosses the buffer end'], bounds='all source contents; first request 0..1026 bytes (every size), second (thorough: and third) at every threshold around the buffer size and the remaining bytes'),
   R('typed', 'random.c', 'h_typed', params={0: 20, 1: 2}, thorough={0: 40, 1: 3}, covers=['done'], bounds='all source contents; sequences of 2 (3) typed draws at every offset within 20 (40) bytes of the end of the buffer'),
   R('system', 'random.c', 'h_system', covers=['system', 'file'], bounds='getrandom and file sources, 8 request sequences, all contents'),
   R('missing', 'random.c', 'h_missing_file', covers=['done']),
 ]),
 'P02': dict(runs=[
   R('bounded', 'random.c', 'h_bounded', covers=['accepted', 'rejected'], jobs=2, bounds='all 8/16/32/64-bit maxima, all source words, all pairs of target values'),
   R('rejections', 'random.c', 'h_rejections', covers=['two rejections'], jobs=2, bounds='all maxima, all sequences of up to 3 source words'),
   R('edge', 'random.c', 'h_bounded_edge', covers=['done'], bounds='draws at every offset up to one word and one byte before the end of the buffer'),
 ]),
 'P03': dict(runs=[
   R('failure-debug', 'random.c', 'h_failure', covers=['stopped'], bounds='source fails at its 1st..3rd call with 0, 1, n/2, n-1, n+1 or -1; three request sizes'),
   R('failure-release', 'random.c', 'h_failure', config='release', covers=['stopped']),
   R('short-debug', 'random.c', 'h_short_file', covers=['stopped'], params={0: 2100}, bounds='every file size 0..2100'),
   R('short-release', 'random.c', 'h_short_file', covers=['stopped'], params={0: 2100}, config='release'),
 ]),
 'P04': dict(runs=[
   R('xorshift', 'random.c', 'h_xorshift', covers=['done'], params={0: 130}, thorough={0: 400}, bounds='all 64-bit seeds, 130 (400) words'),
   R('xorshift-big', 'random.c', 'h_xorshift_big', covers=['done']),
   R('zero', 'random.c', 'h_zero', covers=['done']),
   R('seed', 'random.c', 'h_seed', params={0: 4}, thorough={0: 19}, covers=['refused', 'seeded'], bounds='all decimal seeds of up to 4 (19) digits'),
   R('desc', 'random.c', 'h_desc', params={0: 7}, thorough={0: 8}, covers=['zero', 'system', 'refused'], bounds='all descriptions of up to 7 (8) bytes'),
   R('chacha-desc', 'chacha.c', 'h_chacha_desc', override=True, stubbed=['passgen_chacha20_djb'], covers=['overlong', 'opened'], bounds='all keys of 0..34 bytes, ivs of 0..9 bytes'),
   R('chunks', 'chacha.c', 'h_chunks', override=True, stubbed=['passgen_chacha20_djb'], jobs=2, params={0: 140}, thorough={0: 400}, covers=['done'], bounds='all keystreams; two requests of every size 0..140 (400), a third of six sizes'),
   R('seek', 'chacha.c', 'h_seek', override=True, stubbed=['passgen_chacha20_djb'], jobs=2, params={0: 300}, thorough={0: 900}, covers=['done'], bounds='every position 0..300 (900)'),
   R('oversized', 'chacha.c', 'h_oversized', override=True, stubbed=['passgen_chacha20_djb'], covers=['done'], bounds='every oversized request of 1025..1155 bytes'),
 ]),
 'P15': dict(runs=[
   R('stack', 'container.c', 'h_stack', jobs=2, params={0: 40, 1: 2}, thorough={0: 140, 1: 4}, covers=['done'], bounds='every size 0..40 (140) reached by pushes and optional pops, then every sequence of 2 (4) operations with symbolic elements of 1, 5, 8 or 24 bytes'),
   R('long', 'container.c', 'h_stack_long', jobs=3, covers=['done'], bounds='grow to 31..289 elements, shrink, grow again, at every multiple of 32 +-1'),
 ]),
 'P16': dict(runs=[R('array', 'container.c', 'h_array', params={0: 17, 1: 3}, thorough={0: 40, 1: 7}, covers=['done', 'refused'], bounds='initial capacities 0..5, 0..17 (40) elements, then every sequence of 3 (7) operations')]),
 'P17': dict(runs=[
   R('ops', 'container.c', 'h_hashmap', jobs=4, params={0: 3, 1: 4, 2: 7, 3: 7}, thorough={0: 3, 1: 5, 2: 17}, covers=['done', 'stop'], time=200, bounds='every sequence of 4 (5) insertions and removals on 3 keys, all pairs of hash values below 7 per key, up to capacity 7 (17)'),
   R('fill', 'container.c', 'h_hashmap_fill', jobs=4, params={0: 4, 2: 7, 3: 4}, thorough={0: 4, 2: 17, 3: 7}, covers=['done'], time=200, bounds='4 keys with all pairs of hash values below 4 (7), then removal and reinsertion'),
   R('many', 'container.c', 'h_hashmap_many', jobs=4, params={0: 400}, thorough={0: 1800}, covers=['done'], bounds='400 (1800) keys inserted, removed in four ways and inserted again under six well-distributed pairs of hash functions'),
   R('text-long', 'container.c', 'h_hashmap_text_long', params={0: 40}, thorough={0: 70}, covers=['same', 'different'], bounds='two text keys which share their first 0..40 (70) bytes, up to two further bytes of any value'),
   R('text32-many', 'container.c', 'h_hashmap_text32_many', covers=['done'], bounds='three wide keys differing in position 0..3'),
 ]),
 'P18': dict(runs=[
   R('siphash', 'container.c', 'h_siphash', params={0: 17}, thorough={0: 40}, covers=['short', 'wide'], bounds='all messages of 0..17 (40) bytes, all keys, both lengths'),
   R('text', 'container.c', 'h_hashmap_text', params={0: 3}, thorough={0: 7}, covers=['same', 'different'], bounds='all text keys of up to 3 (7) bytes'),
   R('text-long', 'container.c', 'h_hashmap_text_long', params={0: 40}, thorough={0: 70}, covers=['same', 'different'], bounds='text keys which share their first 0..40 (70) bytes, up to two further bytes of any value'),
   R('text32', 'container.c', 'h_hashmap_text32', params={0: 2}, thorough={0: 3}, covers=['same', 'different']),
 ]),
 'P21': dict(runs=[R('context', 'container.c', 'h_context', covers=['done'], bounds='all sizes, counts, pointers and states, every combination of custom functions')]),
 'P26': dict(runs=[R('debug', 'container.c', 'h_version', version_params=True, covers=['done'], bounds='all version triples'), R('release', 'container.c', 'h_version', version_params=True, config='release', covers=['done'])]),
 'P27': dict(runs=[R('open', 'random.c', 'h_nomem', jobs=4, params={0: 4}, covers=['failed', 'opened'], bounds='every description and opening function, own and allocated objects, each of the first four allocations failing; all seeds, keys and ivs'),
   R('open-release', 'random.c', 'h_nomem', jobs=4, params={0: 4}, config='release', covers=['failed', 'opened'])]),
 'P28': dict(runs=[
   R('master', 'chacha.c', 'h_master', override=True, flags=['-DWITH_ARGON'], stubbed=['passgen_chacha20_djb', 'passgen_argon2'], covers=['done'], params={0: 3}, thorough={0: 12}, bounds='all passphrases, domains, tokens of up to 3 (12) bytes, NULL domain and token, custom cost parameters'),
   R('desc', 'chacha.c', 'h_master_desc', override=True, flags=['-DWITH_ARGON'], stubbed=['passgen_chacha20_djb', 'passgen_argon2'], covers=['overlong', 'opened'], bounds='1 to 3 fields with lengths 0,1,2,5,126,127,128,130, all contents'),
 ]),
 'P05': dict(runs=[
   R('chacha', 'chacha.c', 'h_wipe', override=True, flags=['-DWITH_ARGON', '-DWITH_WIPE'], stubbed=['passgen_chacha20_djb', 'passgen_argon2'], covers=['done'], bounds='all keys, ivs and keystreams; heap and caller-owned objects; before and after reads and seeks'),
   R('other', 'chacha.c', 'h_wipe_other', override=True, flags=['-DWITH_ARGON', '-DWITH_WIPE'], stubbed=['passgen_chacha20_djb', 'passgen_argon2'], covers=['done']),
   R('chacha-O2', 'chacha.c', 'h_wipe', override=True, flags=['-DWITH_ARGON', '-DWITH_WIPE'], repo_flags=['-O2', '-fbuiltin'], config='release', stubbed=['passgen_chacha20_djb', 'passgen_argon2'], covers=['done'], bounds='the same on optimised release code: a clearing the optimiser may drop does not count'),
   R('other-O2', 'chacha.c', 'h_wipe_other', override=True, flags=['-DWITH_ARGON', '-DWITH_WIPE'], repo_flags=['-O2', '-fbuiltin'], config='release', stubbed=['passgen_chacha20_djb', 'passgen_argon2'], covers=['done']),
 ]),
 'P06': dict(runs=[
   R('decode', 'utf8.c', 'h_decode', params={0: 4}, thorough={0: 6}, jobs=4, covers=['invalid', 'complete', 'output full'], bounds='all byte strings up to 4 (thorough 6) bytes, all output capacities'),
   R('encode', 'utf8.c', 'h_encode', params={0: 2}, thorough={0: 3}, jobs=2, covers=['all', 'full', 'invalid'], bounds='all sequences of up to 2 (3) 32-bit values, all capacities 0..4N+1'),
   R('codepoint', 'utf8.c', 'h_codepoint', covers=['invalid', 'valid'], bounds='all 32-bit values'),
   R('long', 'utf8.c', 'h_long_text', jobs=4, covers=['done'], bounds='texts of 15..513 characters of one to four bytes, the last of any value, converted in one and in two steps'),
   R('roundtrip', 'utf8.c', 'h_roundtrip', params={0: 2}, thorough={0: 4}, covers=['done']),
 ]),
 'P07': dict(runs=[
   R('tokens', 'pattern.c', 'h_token', jobs=4, params={0: 5}, thorough={0: 7}, covers=['plain', 'escaped', 'error'], bounds='every sequence of up to 5 (7) characters of any value and width'),
   R('unicode', 'pattern.c', 'h_unicode', jobs=4, covers=['refused', 'value'], bounds='every escape of 0..8 hexadecimal digits'),
   R('unicode-any', 'pattern.c', 'h_unicode', jobs=4, params={0: 1}, covers=['refused', 'value'], bounds='the same with any characters in place of digits'),
   R('feed', 'pattern.c', 'h_feed', jobs=4, params={0: 4, 1: 2, 2: 2}, thorough={0: 5, 2: 3}, covers=['accepted', 'refused'], bounds='every text of up to 4 (5) characters of the syntax, as UTF-8 and as codepoints'),
   R('feed-wide', 'pattern.c', 'h_feed', jobs=4, params={0: 2, 1: 0}, thorough={0: 3}, covers=['accepted', 'refused'], bounds='every text of up to 2 (3) characters of any value'),
 ]),
 'P08': dict(runs=[
   R('bytes', 'pattern.c', 'h_all', jobs=8, params={0: 4, 1: 5, 2: 16}, thorough={0: 5}, covers=['accepted', 'refused'], bounds='every byte string of up to 4 (5) bytes'),
   R('ascii', 'pattern.c', 'h_all', jobs=8, params={0: 6, 1: 1, 2: 16}, thorough={0: 7}, covers=['accepted', 'refused'], bounds='every text of up to 6 (7) ASCII characters'),
   R('templates', 'pattern.c', 'h_tpl', jobs=8, params={2: 16}, covers=['accepted', 'refused'], bounds='51 longer texts with up to 6 free characters each'),
   R('chunk', 'pattern.c', 'h_chunk', jobs=8, params={0: 250, 1: 8, 2: 16}, thorough={0: 240, 1: 30}, covers=['accepted', 'refused'], bounds='texts of 250..258 (240..270) characters followed by 9 constructs with free characters'),
   R('partial', 'pattern.c', 'h_partial', jobs=4, params={0: 4}, thorough={0: 5}, covers=['refused', 'done'], bounds='every token sequence of up to 4 (5) characters, parser released at any point, own or allocated pattern, with and without limit'),
   R('deep', 'pattern.c', 'h_deep', jobs=4, params={0: 0}, covers=['done'], bounds='9990..10010 open groups'),
 ]),
 'P09': dict(runs=[
   R('ascii', 'pattern.c', 'h_all', jobs=8, params={0: 6, 1: 1, 2: 1}, thorough={0: 7}, covers=['accepted', 'refused'], bounds='every text of up to 6 (7) ASCII characters'),
   R('syntax', 'pattern.c', 'h_all', jobs=8, params={0: 7, 1: 3, 2: 1}, thorough={0: 8}, covers=['accepted', 'refused'], bounds='every text of up to 7 (8) characters over the alphabet abc12()[]{}|?-,\\'),
   R('bytes', 'pattern.c', 'h_all', jobs=8, params={0: 4, 1: 5, 2: 1}, thorough={0: 5}, covers=['accepted', 'refused'], bounds='every byte string of up to 4 (5) bytes'),
   R('templates', 'pattern.c', 'h_tpl', jobs=8, params={2: 1}, covers=['accepted', 'refused'], bounds='51 longer texts with up to 6 free characters each'),
 ]),
 'P10': dict(runs=[
   R('ascii', 'pattern.c', 'h_all', jobs=8, params={0: 5, 1: 1, 2: 4}, thorough={0: 6}, covers=['generated'], bounds='every text of up to 5 (6) ASCII characters and every random stream (rejected draws excluded)'),
   R('syntax', 'pattern.c', 'h_all', jobs=8, params={0: 6, 1: 3, 2: 4}, thorough={0: 7}, covers=['generated'], bounds='every text of up to 6 (7) characters over the alphabet of the syntax'),
   R('templates', 'pattern.c', 'h_tpl', jobs=8, time=240, params={0: 0, 1: 43, 2: 4}, covers=['generated'], bounds='44 longer texts with up to 6 free characters each, every random stream'),
   R('templates-large', 'pattern.c', 'h_tpl', jobs=8, params={0: 46, 1: 50, 2: 4}, thorough={0: 44}, covers=['generated'], bounds='weights and repetitions around 2^63 and 2^64'),
   R('rejected', 'pattern.c', 'h_tpl', jobs=8, params={0: 19, 1: 19, 2: 4, 6: 1}, covers=['generated'], bounds='the same with up to one rejected draw per choice'),
 ]),
 'P11': dict(runs=[
   R('syntax', 'pattern.c', 'h_all', jobs=8, params={0: 5, 1: 3, 2: 8}, thorough={0: 6}, covers=['entropy'], bounds='every text of up to 5 (6) characters over the alphabet of the syntax, every random stream'),
   R('templates', 'pattern.c', 'h_etpl', jobs=8, covers=['entropy'], bounds='16 patterns with weights, repetitions, sets and optional items, with free digits 0..3 and syntax characters'),
   R('output', 'pattern.c', 'h_output', jobs=8, covers=['utf8', 'json']),
 ]),
 'P12': dict(runs=[
   R('output', 'pattern.c', 'h_output', jobs=8, covers=['full', 'utf8', 'json', 'surrogate'], bounds='9 patterns which produce any codepoint, every buffer size, three output forms'),
   R('callback', 'pattern.c', 'h_callback', jobs=8, covers=['stopped', 'complete'], bounds='4 patterns, generation stopped after every number of characters'),
 ]),
 'P13': dict(runs=[
   R('depth', 'pattern.c', 'h_depth', jobs=8, covers=['failed', 'generated'], params={3: 8}, bounds='13 patterns with free characters, every depth limit 0..8'),
   R('any', 'pattern.c', 'h_depth_any', jobs=8, covers=['failed', 'generated'], params={0: 7, 3: 3}, thorough={0: 9, 3: 5}, bounds='every text of up to 7 (9) of the characters ()|a?, every depth limit 0..3 (5)'),
   R('repeated', 'pattern.c', 'h_depth_any', jobs=8, covers=['failed', 'generated'], params={0: 4, 1: 1, 3: 4}, thorough={0: 6, 3: 6}, bounds='three repetitions of a group of up to 4 (6) of these characters followed by a group'),
 ]),
 'P14': dict(runs=[
   R('counts', 'pattern.c', 'h_numbers', jobs=8, thorough={1: 15}, covers=['generated', 'refused'], bounds='15 patterns with repetitions of one and two digits each, every random stream'),
   R('large', 'pattern.c', 'h_tpl', jobs=8, params={0: 43, 1: 50, 2: 1}, covers=['accepted', 'refused'], bounds='numbers of 18 to 21 digits around 2^63 and 2^64'),
   R('stopped', 'pattern.c', 'h_large', jobs=8, covers=['stopped', 'complete'], params={0: 3}, thorough={0: 6}, bounds='13 ranges of repetitions around 2^32, 2^63 and 2^64, every random stream, generation stopped after 4 (7) characters'),
 ]),
 'P25': dict(runs=[
   R('ascii', 'pattern.c', 'h_all', jobs=8, params={0: 6, 1: 1, 2: 2}, thorough={0: 7}, covers=['refused'], bounds='every text of up to 6 (7) ASCII characters'),
   R('bytes', 'pattern.c', 'h_all', jobs=8, params={0: 4, 1: 5, 2: 2}, thorough={0: 5}, covers=['refused'], bounds='every byte string of up to 4 (5) bytes'),
   R('chunk', 'pattern.c', 'h_chunk', jobs=8, params={0: 250, 1: 8, 2: 2}, thorough={0: 240, 1: 30}, covers=['accepted', 'refused'], bounds='texts of 250..258 (240..270) single and multi byte characters followed by 9 constructs with free characters'),
   R('templates', 'pattern.c', 'h_tpl', jobs=8, params={2: 2}, covers=['refused'], bounds='51 longer texts with up to 6 free characters each'),
 ]),
 'P19': dict(runs=[
   R('transitions', 'words.c', 'h_markov', jobs=4, params={0: 1, 1: 2, 4: 80}, thorough={1: 3}, covers=['done'], bounds='a word of up to 2 (3) characters of any value 1..80 (every collision in tables of 3 to 79 entries), weights 1 and 2, levels 1..3, every context'),
   R('transitions-two', 'words.c', 'h_markov', jobs=4, params={0: 2, 1: 1, 4: 40}, thorough={4: 255}, covers=['done'], bounds='two words of one character of any value 1..40 (255), as above'),
   R('far', 'words.c', 'h_markov', jobs=4, params={0: 2, 1: 2, 3: 3}, covers=['done'], bounds='two words of up to 2 characters of 6 which collide in tables of up to 43853 entries'),
   R('letters', 'words.c', 'h_markov', jobs=4, params={0: 2, 1: 3, 3: 1}, thorough={1: 4}, covers=['done'], bounds='3 words of 1..3 (4) letters of an alphabet of 3 which collide in the tables, weights 1 and 2, levels 1..3'),
   R('weights', 'words.c', 'h_markov_weights', jobs=4, covers=['done'], params={0: 4}, thorough={0: 8}, bounds='three words with weights of 1..65536 (10^9), every collision of their letters, every draw'),
   R('words', 'words.c', 'h_markov_words', jobs=4, covers=['word', 'too long'], bounds='2 words of 1..3 letters, levels 1..3, every random stream, words of up to 5 letters'),
   R('long', 'words.c', 'h_markov_long', jobs=2, covers=['done'], bounds='words of 100..340 characters, levels 1..255'),
 ]),
 'P20': dict(runs=[
   R('load', 'words.c', 'h_load', jobs=4, params={0: 6}, thorough={0: 8}, covers=['empty', 'picked'], bounds='every file of up to 6 (8) bytes, every draw'),
   R('unloaded', 'words.c', 'h_unloaded', covers=['done']),
   R('many', 'words.c', 'h_load_many', jobs=4, thorough={0: 4}, covers=['done'], bounds='1..6, 255..260, 510..515 (1022..1027, 2046..2051) words'),
   R('fail', 'words.c', 'h_load_fail', covers=['failed'], bounds='files which cannot be measured or are shorter than their size'),
   R('generate', 'words.c', 'h_words', jobs=8, covers=['entropy', 'failed'], bounds='9 patterns, lists of 1..3 words of 1..2 ASCII characters, every random stream'),
   R('generate-wide', 'words.c', 'h_words', jobs=8, params={0: 0, 1: 1, 3: 1, 5: 0}, thorough={5: 1}, covers=['entropy'], bounds='words of any character'),
   R('generate-long', 'words.c', 'h_words_long', jobs=2, covers=['done'], bounds='words of 121..141 characters of one and three bytes'),
   R('invalid', 'words.c', 'h_words_invalid', jobs=4, covers=['invalid', 'valid'], bounds='words of up to 3 arbitrary bytes'),
   R('names', 'words.c', 'h_names', jobs=4, covers=['known', 'unknown'], bounds='three lists with names of an alphabet of 3'),
 ]),
 'P22': dict(runs=[
   C('menu', 'h_menu', jobs=8, params={0: 2}, thorough={0: 3}, covers=['error', 'help', 'list', 'failed', 'generated'], bounds='every sequence of up to 2 (3) of 54 arguments (long, short, abbreviated, attached, bundled, operands), with and without a pattern'),
   C('options', 'h_opts', jobs=8, params={0: 3, 1: 2}, thorough={0: 4}, covers=['error', 'help', 'list', 'generated'], bounds='a first argument of up to 2 dashes and 1..3 (4) characters of any value, a second of up to 2 characters, with and without a pattern'),
   C('long', 'h_long', jobs=4, covers=['error', 'help', 'generated'], bounds='every prefix of 9 long names followed by up to 2 characters of any value'),
   C('numbers', 'h_numbers_cli', jobs=4, covers=['valid', 'invalid'], bounds='numbers of up to 3 characters of any value and up to 30 digits around 2^64 for amount, depth and Markov length in three forms'),
   C('amount', 'h_amount', jobs=4, covers=['generated', 'failed'], bounds='every amount 1..19 (more stops early), every depth limit 0..99, four nested patterns'),
   C('markov', 'h_markov_cli', jobs=2, covers=['done'], bounds='every pair of 6 Markov lengths before and between two wordlists'),
   C('failures', 'h_fail', jobs=2, covers=['failed'], bounds='sources which cannot be opened, failing system randomness, full output, patterns which cannot be generated; four output forms'),
   C('caret', 'h_caret', jobs=8, covers=['caret'], bounds='8 patterns with up to 4 free characters'),
   C('master', 'h_master_cli', jobs=4, override=True, flags=['-DSTUB_MASTER'], stubbed=['passgen_random_chacha20_argon2_open'], covers=['none', 'failed', 'derived'], bounds='every order, presence and form of the three options, values of up to 2 characters'),
 ]),
 'P23': dict(runs=[
   C('any', 'h_config_any', jobs=8, params={0: 4}, thorough={0: 5}, covers=['defined'], bounds='every file of up to 4 (5) bytes'),
   C('lines', 'h_config', jobs=8, params={1: 1}, thorough={1: 3}, covers=['defined', 'failed', 'error', 'list'], bounds='10 files with every character replaced, preceded by one of 11 characters or removed'),
   C('values', 'h_config_values', jobs=8, covers=['defined'], bounds='8 files with up to two characters of any value'),
   C('size', 'h_config_size', jobs=4, covers=['defined'], bounds='files of 992..1008, 10232..10248, 20472..20488 and 40952..40968 bytes'),
   C('paths', 'h_config_paths', jobs=4, covers=['defined', 'error'], bounds='directories of 0..5016 bytes, every presence of the two variables and the two files'),
 ]),
 'P24': dict(runs=[C('filter', 'h_filter', jobs=8, covers=['failing', 'blocked', 'needed'], bounds='every call number and all argument values; failing installation at each step; 9 command lines')]),
 'P30': dict(runs=[
   C('print', 'h_print', jobs=8, params={3: 1}, thorough={3: 2}, covers=['generated', 'failed'], bounds='10 patterns, 1..2 (3) passphrases, four formats with and without entropy, every random stream'),
   C('many', 'h_print_many', jobs=4, params={0: 63}, covers=['generated'], bounds='1..64 passphrases in the four formats'),
   C('long', 'h_print_long', jobs=4, covers=['generated', 'failed'], bounds='passphrases of 240..260 bytes, plain and as JSON'),
 ]),
 'P29': dict(runs=[
   R('chacha', 'crypto.c', 'h_chacha', jobs=4, params={0: 140}, thorough={0: 520}, covers=['done'], bounds='all keys, nonces and texts of every size 0..140 (520), in place, copied and without a text; counters around 0 and 2^32 with every upper half, every counter for one block'),
   R('chacha-split', 'crypto.c', 'h_chacha_split', jobs=4, params={0: 66}, covers=['done'], bounds='one or two blocks, then 1..67 bytes with the counter returned'),
   R('variants', 'crypto.c', 'h_chacha_variants', jobs=2, params={0: 70}, covers=['h', 'ietf', 'x'], bounds='HChaCha20, the IETF and the extended nonce variant, 0..70 bytes'),
   R('blake', 'crypto.c', 'h_blake', jobs=8, params={0: 131}, thorough={0: 300}, covers=['done'], bounds='all messages of every size 0..131 (300), 6 key sizes, every output size for one message size'),
   R('blake-long', 'crypto.c', 'h_blake_long', jobs=2, covers=['done'], bounds='messages of 255..520 bytes around the block size'),
   R('blake-split', 'crypto.c', 'h_blake_split', jobs=8, params={0: 8}, thorough={0: 40}, covers=['done'], bounds='messages in two or three pieces across the block size'),
   R('helpers', 'crypto.c', 'h_helpers', covers=['done'], bounds='all pairs of 16, 32 and 64 bytes; clearing of 0..64 bytes'),
 ]),
 'P31': dict(runs=[
   R('configurations', 'argon.c', 'h_argon_conf', jobs=8, time=200, params={0: 0, 1: 27}, thorough={0: 0, 1: 28}, covers=['done'], bounds='28 (29) configurations: variants d, i, id with one lane, i with 1..4 lanes; 8..64 (524) blocks; 1..8 passes, among them the one the program uses; all passphrases of 4, salts of 8, keys and associated data of 2 bytes'),
   R('sizes', 'argon.c', 'h_argon_sizes', jobs=8, time=100, params={0: 0, 1: 47}, covers=['done'], bounds='16 sizes of the passphrase and of the associated data up to 180 bytes, 8 of the salt and of the key, all contents'),
   R('outputs', 'argon.c', 'h_argon_sizes', jobs=8, time=100, params={0: 48, 1: 26}, covers=['done'], bounds='27 output sizes 1..130, all contents'),
 ]),}
