#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below and props.py."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
import props
L = []
def p(id, title, statement, over, text, why, files, mech): L.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))
p('P01', 'Random data is delivered once, completely and in order', 'Data read from a randomness source consists exactly of the bytes the source produced: every byte is delivered at most once, requests up to the buffer size are served in order without gaps, and nothing outside the requested range is written. Typed draws (8 to 64 bit integers, booleans) are the little-endian value, or one fixed bit, of the next bytes.', ['inputs', 'histories'], 'for every source content and every sequence of request sizes', 'the tests read a few fixed sizes from fixed sources; what matters is every alignment of a request with the end of the internal buffer', ['src/random/random.c', 'src/random/system.c'], [('buffered reads', 'src/random/random.c passgen_random_read'), ('refill', 'src/random/random.c passgen_random_reload')])
p('P02', 'Bounded random draws are uniform and in range', 'A draw with an upper bound always returns a value strictly below the bound, every value below the bound is equally likely when the source is uniform, and rejected attempts use fresh random data.', ['inputs'], 'for every bound of every width and every source word sequence', 'tests only see a statistical sample; a bias of one value or a bound missed for one maximum is invisible to them', ['src/random/random.c'], [('mask and reject', 'src/random/random.c passgen_random_u8_max .. u64_max')])
p('P03', 'A failing randomness source never yields predictable output', 'When the underlying source fails or delivers fewer bytes than asked for, at opening or at any later point, no random data is returned: opening fails or the process ends with an error status. This holds in debug and in release builds.', ['fault_sequences', 'configurations'], 'for every failing call, every short count, every request size, in debug and release configuration', 'tests use sources which never fail and only the debug configuration', ['src/random/random.c', 'src/random/system.c'], [('short read handling', 'src/random/random.c passgen_random_reload, passgen_random_read')])
p('P04', 'Deterministic sources reproduce their documented streams', 'The seeded xorshift source, the zero source and the key/iv stream cipher source produce the same documented stream for the same parameters, independent of how requests are split, and seeking in the cipher stream continues exactly at the requested position. Textual source descriptions open exactly the documented source with exactly the given seed, key and iv, or are refused.', ['inputs', 'histories'], 'for every seed, key, iv, description up to a length, request split and seek position', 'tests compare a handful of seeds and never split requests inside a cipher block', ['src/random/xorshift.c', 'src/random/zero.c', 'src/random/deterministic.c', 'src/random/random.c'], [('stream offset handling', 'src/random/deterministic.c'), ('description parsing', 'src/random/random.c passgen_random_open_parse')])
p('P05', 'Closing a randomness source erases its secrets', 'After a randomness source is closed, the object holding it is cleared, and no memory released in the process still contains key, iv, seed, generator state or buffered random data; underlying devices are closed exactly once and nothing is leaked.', ['inputs', 'configurations'], 'for every kind of source, caller-owned or allocated, unoptimised and optimised builds', 'tests never look at released memory', ['src/random/random.c', 'src/random/deterministic.c', 'src/random/xorshift.c', 'include/passgen/config.h.in'], [('clearing before release', 'PASSGEN_CLEAR in src/random')])
p('P06', 'UTF-8 decoding and encoding are exact', 'Decoding accepts exactly well-formed UTF-8 (no overlong forms, surrogates, values beyond U+10FFFF or truncated sequences) and yields the codepoints and widths it encodes; encoding is its exact inverse and never writes beyond the given capacity. Partial results and invalid input report exactly how much was consumed and produced before.', ['inputs'], 'for every byte string and codepoint sequence up to the bound and every output capacity', 'tests check samples of valid text; malformed input and small outputs form a huge space', ['src/util/utf8.c'], [('decoder tables', 'src/util/utf8.c passgen_utf8_decode'), ('encoder', 'src/util/utf8.c passgen_utf8_encode')])
p('P07', 'Pattern text is split into tokens as documented', 'Every pattern text is split into the documented tokens: plain characters, escaped characters, character escapes (tab, newline, carriage return, unicode by hexadecimal number) and wordlist or preset references with their exact names. Malformed escapes and values which are not Unicode characters are refused, independent of how the text is fed.', ['inputs'], 'for every codepoint sequence up to the bound', 'tests feed a fixed list of tokens', ['src/parser/token.c'], [('token state machine', 'src/parser/token.c passgen_token_parse')])
p('P08', 'No pattern text can corrupt memory, crash or leak', 'Parsing any text, valid or not, terminates without touching memory out of bounds, without aborting, and with all memory released once the pattern is freed, also when parsing fails half-way.', ['inputs'], 'for every byte string up to the bound, including malformed UTF-8, and longer templates with free positions', 'tests and the sample corpus only contain text somebody thought of', ['src/passgen.c', 'src/parser/parser.c', 'src/parser/token.c', 'src/pattern'], [('parser state stack', 'src/parser/parser.c passgen_parser_token')])
p('P09', 'Exactly the documented pattern language is accepted', 'A pattern is accepted if and only if it belongs to the documented pattern language (literals, escapes, character sets with ranges, groups with weighted alternatives, repetitions, optional items, wordlist and preset references). Omitted numbers count as 0, sets may be empty, and groups nest up to 10000 deep.', ['inputs'], 'for every pattern over the alphabet of syntax characters up to the bound', 'tests list some accepted and rejected patterns; nesting and adjacency of constructs is unbounded', ['src/parser/parser.c', 'src/parser/token.c', 'src/passgen.c'], [('parser states', 'src/parser/parser.c')])
p('P10', 'Generated passphrases match the pattern, uniformly', 'Each generated passphrase belongs to the language of its pattern, and is the one selected by independent uniform random choices: weighted alternatives in proportion to their weights, set members in proportion to their multiplicity, repetition counts uniformly within the range, optional items with probability one half. Hence every passphrase of the language can be produced.', ['inputs', 'programs'], 'for every pattern up to the bound and every random stream', 'tests match samples against a few fixed patterns; the choice made for a given random value is never checked', ['src/generate.c', 'src/parser/parser.c', 'src/pattern'], [('choice mapping', 'src/generate.c')])
p('P11', 'Reported entropy equals the product of all choices made', 'The entropy reported with a passphrase is the product of the number of equally likely options of every random choice made while generating it (alternatives, set members, repetition counts, optional items, words), in every output form, and does not depend on the output buffer.', ['inputs', 'programs'], 'for every pattern up to the bound and every random stream', 'tests compare a few constants', ['src/generate.c', 'src/markov.c'], [('entropy product', 'src/generate.c')])
p('P12', 'Output buffers are never overrun and output is well-formed', 'Generating into a buffer of any size never writes past it and reports how much was written; UTF-8 output is well-formed and equals the codepoint output, and JSON output is the same text correctly escaped as the content of a JSON string.', ['inputs'], 'for every buffer size and every generated codepoint', 'tests use large buffers and plain characters', ['src/generate.c', 'src/util/utf8.c'], [('bounded write callbacks', 'src/generate.c')])
p('P13', 'Nesting depth is limited during generation', 'Generation never recurses deeper than the configured depth limit through nested groups; a pattern nested deeper makes generation fail and report no output, a pattern nested up to the limit is generated completely, and nothing else is affected.', ['inputs', 'programs'], 'for every depth limit up to the bound and every nesting of groups up to the bound', 'tests do not exercise nested patterns against the limit', ['src/generate.c', 'src/pattern/env.c'], [('depth counter', 'src/generate.c')])
p('P14', 'Repetition ranges are honoured exactly', 'A repetition {n} produces exactly n copies and {n,m} between n and m copies, each count equally likely; ranges with m below n or numbers too large to represent are refused.', ['inputs'], 'for every pair of numbers with up to the bound of digits', 'tests use a handful of small numbers', ['src/parser/parser.c', 'src/generate.c'], [('repeat parsing', 'src/parser/parser.c'), ('repeat choice', 'src/generate.c')])
p('P15', 'The stack behaves as a stack', 'For every sequence of operations the stack returns exactly the elements pushed and not yet popped, in last-in-first-out order, with elements at stable indices, and releases all memory.', ['histories', 'inputs'], 'for every operation sequence and element content up to the bound, across all internal growth steps', 'tests push and pop in one straight pattern', ['src/container/stack.c'], [('segmented storage', 'src/container/stack.c')])
p('P16', 'The dynamic array behaves as a sequence', 'For every sequence of operations the array returns exactly the pointers appended and not yet removed, in order, never touches memory out of bounds and releases all memory.', ['histories', 'inputs'], 'for every operation sequence up to the bound and every initial capacity', 'tests use one fixed sequence', ['src/container/array.c'], [('growth', 'src/container/array.c')])
p('P17', 'The hash map behaves as a map', 'For every sequence of insertions, removals and lookups, and whatever values the hash functions take, the map holds exactly one entry per key with the value last inserted; insertion and removal return the replaced entry, the reported size is exact and iteration visits every entry once.', ['histories', 'inputs'], 'for every operation sequence up to the bound and every hash function on the keys used', 'tests use friendly keys and mostly insertions; collisions, displacement and reinsertion after removal are a matter of hash values', ['src/container/hashmap.c'], [('two-choice placement', 'src/container/hashmap.c passgen_hashmap_insert')])
p('P18', 'Keyed hashing implements SipHash-2-4', 'The keyed hash equals SipHash-2-4 for every message, key and both output lengths, and reads only the message bytes. Map keys which are equal hash equally, and text keys depend on all their bytes.', ['inputs'], 'for every message content up to the bound and every key', 'tests check the published vectors for one key', ['src/util/siphash.c', 'src/container/hashmap.c'], [('compression rounds', 'src/util/siphash.c')])
p('P19', 'Markov models count and generate correctly', 'A Markov model built from words contains exactly their weighted character transitions (for weights whose sum is below 2^32); generation follows only transitions of the model, in proportion to their weights, so every produced word is made of windows present in the training words, and the reported entropy is the product of the branching factors.', ['inputs', 'histories'], 'for every set of words, weights and insertion order up to the bound and every random draw', 'tests train on one list and inspect a few counts', ['src/markov.c', 'src/generate.c'], [('transition tree', 'src/markov.c')])
p('P20', 'Wordlists are loaded exactly', 'Loading a wordlist file yields exactly its non-empty lines in order, for every file content without NUL characters, with or without a final newline, and picking a word picks each with equal probability and fails on an empty list; a file which cannot be read completely, or a word which is not UTF-8, makes loading or generating fail and leaves nothing behind. A name refers to the list it was last given to.', ['inputs', 'fault_sequences'], 'for every file content up to the bound, word counts across the growth steps, and read failures', 'tests load one fixed list', ['src/wordlist.c'], [('line scanner', 'src/wordlist.c passgen_wordlist_scan')])
p('P21', 'Custom allocators are used consistently', 'A context with custom allocation functions routes every allocation, reallocation and release to exactly these functions with the given state, and a default context uses the system allocator.', ['inputs', 'configurations'], 'for every size, pointer, state and combination of functions', 'tests set one function at a time with fixed values', ['src/context.c'], [('dispatch', 'src/context.c')])
p('P22', 'The command line is interpreted as documented', 'Command line options have their documented effect in any order, long and short, attached and separate; unknown options, invalid values, unknown presets, sources which cannot be opened, refused patterns and generation failures end with an error status and a message, without a pattern the usage is shown, and success is only reported when every requested passphrase was written.', ['inputs', 'programs'], 'for every combination of options up to the bound with symbolic values', 'the tests run a few fixed command lines of the option parser', ['src/cli/passgen.c', 'src/cli/main.c'], [('option parsing', 'src/cli/passgen.c passgen_cli_opts_parse')])
p('P23', 'Configuration files are read safely and as documented', 'A configuration file of any content and size is processed without touching memory out of bounds; each preset and wordlist line defines exactly what it says, comments and blank lines define nothing, and malformed lines are reported and define nothing. A missing per-user or system file is not an error.', ['inputs'], 'for every file content up to the bound and files around the internal size limit', 'no test reads a configuration file', ['src/cli/passgen.c'], [('config parser', 'src/cli/passgen.c passgen_cli_opts_config_parse')])
p('P24', 'The system call filter blocks dangerous calls and is enforced', 'When the program is built with sandboxing, it installs a filter before processing its input, which kills the process on creating processes, opening network sockets, opening files for writing, writing to anything but the standard outputs, executable memory and every other call not on its list, for every call number, and permits the calls the program itself needs; failing to install the filter ends the program.', ['inputs', 'fault_sequences'], 'for every failing step of the installation', 'tests never enable the filter', ['src/cli/passgen.c', 'src/cli/main.c'], [('filter installation', 'src/cli/passgen.c')])
p('P25', 'Parse errors point at the offending position', 'When a pattern is refused, the reported position lies inside the text and is where the first character, escape or malformed UTF-8 sequence starts behind which no continuation could make the text acceptable (the end of the text if it is merely incomplete), both counted in characters and in bytes; every failure carries a message.', ['inputs'], 'for every pattern up to the bound, single and multi byte characters, before and after internal chunk boundaries', 'tests look at error codes only', ['src/passgen.c', 'src/error.c', 'src/parser/parser.c'], [('offset accounting', 'src/passgen.c')])
p('P26', 'Version compatibility follows semantic versioning', 'The version check accepts a requested version exactly if the running library is compatible with it under semantic versioning, and the reported version equals the one the project declares.', ['inputs'], 'for every triple of version numbers', 'tests check a few triples', ['src/version.c.in', 'include/passgen/version.h'], [('comparison', 'src/version.c.in')])
p('P27', 'Opening a source fails cleanly without memory', 'When memory runs out while opening any randomness source, opening reports failure, releases everything it acquired and returns no usable source.', ['fault_sequences'], 'for every failing allocation of every kind of source', 'tests never let an allocation fail', ['src/random'], [('allocation checks', 'src/random/*.c')])
p('P28', 'Master passphrases derive streams from all their inputs', 'The stream derived from a master passphrase depends on exactly the passphrase, domain, token and cost parameters given, each passed completely and separately to the key derivation, whose result keys the stream; overlong fields in a textual description are refused instead of truncated.', ['inputs'], 'for every passphrase, domain and token up to the bound, absent domain or token, and lengths around the field limit', 'tests use one passphrase', ['src/random/deterministic.c', 'src/random/random.c'], [('derivation inputs', 'src/random/deterministic.c passgen_random_chacha20_argon2_open')])
p('P29', 'The stream cipher and hash primitives are the published ones', 'The bundled stream cipher equals ChaCha20 for every key, nonce, counter and length, and the bundled hash equals BLAKE2b; both read and write only the given ranges.', ['inputs'], 'for every key, nonce, counter and message content up to the bound', 'no test of this repository covers them', ['src/monocypher.c'], [('rounds', 'src/monocypher.c')])
p('P30', 'Printed output is exactly the generated passphrases', 'The program prints exactly the requested number of passphrases in the requested format (lines, NUL separated, JSON array with entropy), each exactly as generated including every character, and the JSON is well-formed for every passphrase. A passphrase longer than the output limit (256 bytes) ends the program with an error instead of being cut.', ['inputs', 'programs'], 'for every generated text, amount and output format up to the bound', 'no test looks at the printed output', ['src/cli/passgen.c'], [('output loop', 'src/cli/passgen.c passgen_cli_generate')])
p('P31', 'The password hash is Argon2', 'The bundled password hash equals Argon2 (RFC 9106: d, i and id with one lane, i with any number of lanes) for every passphrase, salt, key, associated data, output size and cost parameter; it writes only the output and the work area, which is cleared afterwards.', ['inputs'], 'for every content of passphrase, salt, key and associated data, over a range of sizes and cost parameters', 'no test covers it', ['src/monocypher.c'], [('block fill', 'src/monocypher.c passgen_argon2')])
NA = {
}
OUT = os.path.join(V, 'properties.jsonl')
open(OUT, 'w').write(''.join(json.dumps(x) + '\n' for x in L))
checks = []; na = []
for x in L:
    i = x['id']
    if i in props.PROPS:
        P = props.PROPS[i]
        checks.append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i, thorough_cmd='python3 check.py %s --tier thorough' % i, technique='symbolic execution of the compiled sources (LLVM bitcode) with Z3 deciding every branch, memory access and assertion', level='model_checking',
          level_note=P.get('note', 'Holds for all values within the stated bounds of each run (evidence lists them); trusts clang -O0 bitcode as the code, the libc and environment model in lib/, and Z3. Counterexamples are replayed natively before being reported.')))
    else: na.append(dict(property=i, reason=NA.get(i, 'no check built yet')))
json.dump(dict(version=1, setup_cmd='python3 check.py --setup', checks=checks, not_applicable=na), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
