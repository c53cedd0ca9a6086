#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (claimed = has units)."""
import json, os, glob, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, qtext, why, files, mech, over=('inputs',)):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': list(over), 'text': qtext},
              'why_tests_cant': why, 'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}})
S = 'src/strlib/'
p('P01', 'Base64 encoding and decoding are exact, inverse and stay inside their buffers',
  'For every byte string, encoding writes exactly the RFC 4648 text of the bytes (padding included) into exactly the documented number of characters, and decoding that text gives back the same bytes and their number. Decoding any text stops at the first character that is not base64, never reads past the terminator and never writes past the destination size it was given.',
  'every byte string of every length; every NUL-terminated text and destination size',
  'the one test encodes and decodes a few fixed strings; padding classes, alphabet positions and buffer limits at other lengths are not reached',
  [S+'base64enc.c', S+'base64dec.c', S+'base64_tbl.c', S+'base64enc_str.c', 'include/strlib.h'], [('base64enc', S+'base64enc.c'), ('base64dec', S+'base64dec.c'), ('base64enc_str', S+'base64enc_str.c'), ('size macros', 'include/strlib.h')])
p('P02', 'Hex encoding and decoding are exact and inverse',
  'For every byte string the hex text is the lower-case two-digit text of each byte in order, terminated, in exactly twice the size plus one; for every text of hex digits of either case decoding writes exactly the denoted bytes (an odd number of digits reads as if preceded by 0) and returns their number.',
  'every byte string and every hex text of every length', 'a self-test checks one word',
  [S+'raw2hex.c', S+'hex2raw.c', S+'hexval.c'], [('raw2hex', S+'raw2hex.c'), ('hex2raw', S+'hex2raw.c'), ('hexval', S+'hexval.c')])
p('P03', 'Numbers are written as their exact numerals, inside the stated buffer',
  'For every machine integer and base the text produced is the canonical numeral (most significant digit first, no leading zeros unless padding was asked for, minus sign exactly for negative signed values), NUL-terminated. Nothing outside the documented buffer is written, whatever buffer size is given.',
  'every value of the integer types, every base, padding option and buffer size', 'tests print a handful of values',
  [S+'itoa.c', S+'utoa.c', S+'numberToString.c', S+'intToString.c', S+'uintToString.c', S+'int64ToString.c', S+'uint64ToString.c'],
  [('itoa', S+'itoa.c'), ('utoa', S+'utoa.c'), ('numberToString', S+'numberToString.c')])
p('P04', 'Decimal text is parsed to the number it denotes',
  'For every text of decimal digits whose value fits the result type, exactly that value is returned, leading zeros included; parsing looks at no character after the stated length.',
  'every digit string of every length with a value in range', 'no test calls the parsers over a range of lengths and values',
  [S+'strtoint.c', S+'strtoint64.c'], [('strtoint', S+'strtoint.c'), ('strtoint64', S+'strtoint64.c')])
p('P05', 'IPv4 text and addresses convert exactly and invalid text is rejected',
  'Every IPv4 address is written as its dotted decimal text, and parsing that text yields the four bytes back; text is accepted as numeric IPv4 exactly when it is four decimal numbers up to 255 separated by single dots. No conversion touches memory outside the text and the documented buffers.',
  'every address, every NUL-terminated text', 'the test parses a few addresses',
  [S+'ipv4fromstring.c', S+'stringfromipv4.c', S+'isnumericipv4.c'], [('ipv4fromstring', S+'ipv4fromstring.c'), ('stringfromipv4', S+'stringfromipv4.c'), ('isnumericipv4', S+'isnumericipv4.c')])
p('P06', 'Text search finds exactly the first match',
  'Wildcard search, case-insensitive search and whole-word search return the first position where the pattern matches by their documented rule, and nothing when there is no such position; suffix and character-membership tests are true exactly when the text has that suffix or character. No search reads beyond either text.',
  'every pair of texts of every length', 'tests try a few patterns; overlapping partial matches and word boundaries at every position are not sampled',
  [S+'strstar.c', S+'strstr_uc.c', S+'findword.c', S+'strends.c', S+'containsChar.c'], [('strstar', S+'strstar.c'), ('strstr_uc', S+'strstr_uc.c'), ('findword', S+'findword.c'), ('strends', S+'strends.c'), ('containsChar', S+'containsChar.c')])
p('P07', 'Character classes, case conversion and substring copies are exact',
  'The character class predicates hold for exactly the characters of their class; converting a character to upper or lower case changes exactly the ASCII letters of the other case, and no other byte; copying the first n (at least one) characters of a text yields a fresh terminated text with exactly those characters, or nothing when memory is out.',
  'every character, every text and length, every allocation outcome', 'no test enumerates the character set or checks that other bytes stay untouched',
  [S+'isAlpha.c', S+'isLetter.c', S+'isLower.c', S+'isUpper.c', S+'isNumber.c', S+'makelower.c', S+'makeupper.c', S+'strdup_n.c', 'include/strlib.h'],
  [('isAlpha/isLetter/isLower/isUpper/isNumber', 'src/strlib'), ('makelower', S+'makelower.c'), ('makeupper', S+'makeupper.c'), ('strdup_n', S+'strdup_n.c')], ('inputs', 'fault_sequences'))
p('P08', 'RC4 enciphers with the RC4 keystream and is its own inverse',
  'For every key of at least one byte and every message, the output is the message xored with the RC4 keystream of that key, written in place or to another buffer, and nothing beyond the message length is read or written.',
  'every key, message and length', 'no stable test calls the cipher',
  [S+'rc4.c'], [('rc4', S+'rc4.c')])
p('P09', 'MD5 digests are those of RFC 1321 however the message is fed',
  'For every message, the digest equals the RFC 1321 digest of the message, whatever way the message was cut into updates; finishing leaves the context usable for further updates; the text form is the lower-case hex of the digest.',
  'every message, every sequence of updates', 'tests hash fixed messages in one or few cuts; padding at each residue and each split is not sampled',
  ['src/md5/md5.c', 'src/md5/md5str.c', 'include/md5.h'], [('md5_round', 'src/md5/md5.c'), ('md5_update', 'src/md5/md5.c'), ('md5_end', 'src/md5/md5.c'), ('md5str', 'src/md5/md5str.c')], ('inputs', 'histories'))
p('P10', 'SHA-512 digests are those of FIPS 180 for every message',
  'For every message fed as blocks of a multiple of 128 bytes followed by at most one final piece, the digest equals the FIPS 180-4 SHA-512 digest; no input byte beyond the stated length is read.',
  'every message and every cut into documented updates', 'a test hashes fixed messages',
  ['src/sha512/sha512.c', 'include/sha512.h'], [('crypto_hashblocks', 'src/sha512/sha512.c'), ('sha512_update', 'src/sha512/sha512.c'), ('sha512_end', 'src/sha512/sha512.c')], ('inputs', 'histories'))
p('P11', 'CRC-32 and CRC-32C checksums equal their polynomial definition however fed',
  'For every message and every way of cutting it into updates, the checksum is the bitwise remainder definition of the respective polynomial (reflected, initial and final complement), stored least significant byte first.',
  'every message, every sequence of updates, both polynomials', 'the test compares a few strings',
  ['src/crc32/crc32_impl.c', 'src/crc32/crc32.c', 'src/crc32/crc32c.c', 'include/crc32_impl.h'], [('InitTables', 'src/crc32/crc32_impl.c'), ('Update', 'src/crc32/crc32_impl.c'), ('Final', 'src/crc32/crc32_impl.c')], ('inputs', 'histories'))
L = 'src/sblist/'
p('P12', 'The dynamic array behaves as a sequence of items under every operation',
  'After any append, insert, overwrite, delete or pop the array holds exactly the sequence of items that operation denotes, bitwise, for every item size, count and growth step. An operation that runs out of memory, or that names a position outside the array, reports failure and leaves the sequence unchanged; nothing outside the array is read or written.',
  'every list state, item size, block size, position and allocation outcome', 'tests append and delete a few items of one size; growth boundaries, allocation failure and odd item sizes are not reached',
  [L+'sblist.c', L+'sblist_insert.c', L+'sblist_delete.c', L+'sblist_pop.c', L+'sblist_addi.c', L+'sblist_new_from_data.c', L+'sblist_free_values.c', 'include/sblist.h'],
  [('sblist_grow_if_needed/add/set/get', L+'sblist.c'), ('sblist_insert', L+'sblist_insert.c'), ('sblist_delete', L+'sblist_delete.c'), ('sblist_pop', L+'sblist_pop.c'), ('sblist_addi', L+'sblist_addi.c')], ('inputs', 'histories', 'fault_sequences'))
p('P13', 'Sorted insertion keeps order and binary search finds exactly what is there',
  'Inserting into a sorted array puts the item at a position that keeps the array sorted and moves nothing else out of order; binary search in a sorted array returns the index of an equal item exactly when one exists. This holds for every total preorder the comparison function implements.',
  'every sorted array, item and comparison order', 'tests search one array; absent keys, duplicates and edge positions are not enumerated',
  [L+'sblist_insert_sorted.c', L+'sblist_insert_sorted_r.c', L+'sblist_bsearch.c', L+'sblist_bsearch_r.c'], [('sblist_insert_sorted', L+'sblist_insert_sorted.c'), ('sblist_insert_sorted_r', L+'sblist_insert_sorted_r.c'), ('sblist_bsearch', L+'sblist_bsearch.c'), ('sblist_bsearch_r', L+'sblist_bsearch_r.c')], ('inputs', 'histories'))
p('P14', 'The tree list behaves as a sequence with insertion and deletion anywhere',
  'Inserting at a position, deleting a position, indexing and counting behave as on a plain sequence, for every shape the tree can take and every random priority; subtree sizes stay exact. Failed insertions and out-of-range positions leave the list unchanged and report failure.',
  'every list state, position, priority outcome and allocation outcome', 'the shape depends on random priorities; tests run one history',
  ['src/tlist/tlist.c', 'include/tlist.h'], [('insert/delete/get', 'src/tlist/tlist.c')], ('inputs', 'histories', 'fault_sequences'))
p('P15', 'Typed generic lists behave as sequences, with or without an index layer',
  'For every element type, adding, inserting, deleting, overwriting and sorted insertion on typed lists give exactly the denoted sequence; the indexed variant keeps each stored item in place while the order changes. Running out of memory reports failure and leaves the list as it was.',
  'every element type of the instances, list state, position and allocation outcome', 'tests use small lists of one type, without allocation failure',
  ['include/tglist.h', 'include/tgilist.h'], [('tglist_*', 'include/tglist.h'), ('tgilist_*', 'include/tgilist.h')], ('inputs', 'histories', 'fault_sequences'))
p('P16', 'Ordered and hashed maps map each key to its last value',
  'After any sequence of insertions and deletions a lookup returns the value last stored for an equal key and nothing for a key that is absent, with each key present at most once; iteration visits every entry exactly once. Running out of memory reports failure and leaves the map as it was.',
  'every map state, key, comparison and hash function, allocation outcome', 'the tests are benchmarks over one key distribution',
  ['include/bmap.h', 'include/hbmap.h'], [('bmap_insert/find/delete', 'include/bmap.h'), ('hbmap_insert/find/delete/next', 'include/hbmap.h')], ('inputs', 'histories', 'fault_sequences'))
p('P17', 'The hash list returns every value stored under a hash and iterates each once',
  'A value added under a hash is in the bucket returned for that hash, in insertion order, and no other bucket changes; iteration yields every stored value exactly once and then ends. Failure to allocate is reported and leaves the list as it was.',
  'every bucket count, hash, history and allocation outcome', 'a test adds a few values to one table',
  ['src/hashlist/hashlist.c', 'src/hashlist/hashlist_iterator.c', 'include/hashlist.h'], [('hashlist_add/get', 'src/hashlist/hashlist.c'), ('hashlist_next', 'src/hashlist/hashlist_iterator.c')], ('inputs', 'histories', 'fault_sequences'))
R = 'src/stringptr/'
p('P18', 'Counted strings carry exact contents through every operation',
  'Creating, copying, concatenating, trimming, shifting, comparing, searching and hashing counted strings give exactly the characters and length the operation denotes, terminated by NUL, and never touch memory outside the strings. When memory is out the operation returns nothing and leaves its arguments intact.',
  'every string content and length, embedded NULs included, every allocation outcome', 'the test exercises a few fixed strings',
  [R+'stringptr_new.c', R+'stringptr_copy.c', R+'stringptr_concat.c', R+'stringptr_chomp.c', R+'stringptr_shiftleft.c', R+'stringptr_shiftright.c', R+'stringptr_eq.c', R+'stringptr_contains.c', R+'stringptr_here.c', R+'stringptr_hash.c', R+'stringptr_rchr.c', R+'stringptr_strdup.c', R+'stringptr_fromchar.c', 'include/stringptr.h'],
  [('stringptr_*', 'src/stringptr')], ('inputs', 'fault_sequences'))
Q = 'src/stringptrlist/'
p('P19', 'Splitting, joining and replacing text lose and invent nothing',
  'Splitting a text at a delimiter yields exactly the pieces between consecutive delimiters, in order, and joining the pieces with the delimiter gives the text back; replacing every occurrence of a pattern yields the text with exactly those occurrences substituted. String lists find, copy and free exactly their entries.',
  'every text, delimiter and replacement', 'tests split one line; delimiters at the ends, adjacent and overlapping occurrences are not sampled',
  [Q+'stringptr_splitc.c', Q+'stringptr_splits.c', Q+'stringptr_replace.c', Q+'stringptrlist_tostring.c', Q+'stringptrlist_tostring_dos.c', Q+'stringptrlist_find.c', Q+'stringptrlist_contains.c', Q+'stringptrlist_dup_entries.c', Q+'stringptrlist_add_strdup.c', Q+'stringptrlist_freeall.c', Q+'stringptrlist_freestrings.c', 'include/stringptrlist.h'],
  [('stringptr_splitc/splits', 'src/stringptrlist'), ('stringptr_replace', Q+'stringptr_replace.c'), ('stringptrlist_tostring', Q+'stringptrlist_tostring.c')], ('inputs', 'fault_sequences'))
p('P20', 'INI lookups return the value of the key in its section',
  'For every list of lines, a section lookup designates exactly the lines between its header and the next header, and a key lookup inside a section returns exactly the text after the key\'s equals sign of the first line with that key, or an empty value when there is none. Nothing outside the lines is read.',
  'every list of lines, section and key', 'tests parse one file',
  ['src/iniparser/iniparser.c', 'src/iniparser/iniparser_count_sections.c', 'include/iniparser.h'], [('iniparser_get_section', 'src/iniparser/iniparser.c'), ('iniparser_getvalue', 'src/iniparser/iniparser.c'), ('iniparser_file_count_sections', 'src/iniparser/iniparser_count_sections.c')])
p('P21', 'Formatted printing produces the C text of its conversions inside the buffer',
  'For every format made of literal text and the supported conversions (percent, character, string, counted string, int, unsigned, long, size_t and pointer as decimal or lower/upper hex, with a zero or blank padded width), the output is the text C printf prints for those arguments. At most the given size is written, cut text is still terminated inside the buffer, and the return value is the number of characters produced (of the whole text when only the length is asked for), or -1 for a conversion that is not supported.',
  'every argument value, width, flag and buffer size for the supported conversions', 'the test prints a fixed list of values',
  ['src/format/ulz_vsnprintf.c', 'src/format/ulz_snprintf.c'], [('ulz_vsnprintf', 'src/format/ulz_vsnprintf.c'), ('ulz_snprintf', 'src/format/ulz_snprintf.c')])
F = 'src/filelib/'
p('P22', 'Path helpers split and normalise paths without changing what they name',
  'The file name is the part after the last slash and the extension the part after the last dot of it; normalising a path removes repeated slashes, "." and resolvable ".." components and gives a path with none of those, naming the same file; a path difference is the remainder of a path below a directory exactly when it is below it. No helper writes beyond the buffer size it is given.',
  'every path text and buffer size', 'tests normalise a fixed list of paths',
  [F+'normalizepath.c', F+'normalizepath_cstr.c', F+'getpathdiff.c', F+'getfilename.c', F+'getfileext.c', 'include/filelib.h'], [('normalizepath', F+'normalizepath.c'), ('normalizepath_cstr', F+'normalizepath_cstr.c'), ('getpathdiff', F+'getpathdiff.c'), ('getfilename', F+'getfilename.c'), ('getFileExt', F+'getfileext.c')])
p('P23', 'The line reader delivers every line of a file exactly once',
  'For every file content, each read gives exactly the bytes from the position up to the next newline or the end of the file, terminated, and moves the position right behind them, for every way the operating system cuts the reads; so the successive lines are the content. A line that does not fit the buffer is reported, can be read again with a larger one, and nothing is written beyond the buffer; the next line\'s length is told without moving the position; failing calls and the end of the file are reported as such.',
  'every content, buffer size and sequence of read results', 'tests read two fixed files through full-size reads',
  ['src/fileparser/fileparser_readline.c', 'src/fileparser/fileparser_readline_userbuf.c', 'src/fileparser/fileparser_getline.c', 'src/fileparser/fileparser_getnextlinelength.c', 'src/fileparser/fileparser_open.c', 'src/fileparser/fileparser_close.c'], [('fileparser_readline_userbuf', 'src/fileparser/fileparser_readline_userbuf.c'), ('fileparser_getnextlinelength', 'src/fileparser/fileparser_getnextlinelength.c')], ('inputs', 'fault_sequences'))
p('P24', 'The small-object pool hands out disjoint elements and reuses freed ones',
  'Every successful allocation is a whole element inside the pool, large enough for the asked size and disjoint from every other live allocation, whatever was allocated or freed before. It fails only when the size exceeds the element size or every element is in use; freeing an element makes exactly that element available again, freeing one that is not live changes nothing, and the pool never touches the memory it manages.',
  'every sequence of allocations and frees, every size', 'the test fills a pool in one order only',
  ['include/ssalloc.c'], [('ssa_init, ssa_alloc, ssa_free', 'include/ssalloc.c')], ('inputs', 'histories'))
p('P25', 'Guarded allocations end at an inaccessible page and are released completely',
  'Every guarded allocation is writable over its whole size, the first byte after it is inaccessible, and freeing it returns every page that was mapped for it.',
  'every size and mapping outcome', 'the test tries one size; a multiple of the page size behaves differently',
  ['include/guard_alloc.c'], [('guard_alloc', 'include/guard_alloc.c'), ('guard_free', 'include/guard_alloc.c')], ('inputs', 'fault_sequences'))
p('P26', 'Starting a child process leaks no descriptor on any outcome',
  'For every combination of requested pipes and every point at which a system call may fail, starting a child leaves in the parent exactly the requested pipe ends open and nothing else, and in the child exactly its standard streams connected; on failure nothing stays open. Closing or waiting releases each descriptor once.',
  'every combination of pipes and every failing call', 'tests start one process with everything succeeding',
  ['src/proclib/process.c', 'include/proclib.h'], [('process_open', 'src/proclib/process.c'), ('process_close', 'src/proclib/process.c')], ('fault_sequences', 'inputs'))
p('P27', 'Command line options are found exactly when given',
  'A value lookup returns the text after the equals sign of the option with exactly that long or short name, a flag test is true exactly when the option appears, and nothing is reported for options that are absent; no argument text is read past its terminator.',
  'every argument vector and option name', 'no stable test parses arguments',
  ['src/optparser/op_get.c', 'src/optparser/op_hasflag.c', 'src/optparser/op_init.c', 'include/optparser.h'], [('op_get', 'src/optparser/op_get.c'), ('op_hasflag', 'src/optparser/op_hasflag.c')])
p('P28', 'Time differences and deadlines are exact across second and sign boundaries',
  'The difference of two times is the exact normalised difference with the microsecond or nanosecond part in range, elapsed milliseconds are those since the start, and sleeping asks for exactly the requested time, resuming with the remainder when interrupted.',
  'every pair of times, every interruption sequence', 'tests cannot choose the clock values',
  ['src/timelib/timespec_diff.c', 'src/timelib/mspassed.c', 'src/timelib/getutime.c', 'src/timelib/microsleep.c', 'src/timelib/msleep.c', 'src/timelib/gettimestamp.c', 'src/timelib/timestamp.c'], [('timespec_diff', 'src/timelib/timespec_diff.c'), ('mspassed', 'src/timelib/mspassed.c'), ('microsleep', 'src/timelib/microsleep.c')], ('inputs', 'fault_sequences'))
p('P29', 'The logger writes exactly the text it is given to the chosen stream',
  'Each logging call writes exactly the bytes of its argument (text, character, number, counted text), in order and once, to the descriptor named, with a newline exactly where asked for.',
  'every text, number and descriptor', 'no test reads the log output back',
  ['src/logger/log_put.c', 'src/logger/log_putc.c', 'src/logger/log_putd.c', 'src/logger/log_puts.c', 'src/logger/log_putln.c', 'src/logger/log_timestamp.c', 'src/logger/log_puterror.c', 'include/logger.h'], [('log_put and log_put*', 'src/logger')])
p('P30', 'File searches return exactly the matching files and leak nothing',
  'For every directory listing, a file search returns exactly the listed entries matching the mask and flags, sorted, each prefixed with its directory; the list owns what it returns, and running out of memory is reported as an error without losing memory.',
  'every listing, mask and allocation outcome', 'tests search two small directories',
  ['src/filelist/filelist.c', 'include/filelist.h'], [('filelist_search', 'src/filelist/filelist.c')], ('inputs', 'fault_sequences'))
p('P31', 'Reading and writing files moves exactly the contents, whatever the transfers',
  'Reading a file into a string yields exactly its content, and writing a string to a file writes exactly its bytes in order and tells how many, for every way the operating system splits transfers. Writing a list writes every entry followed by one newline; loading a list appends a copy of every line up to an empty one or the end; a line of standard input loses its newline, and nothing else, when asked. Every failure is reported, and neither descriptors nor memory are leaked.',
  'every content and every sequence of read and write results', 'files in tests are small, so every transfer is whole',
  [R+'stringptr_fromfile.c', R+'stringptr_tofile.c', R+'read_stdin_line.c', Q+'stringptrlist_fromfile.c', Q+'stringptrlist_tofile.c'], [('stringptr_fromfile', R+'stringptr_fromfile.c'), ('stringptr_tofile', R+'stringptr_tofile.c'), ('stringptrlist_fromfile', Q+'stringptrlist_fromfile.c'), ('stringptrlist_tofile', Q+'stringptrlist_tofile.c'), ('read_stdin_line', R+'read_stdin_line.c')], ('inputs', 'fault_sequences'))
p('P32', 'Bit arrays, byte order helpers, key-value lists and temp names are exact',
  'Setting, clearing and reading a bit of a bit array affects exactly that bit; byte order conversions reverse or keep bytes as the platform requires and are their own inverse; a key-value lookup returns the first value stored under an equal key; temporary directory names fit the buffer and keep the given prefix.',
  'every bit index, value, key and prefix', 'no stable test enumerates these',
  ['include/bitarray.h', 'include/endianness.h', 'src/kvlist/kvlist.c', F+'mktempdir.c', F+'ulz_mkdtemp.c'], [('bitarray_*', 'include/bitarray.h'), ('end_*', 'include/endianness.h'), ('kv_find', 'src/kvlist/kvlist.c'), ('mktempdir', F+'mktempdir.c')])

NA = {'P22': 'path normalisation is one loop whose meaning (the path named stays the same) is not expressed as an invariant over symbolic component sequences within the time available; the other path helpers rest on it',
 'P30': 'its result is the one of glob(3), which would have to be assumed as a whole; what remains is bookkeeping around it, not brought under contract within the time available'}
NOTE = {'P21': 'Proved in the quick tier: all conversions when only the length is asked for; literal text, percent and characters with a buffer of any size. Proved in the thorough tier: strings and counted strings with a buffer of any size; hex, decimal, long, size_t and pointer numbers in a large enough buffer. Numbers cut by the end of the buffer are thorough-tier cases that do not finish within their time limit: they are reported as undecided, not as proved, and a native search runs on them (the loops that cut are the same ones that are proved for strings).'}
exec(open(os.path.join(V, 'tools', 'overrides.py')).read()) if os.path.exists(os.path.join(V, 'tools', 'overrides.py')) else None

def design(have):
    import tomllib
    o = []
    for x in P:
        o.append('### %s %s' % (x['id'], x['title']))
        if x['id'] in NA or x['id'] not in have: o.append('*Not claimed*: %s\n' % NA.get(x['id'], 'not built yet')); continue
        if x['id'] in NOTE: o.append('*Level*: ' + NOTE[x['id']])
        for f in have[x['id']]:
            d = tomllib.loads(re.search(r'/\*@unit\n(.*?)\*/', open(f).read(), re.S).group(1))
            t = '* `%s`: %s - %s.' % (os.path.basename(f)[:-2], ', '.join(d.get('functions', [])), d.get('lemma', ''))
            if d.get('loop'): t += ' %d loop contract%s.' % (len(d['loop']), 's' * (len(d['loop']) > 1))
            if d.get('tier') == 'thorough': t += ' Thorough tier only.'
            if d.get('thorough_cases'): t += ' %d more cases in the thorough tier.' % len(d['thorough_cases'])
            if d.get('bounded_only'): t += ' **Bounded, not proved**: %s.' % d['bounded_only']
            if d.get('stubs'): t += ' Assumed/modular contracts: %s.' % ', '.join(d['stubs'])
            if d.get('assume'): t += ' Assumptions: %s.' % '; '.join(d['assume'])
            o.append(t)
        o.append('')
    h = open(os.path.join(V, 'tools', 'design_head.md')).read(); t = open(os.path.join(V, 'tools', 'design_tail.md')).read()
    k = json.load(open(os.path.join(V, 'known-findings.json')))
    defects = '\n'.join('* %s `%s`: %s' % (e['property'], e.get('commit', 'open'), e['line'].split(e['commit'])[1].strip() if e.get('commit') else e.get('what', '')) for e in k)
    seeds = []
    for m in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
        j = json.load(open(m)); i = m.split('/')[-2]
        seeds.append('* `%s` (%s): %s Needs: %s Caught by: %s' % (i, j['property'], j['what_it_breaks'].rstrip('.') + '.', j['needs'].rstrip('.') + '.', j.get('caught', '?')))
    open(os.path.join(V, 'DESIGN.md'), 'w').write(h.replace('@@TABLE@@', '\n'.join(o)) + t.replace('@@DEFECTS@@', defects).replace('@@SEEDED@@', '\n'.join(seeds)))

def main():
    have = {}
    for f in sorted(glob.glob(os.path.join(V, 'units', '*.c'))):
        m = re.search(r'^property = (.*)$', open(f).read(), re.M)
        for x in re.findall(r'P\d\d', m.group(1)): have.setdefault(x, []).append(f)
    with open(os.path.join(V, 'properties.jsonl'), 'w') as o:
        for x in P: o.write(json.dumps(x) + '\n')
    checks = []; na = []
    for x in P:
        i = x['id']
        if i in have and i not in NA:
            checks.append({'property': i, 'quick_cmd': 'python3 engine/run.py %s --tier quick' % i, 'thorough_cmd': 'python3 engine/run.py %s --tier thorough' % i,
                'technique': 'contract-based deductive verification of the real C code: function contracts and loop invariants discharged by cbmc (SAT), function by function',
                'level': 'proof', 'level_note': NOTE.get(i, 'Every obligation of the listed units is discharged on the current source for all inputs (lengths below 2^32); the libc functions named in the evidence are assumed by contract; signed overflow is treated as two\'s complement.')})
        else: na.append({'property': i, 'reason': NA.get(i, 'not built yet')})
    json.dump({'version': 1, 'setup_cmd': 'python3 engine/setup.py', 'hooks': {'guard': 'ULZ_VERIF (unused: no hook was needed in /repo)', 'enable': 'nothing to enable: the units include the unmodified sources', 'source_commits': []},
        'checks': checks, 'not_applicable': na, 'notes': 'Contracts live in units/*.c (harness + loop contracts, attached mechanically to the real source on every run); engine/run.py decides. See DESIGN.md.'},
        open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    design(have)
    print(len(checks), 'claimed', len(na), 'not')
if __name__ == '__main__': main()
