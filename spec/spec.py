"""One source for properties.jsonl, MANIFEST.json, the evidence rules and the per-property part of DESIGN.md."""
SPEC = {}
NOT_APPLICABLE = []


def P(pid, title, statement, over, quant, why, files, mech, how, rule, note, assume=()):
    assert len(title) <= 80, pid
    SPEC[pid] = dict(id=pid, title=title, statement=' '.join(statement.split()), over=over, quant=' '.join(quant.split()),
                     why=' '.join(why.split()), files=files, mech=mech, how=' '.join(how.split()), rule=' '.join(rule.split()),
                     note=' '.join(note.split()), assume=list(assume))


I = 'include/cybozu/'
P('C01', 'Text to integer conversion is exact, and total over every text',
  '''Converting a decimal or hexadecimal text to any signed or unsigned integer type of 8 to 64 bits gives exactly the
  number which the text denotes when the whole text is a number of that form within the range of the type, and otherwise
  reports an error (an exception, or a false flag together with the value 0). This holds for NUL-terminated text, for
  text of a given length and for string objects, with any number of leading zeros, and no byte outside the given text is read.''',
  ['inputs'], 'every text (any bytes and length, including the empty one) x every integer type x every way to pass the text and to ask for errors',
  'test/base/atoi_test.cpp has a table of limits; the boundary is per digit position, sign, type and trailing byte, far more cases than a table',
  [I + 'atoi.hpp', I + 'exception.hpp'],
  [('signed and unsigned decimal parsing with overflow detection', I + 'atoi.hpp:49'), ('hexadecimal parsing', I + 'atoi.hpp:120'), ('text excerpt in the exception', I + 'exception.hpp')],
  '''Oracle: a 128-bit reference parser. Texts are generated around the limits of each type, around multiples of 2^w, with
  leading zeros, junk, embedded NUL and truncation, and are placed in exact-size heap blocks so that AddressSanitizer reports a read outside.''',
  '''a case is one text, one type, one calling form; non-trivial if the text has at least 2 characters; counted distinct by its choice sequence''',
  'Generated search against a 128-bit reference parser under AddressSanitizer; also coverage-guided in the thorough tier.')
P('C02', 'Integer to text conversion is exact for every value of every type',
  '''Converting an integer of any width and signedness to decimal, hexadecimal (upper or lower case) or binary text gives its exact
  canonical representation: no lost or extra digits and no superfluous zeros. Where a fixed width or zero padding is available,
  the text is padded to exactly that width, and the forms which write into a caller's buffer, append to a string or return
  the digit count agree, never write outside the requested width and report a buffer which is too short.''',
  ['inputs'], 'every value of char, short, int, long, long long (signed and unsigned) x every base, case, width and output form',
  'test/base/itoa_test.cpp checks a table of values; digits counts and paddings are not crossed with all types',
  [I + 'itoa.hpp'],
  [('decimal conversion', I + 'itoa.hpp:18'), ('hexadecimal and binary conversion', I + 'itoa.hpp:100')],
  'Oracle: 128-bit arithmetic reference; values biased to powers of two and ten, limits; guard bytes around buffers.',
  'a case is one value, one type, all output forms of a base; non-trivial if the value is not 0 or its text has at least 2 digits',
  'Generated search against an arithmetic reference under AddressSanitizer.')
P('C03', 'Base64 round trip, line format and noise-tolerant decoding for any chunking',
  '''Encoding any bytes gives the RFC 4648 Base64 text with padding, broken into lines of the requested length and line end, and
  decoding gives the original bytes back. The result does not depend on how the data is split into pieces when it is written or read,
  bytes outside the alphabet are ignored when decoding, and an unsupported line length is rejected before any output.''',
  ['inputs', 'histories'], 'every byte string, every line length and line-end mode, every split into write/read calls and every short-read behaviour of the input',
  'test/base/base64_test.cpp has a few strings with one chunking; buffer boundaries at 1024 bytes are crossed at few positions',
  [I + 'base64.hpp'],
  [('encoder state over calls', I + 'base64.hpp:30'), ('decoder state over calls', I + 'base64.hpp:118')],
  'Oracle: independent encoder/decoder in the harness; streams with generated short reads; writers with generated pieces; trailing partial groups.',
  'a case is data, line format and chunking; non-trivial if at least 2 bytes of data (4 of text with noise)',
  'Generated search against an independent reference encoder and decoder.')
P('C04', 'CSV writing and reading are inverse, and malformed CSV is reported',
  '''Rows written as CSV with any allowed separator and any fields (separators, quotes, line feeds, multibyte text, empty fields)
  are read back field by field, carriage returns excepted. Reading any text gives the rows its quoting rules define however the input is split into
  reads: an empty last field without quotes is not reported, a missing closing quote, text after a closing quote or a line above the
  size limit is an error, and every record before it and the last record without line end is delivered; separators other than comma, tab, semicolon and space are rejected.''',
  ['inputs', 'histories'], 'every table of fields, every text, every separator, every split of the input into reads, stream and file form',
  'test/base/csv_test.cpp has fixed small tables; state carries over between fields, rows and buffer refills',
  [I + 'csv.hpp'],
  [('field and row state machine', I + 'csv.hpp:60'), ('quoting in the writer', I + 'csv.hpp:200')],
  'Oracle: a reference reader written from the quoting rules, and the round trip; a reader with a 20-byte line limit exercises the limit.',
  'a case is one text or table plus its read chunking; non-trivial if the text has at least 3 bytes or a row was written',
  'Generated search against a reference CSV reader and the write/read round trip; coverage-guided in the thorough tier.',
  ['field bytes are valid UTF-8 as the reader requires (0xFF is out of domain)'])
P('C05', 'Serialisation round trip of every supported type over any stream',
  '''Any sequence of supported values (integers, floating point, strings, vectors, nested containers, sets and maps, types with their own save and load)
  saved to one stream is loaded back equal and in order, consuming exactly the saved bytes, whatever the target held before and however the stream delivers the bytes.
  Integers are stored in the documented format in its shortest form (or at fixed size when so configured), and truncated input
  or a full output is always reported as an error; arrays may exceed 2^32 bytes.''',
  ['inputs', 'histories', 'fault_sequences', 'configurations'], 'every sequence of values of supported types x standard and library streams x every short-read pattern x every truncation point x both integer formats',
  'test/base/serializer_test.cpp saves and loads a few values once into fresh objects from a complete stream',
  [I + 'serializer.hpp', I + 'stream.hpp'],
  [('variable-length integer format', I + 'serializer.hpp:90'), ('container recursion', I + 'serializer.hpp:200')],
  'Oracle: round trip with equality, the byte position after each value, an independent decoder of the documented format, and error at every cut.',
  'a case is a sequence of 1 to 5 typed values with a stream, a chunking and maybe a cut; non-trivial if more than 1 byte was saved or a value decoded',
  'Generated search: round trip, reference format decoder, truncation and full-output faults, in both integer configurations.')
P('C06', 'Input, output and line streams transfer exactly the bytes they are given',
  '''Reading from any memory, string or standard stream wrapper gives the exact bytes in order, short only at the end, and an exact read past the end
  is an error; writing delivers all bytes in order or reports an error, for any size, beyond 2^32 bytes too. The line reader splits any
  input at LF, CRLF or the end of input into exactly its lines, however the source delivers its bytes, and a line longer than the limit is an error.''',
  ['inputs', 'histories', 'fault_sequences'], 'every content, every sequence of read, write and getline calls with any sizes, every short-read behaviour, every line limit',
  'test/base/line_stream_test.cpp and stream_test.cpp use a handful of texts whose sizes fit one buffer',
  [I + 'stream.hpp', I + 'line_stream.hpp'],
  [('line buffer refill', I + 'line_stream.hpp:60'), ('read/write adapters', I + 'stream.hpp:100')],
  'Oracle: the content string and a position; a reference line splitter; stateful call sequences.',
  'a case is a content plus a call history; non-trivial if at least two lines (or an error), or bytes were transferred',
  'Stateful generated search against a position model; coverage-guided in the thorough tier.')
P('C07', 'Zlib/gzip streams round trip, interoperate, and report damage',
  '''Data compressed in zlib or gzip form, in any pieces, is a complete valid stream for the standard zlib library and decompresses to the original;
  streams made by the standard library, with any optional gzip header fields, decompress to their content. Truncated data, corrupted
  zlib data, a bad gzip header, a too small destination or a failing output is reported as an error and no byte which differs from the content is delivered before it.''',
  ['inputs', 'histories', 'fault_sequences'], 'every data, level, piece split and buffer size; every gzip header; every cut and single-byte corruption; every output capacity',
  'test/base/zlib_test.cpp compresses one text; header options, buffer-boundary splits and damage are not covered',
  [I + 'zlib.hpp'],
  [('gzip header parser', I + 'zlib.hpp:200'), ('stream compressor/decompressor loops', I + 'zlib.hpp:30')],
  'Oracle: the system zlib (differential both ways), the original data, and acceptance equal to inflate() on damaged zlib streams.',
  'a case is data, container, buffer sizes and chunking, or a damaged stream; non-trivial if more than 1 byte of data (10 compressed bytes for cuts)',
  'Generated differential search against the system zlib.',
  ['the system zlib is correct', 'the gzip trailer CRC is not verified by the decompressor and not claimed'])
P('C08', 'A bit vector behaves as a sequence of bits under every history of operations',
  '''Under any history of creating, initialising from words, appending (bits, words or other bit vectors, itself included), resizing, reserving, setting,
  resetting, extracting, copying, swapping and clearing, a bit vector of any word size has exactly the bits and length of the
  corresponding sequence, and comparison agrees with equality of the sequences. Bits outside the length never influence later results, and a
  request outside the range is an error.''',
  ['histories', 'inputs'], 'every sequence of operations with any bit offsets and lengths for word sizes 8, 16, 32 and 64',
  'test/base/bitvector_test.cpp runs fixed sequences; the faults live in the unused bits of the last word and show only after a later operation',
  [I + 'bitvector.hpp'],
  [('tail word masking', I + 'bitvector.hpp:150'), ('shifted copy', I + 'bitvector.hpp:60')],
  'Stateful model-based: two vectors against std::vector<bool> models, full comparison after each step.',
  'a case is a history of up to 40 operations; non-trivial if a vector became longer than one word',
  'Stateful generated histories against a vector<bool> model under AddressSanitizer.')
P('C09', 'Rank and select on a succinct bit vector equal counting, for every bit pattern',
  '''For every bit sequence, the succinct vector reports its size, each bit, the number of 0s and 1s before each position, and the position of the k-th 0 or 1
  exactly as counting does, and reports "not found" for a k beyond the last one. This holds for each supported variant, also after
  saving and loading, after reuse of an object and for more than 2^32 bits, and does not depend on unused bits of the input words.''',
  ['inputs', 'histories'], 'every bit sequence (dense, sparse, clustered, around block boundaries of 64/256/512/... bits), every position and k',
  'test/base/sucvector_test.cpp uses a few patterns; select has table jumps whose boundaries depend on the counts of 0s and 1s',
  [I + 'sucvector.hpp', I + 'select8.hpp'],
  [('block rank table', I + 'sucvector.hpp:150'), ('select table and search', I + 'sucvector.hpp:260'), ('in-word select', I + 'select8.hpp:230')],
  'Oracle: prefix counts; all positions for small sizes, boundaries plus samples for large ones.',
  'a case is one bit sequence and its queries; non-trivial if longer than 64 bits with at least one 1',
  'Generated search against a counting reference.')
P('C10', 'Wavelet matrix queries equal direct counting over the sequence',
  '''For every sequence of values below 2^b, the wavelet matrix reports each element, the number of occurrences of any value (and of smaller values)
  before any position, the position of the k-th occurrence or "not found", and totals exactly as scanning the sequence does, in both construction modes,
  with or without select support, after saving and loading and after re-initialisation.''',
  ['inputs', 'histories', 'configurations'], 'every sequence, bit length 1 to 16, value, position and k; both construction methods',
  'test/base/wavelet_matrix_test.cpp uses short or one random sequence; each bit plane has its own zero-count offset and select table',
  [I + 'wavelet_matrix.hpp', I + 'sucvector.hpp'],
  [('construction by stable bit partition', I + 'wavelet_matrix.hpp:60'), ('rank/select descent and select table', I + 'wavelet_matrix.hpp:250')],
  'Oracle: direct scans of the vector.',
  'a case is one sequence with its queries (maybe twice on one object); non-trivial if more than 2 elements',
  'Generated search against scanning, in both construction configurations.')
P('C11', 'FM-index finds exactly the occurrences of every pattern',
  '''For every text and every pattern, the index reports whether the pattern occurs, the exact number of occurrences and exactly the set of their positions,
  and can reproduce any piece of the text before an occurrence and the whole text. This holds for any sampling distance, for byte and wide alphabets,
  after saving and loading, copying and re-initialisation, and a text with more kinds of character than the index can hold is rejected.''',
  ['inputs', 'histories', 'configurations'], 'every text (periodic, random, unary, Thue-Morse) and pattern, every sampling distance, alphabet and variant',
  'test/base/fmindex_test.cpp searches a few keys in fixed texts; wrong suffix order or sampled position shows only for some texts',
  [I + 'fmindex.hpp', I + 'wavelet_matrix.hpp', I + 'frequency.hpp'],
  [('suffix array and BWT construction', I + 'fmindex.hpp:80'), ('backward search', I + 'fmindex.hpp:200'), ('position sampling', I + 'fmindex.hpp:150')],
  'Oracle: naive substring search over the text.',
  'a case is one text and six patterns; non-trivial if a pattern was found',
  'Generated search against naive substring search.')
P('C12', 'The compressed succinct vector answers access and rank exactly',
  '''For every bit sequence, the compressed succinct vector returns each bit and the number of 1s before each position exactly as counting does, for every
  density and block pattern, also after saving and loading and after re-initialising an object.''',
  ['inputs', 'histories'], 'every bit sequence, density and run structure, every position',
  'test/base/csucvector_test.cpp uses one random generator; the encoder chooses among block codes by statistics of the whole input',
  [I + 'csucvector.hpp'],
  [('block coding', I + 'csucvector.hpp:200'), ('rank over coded blocks', I + 'csucvector.hpp:450')],
  'Oracle: prefix counts.', 'a case is one bit sequence with queries; non-trivial if longer than 64 bits with at least one 1',
  'Generated search against a counting reference.')
P('C13', 'Frequency tables count exactly and order elements by frequency',
  '''After counting any sequence of elements, in one or several steps, the table holds each distinct element exactly once with its exact count,
  orders them by non-increasing count, and maps elements to indices and back consistently; elements never counted have frequency 0
  and are reported as unknown. The table and its order survive saving and loading and copying; a copy does not depend on its original.''',
  ['inputs', 'histories'], 'every sequence of 8-bit, 16-bit, wider or string elements counted in any number of steps',
  'test/base/frequency_test.cpp counts fixed arrays', [I + 'frequency.hpp'],
  [('dense and hashed counters', I + 'frequency.hpp:40'), ('ordering', I + 'frequency.hpp:90')],
  'Oracle: std::map counts; the order is checked as a relation, ties are free.',
  'a case is one or more counting rounds; non-trivial if at least 2 kinds were counted',
  'Stateful generated search against a map.')
P('C14', 'UTF-8, UTF-16 and code point conversions are exact and reject ill-formed text',
  '''Converting well-formed text between UTF-8, UTF-16 and code point strings is exact in every direction and every form (function, string construction, append, assignment, stream output, character-by-character reading).
  Ill-formed UTF-8 (overlong, truncated, surrogate, out-of-range, stray bytes), ill-formed UTF-16 (unpaired surrogates) and values which are not Unicode scalar values are always rejected by a false result or an exception,
  and nothing outside the given range is read; a reader told to ignore bad bytes ends and yields only valid characters, all those before the first bad byte included.''',
  ['inputs'], 'every byte sequence, every sequence of 16-bit units, every sequence of code point values, every conversion form',
  'test/base/string_test.cpp converts a few Japanese strings; the borders are between 9 byte classes per position', [I + 'string.hpp'],
  [('UTF-8 decoder', I + 'string.hpp:128'), ('UTF-16 decoder', I + 'string.hpp:190'), ('encoders', I + 'string.hpp:215')],
  'Oracle: independent decoders/encoders written from the Unicode definition; texts of border scalars, mutated bytes, all overlong forms; exact-size buffers.',
  'a case is one text through all forms; non-trivial if it has at least 2 units', 'Generated search against reference codecs under AddressSanitizer; coverage-guided in the thorough tier.')
P('C15', 'The Unicode string class behaves as a standard string of code points',
  '''Under any history of assignment, append, insert, erase, replace, resize, swap and move, with arguments of any supported kind (the object itself included), the Unicode string holds
  exactly what a standard string of code points would hold, and every query (find family, compare and relational operators with all kinds of strings, substr, copy, element access, iteration, hashing,
  saving and loading) gives the same result, including which positions are rejected as out of range.''',
  ['histories', 'inputs'], 'every sequence of operations and arguments, aliasing included',
  'test/base/string_test.cpp calls each member once on fixed strings; aliasing and position limits are not crossed', [I + 'string.hpp'],
  [('string class members', I + 'string.hpp:270')], 'Stateful model: std::basic_string of the same character type, compared in full after each step.',
  'a case is a history of up to 25 operations, or one pair of strings with all queries; non-trivial if the strings are not trivial (more than 2 characters)',
  'Stateful generated search against std::basic_string.', ['positions given by iterators are valid', 'the content after a failed assignment is not compared'])
P('C16', 'Trim, case folding, case-insensitive search and split follow their definitions',
  '''For every byte string and Unicode string: trimming removes exactly the leading and trailing white space (space and tab for bytes, the Unicode white space and the byte order mark for code points, or what a given predicate says); stripping removes exactly the trailing CR and LF;
  case conversion changes exactly the ASCII letters, in place, into another string or appended. Case-insensitive comparison, equality, prefix test and search equal comparing or searching the lower-cased texts by character value, and splitting yields exactly the pieces between separators, at most the requested number, joined to the original.''',
  ['inputs'], 'every string of both kinds, every separator, piece limit and predicate',
  'test/base/string_operation_test.cpp has fixed strings; the white space set has 12 ranges', [I + 'string_operation.hpp'],
  [('white space predicate', I + 'string_operation.hpp:62'), ('case-insensitive functions', I + 'string_operation.hpp:205'), ('split', I + 'string_operation.hpp:325')],
  'Oracle: direct definitions; characters drawn from both sides of each border.', 'a case is one string (pair) through all operations of a group; non-trivial if at least 2 characters or pieces',
  'Generated search against direct definitions under AddressSanitizer.', ['searching an empty string for an empty text is out of domain', 'the piece limit of split is at least 1'])
P('C17', 'SHA-1, SHA-2, HMAC, SipHash and FNV equal their definitions for any split',
  '''For every message, fed in any pieces, SHA-1, SHA-256 and SHA-512 (with the OpenSSL back end or the built-in one) and HMAC-SHA-256, SipHash-2-4 and FNV-1a give exactly the standard result, also when an object is cleared and used again
  and for messages longer than 2^32 bytes; a copy taken in the middle goes on independently. A too small result buffer yields 0 and is not written, and no buffer is written beyond the size of the result.''',
  ['inputs', 'histories', 'configurations'], 'every message and key, every split into update calls, every reuse, every build configuration',
  'test/base/sha1_test.cpp, sha2_test.cpp and siphash_test.cpp use published vectors in one or two pieces; padding has borders at 55/56/63/64 and 111/112/127/128 bytes',
  [I + 'sha1.hpp', I + 'sha2.hpp', I + 'siphash.hpp', I + 'hash.hpp'],
  [('buffering over updates and padding', I + 'sha2.hpp:275'), ('SHA-1 padding', I + 'sha1.hpp:108'), ('HMAC key preparation', I + 'sha2.hpp:575')],
  'Oracle: OpenSSL EVP one-shot digests, an independent SipHash and FNV; lengths concentrate around the padding borders; three build configurations; a separate case of over 512 MiB.',
  'a case is one to three messages with their pieces on one object; non-trivial if a message has at least 2 bytes', 'Generated differential search in all configurations.', ['the system OpenSSL is correct', 'copying a digest object is out of domain'])
P('C18', 'Hash, HMAC and AES wrappers equal OpenSSL, for any split and reuse',
  '''For every data, key and initial vector, the hash, HMAC and AES (CBC and ECB, 128, 192 and 256 bits) wrappers give the result of the standard algorithm however the data is divided into calls and however the object was used or copied before;
  decryption inverts encryption. A wrong key length, an unknown algorithm name and an incomplete last block are reported as errors.''',
  ['inputs', 'histories', 'configurations'], 'every data, key, division into calls and previous use of the object',
  'test/base/crypto_test.cpp uses fixed vectors', [I + 'crypto.hpp'],
  [('hash reset after digest', I + 'crypto.hpp:165'), ('cipher setup and update', I + 'crypto.hpp:300')],
  'Oracle: direct OpenSSL calls.', 'a case is one algorithm with one to three messages; non-trivial if a message has at least 2 bytes', 'Generated differential search against direct OpenSSL calls.',
  ['the system OpenSSL is correct', 'padding mode is out of domain (documented as not to be used)', 'the initial vector has the size of a block'])
P('C19', 'Configuration text is read exactly as its grammar says and survives printing',
  '''Reading any configuration text gives exactly the sections, keys and values its documented grammar defines (LF or CRLF, comments, repeated sections merged, values kept verbatim), and a text with a malformed line, an illegal or empty name or a repeated key is rejected.
  Integer values convert exactly or are reported as errors, defaults are used only for missing keys, and printing a configuration and reading it back, from a stream or file, gives the same configuration.''',
  ['inputs', 'histories'], 'every text, every sequence of append calls, every value and integer type', 'test/base/config_test.cpp has a table of small files', [I + 'config.hpp'],
  [('line parser', I + 'config.hpp:330'), ('integer access', I + 'config.hpp:125')], 'Oracle: a reference parser from the grammar; round trip through the printed form.',
  'a case is one text with lookups, or one sequence of appends; non-trivial if the text has more than 3 bytes or there is a second section', 'Generated search against a reference parser; coverage-guided in the thorough tier.',
  ['CR occurs only before LF, values contain no line end'])
P('C20', 'Command line parsing assigns exactly what the arguments say, or fails',
  '''For every set of declared options (flags, single values with defaults, necessary ones, vectors), parameters (exact, optional, variable) and delimiters, and every argument list, parsing succeeds exactly when the list is legal; then each variable holds the value given last (or its default, or all vector values in order), the set flags, the delimiter position and the arguments after it are right.
  Integer values accept decimal, 0x hexadecimal and k/m/g/K/M/G suffixes exactly within the range of the type and anything else is rejected; the process exits only when a registered help option is given.''',
  ['inputs', 'configurations'], 'every declaration of options and parameters and every argument list', 'test/base/option_test.cpp has fixed command lines', [I + 'option.hpp'],
  [('argument loop', I + 'option.hpp:480'), ('integer conversion with suffixes', I + 'option.hpp:120')], 'Oracle: a reference interpreter of the argument list with 128-bit integer conversion.',
  'a case is a declaration and an argument list; non-trivial if there are at least 2 arguments', 'Generated search against a reference interpreter.', ['one parse per parser object', 'floating point values are well-formed numbers or do not start with one'])
P('C21', 'MiniXml reproduces every document of its subset and rejects broken ones',
  '''For every document of elements, quoted attributes and text (any nesting, white space, empty-element tags, either quote), parsing gives exactly the tree: names, attribute values, the text of each element, children in order and parent links; searching by name finds the first in document order;
  printing the tree and parsing it again gives the same tree. A document cut off anywhere or with a wrong or missing end tag is rejected, nothing outside the input is read and no memory is lost; escape and unescape are inverse and an unknown entity is rejected.''',
  ['inputs', 'histories'], 'every tree, every layout of its text, every cut, every text', 'test/base/minixml_test.cpp parses two files and swallows exceptions', [I + 'minixml.hpp'],
  [('tag and attribute parser', I + 'minixml.hpp:215'), ('printing', I + 'minixml.hpp:110'), ('entities', I + 'minixml.hpp:22')], 'Oracle: the generated tree; round trip through the printed form; AddressSanitizer and LeakSanitizer.',
  'a case is one document; non-trivial if it has a child or an attribute, or a damaged text of more than 6 bytes', 'Generated search from trees under AddressSanitizer with leak checks; coverage-guided in the thorough tier.',
  ['each element has at most one piece of text, no comments, declarations or CDATA (not supported)', 'depth up to 6'])
P('C22', 'Calendar text, FILETIME and time values convert exactly',
  '''For every time from 1970 to the year 3000 with milliseconds, reading a text in any of the documented forms gives exactly that time, and every other text (wrong length, separators, non-digits, a value or day outside its range) is rejected without reading outside it;
  printing gives the exact calendar text in every form and reads back to the same time. Conversion to and from FILETIME is exact to the millisecond and comparison orders by time.''',
  ['inputs'], 'every time, every text form, every text', 'test/base/time_test.cpp has a table of about 30 texts', [I + 'time.hpp'],
  [('text parser', I + 'time.hpp:95'), ('printing', I + 'time.hpp:165'), ('FILETIME', I + 'time.hpp:45')], 'Oracle: calendar arithmetic by counting days, a reference parser.',
  'a case is one text or time; non-trivial if the text has at least 10 characters', 'Generated search against calendar arithmetic under AddressSanitizer; coverage-guided in the thorough tier.', ['printing is checked up to the year 9999'])
P('C23', 'Files deliver exactly the written bytes despite partial or failing system calls',
  '''Under any history of opening (read, write, append), writing, reading, seeking, asking the size, syncing, closing and destroying, with system calls that transfer less than asked or are interrupted, the file has exactly the bytes which a file model has, reads return exactly those bytes, and a read beyond the end, a bad mode or a failing system call is reported as an exception; no descriptor is lost.
  A mapped file shows exactly its content; directory listing, extension filter, existence, size, rename (which never overwrites) and removal agree with the directory.''',
  ['histories', 'fault_sequences'], 'every history of operations, every pattern of partial, interrupted and failing calls', 'test/base/file_test.cpp and mmap_test.cpp run one fixed history without faults', [I + 'file.hpp', I + 'mmap.hpp'],
  [('write and read loops', I + 'file.hpp:250'), ('open modes', I + 'file.hpp:60'), ('directory functions', I + 'file.hpp:400'), ('mapping', I + 'mmap.hpp:90')],
  'Oracle: an in-memory file model; read, write, open, close, fstat, lseek, fsync and mmap are replaced at link time by stand-ins which draw faults; descriptors are counted.',
  'a case is one history of up to 16 operations, one directory or one mapping; non-trivial if the history has at least 4 operations, the directory 2 entries or the file 2 bytes', 'Stateful generated search with fault injection, in a scratch directory.',
  ['symbolic links are out of domain', 'fsync is replaced by a stand-in'])
P('C24', 'Aligned and scoped arrays behave as arrays, aligned and without loss',
  '''Under any history of construction, copy, assignment (to itself included), move, swap, resize (with or without clearing) and clear, an aligned array of any element type and alignment has exactly the size and elements of a plain array, new elements are zero when clearing is asked for, and its data is aligned;
  an impossible size is reported by std::bad_alloc and leaves the array as it was. A scoped array constructs and destroys each element exactly once.''',
  ['histories', 'configurations'], 'every history over several arrays, every element size, alignment and clearing mode', 'test/base/array_test.cpp has fixed sequences', [I + 'array.hpp'],
  [('resize and reallocation', I + 'array.hpp:85'), ('copy and move', I + 'array.hpp:125')], 'Oracle: std::vector model; AddressSanitizer; object and block counts.',
  'a case is one history of up to 20 operations over up to 6 arrays; non-trivial if it has at least 4 operations', 'Stateful generated search against a vector model.', ['elements are plain values', 'move assignment to itself is out of domain'])
P('C25', 'Sparse vectors hold exactly the given positions and values',
  '''For every ascending sequence of positions and values, the plain and the compressed sparse vector iterate exactly those pairs, also when iteration and appending alternate and after clear, swap, copy, saving and loading; a position out of order or too far is rejected and changes nothing.
  Intersection, union (with its per-position state), inner product, norm and comparison equal those of ordinary maps for any combination of vector kinds.''',
  ['inputs', 'histories'], 'every pair of sparse vectors, every gap between positions, every history', 'test/nlp/sparse_test.cpp uses small fixed vectors', [I + 'nlp/sparse.hpp'],
  [('compressed position coding', I + 'nlp/sparse.hpp:75'), ('intersection', I + 'nlp/sparse.hpp:285'), ('union', I + 'nlp/sparse.hpp:360')], 'Oracle: std::map; gaps concentrate on the borders 2^6, 2^14, 2^22, 2^30 of the coding.',
  'a case is one history or one pair of vectors; non-trivial if more than 2 elements occur', 'Stateful generated search against std::map.', ['set(map) is called on an empty vector'])
P('C26', 'TopScore keeps exactly the best n of any sequence of scores',
  '''For every sequence of scores, the table holds exactly the n best ones with their objects in descending order, equal scores in order of arrival and the earlier ones preferred, for every n including 0 and 1, also when the table is read between additions and after the size is changed.''',
  ['inputs', 'histories'], 'every sequence of scores, every table size, every moment of reading', 'test/nlp/top_score_test.cpp has two sequences', [I + 'nlp/top_score.hpp'],
  [('insertion', I + 'nlp/top_score.hpp:45')], 'Oracle: stable sort and cut.', 'a case is one sequence with reads and size changes; non-trivial if it has more than 2 scores', 'Generated search against stable sorting under AddressSanitizer.', ['scores are numbers, not NaN'])
P('C27', 'Random generators follow their recurrences and fill buffers exactly',
  '''For every seed, the xorshift, xorshift128+, xoroshiro128+ and PCG generators give exactly the sequence of their published recurrence in every output form, a buffer is filled with exactly the bytes of the sequence and nothing outside it is written; the system generator fills the whole buffer or reports an error.
  Shuffling any sequence with any generator gives a permutation of it, without bias; uniform values lie in the interval and normal values have the requested mean and deviation for every seed.''',
  ['inputs', 'histories', 'fault_sequences'], 'every seed, every mix of output calls, every buffer length and element type, every sequence', 'test/base/random_generator_test.cpp and test/nlp/random_test.cpp look at a few values of the default seed',
  [I + 'xorshift.hpp', I + 'pcg.hpp', I + 'random_generator.hpp', I + 'nlp/random.hpp'],
  [('buffer filling', I + 'xorshift.hpp:18'), ('recurrences', I + 'xorshift.hpp:60'), ('system generator', I + 'random_generator.hpp:70'), ('shuffle', I + 'random_generator.hpp:120'), ('normal values', I + 'nlp/random.hpp:50')],
  'Oracle: independent recurrences; guard bytes; a short fread is injected; statistical limits more than 10 standard deviations wide.', 'a case is one seed with a sequence of calls, or one buffer, or one shuffle; trivial only for buffers and sequences of less than 2 elements',
  'Generated search against independent recurrences.', ['the statistical checks use limits beyond 10 sigma'])
P('C28', 'Sockets carry every byte in order, report every failure and own their handle',
  '''What one end of a connection writes is read at the other end complete, in order and without repetition, however the system
  splits or interrupts reads and writes; read(n) returns exactly n bytes or throws, readSome returns 0 exactly at the end, a failed
  write or read is reported, and writing to a closed connection is an error which does not end the process. A socket object is valid
  exactly while it owns a connection or a listening port: failed connects, binds and accepts leave it invalid, a move transfers the
  ownership, and every descriptor is closed exactly once. Numeric addresses are parsed, compared (also IPv4 mapped in IPv6) and
  printed exactly, other texts are rejected, and socket options are applied as requested.''',
  ['histories', 'fault_sequences', 'inputs'], 'every history of bind, connect, accept, read, write, shutdown, close and move over several sockets x every split, interruption and failure of the system calls x every address',
  'test/base/socket_test.cpp sends a few fixed messages over a healthy loopback; partial and interrupted calls, failures and descriptor leaks do not occur there',
  [I + 'socket.hpp', I + 'atomic.hpp'],
  [('reading and writing all', I + 'socket.hpp:470'), ('ownership of the descriptor', I + 'socket.hpp:380'), ('connect, bind and accept', I + 'socket.hpp:520'), ('addresses', I + 'socket.hpp:195')],
  '''Generated histories over five sockets run against a model of connections as byte queues; the system calls are wrapped at link time to split,
  interrupt and fail them and to count descriptors; UNIX sockets stand in for TCP, plus a small number of real loopback connections.
  Addresses are compared with inet_pton and inet_ntop.''',
  '''a case is one history, transfer, address pair or option set; non-trivial if at least 2 bytes were transferred (history, large), the text is
  no address (bad_address), or always (address, options, loopback)''',
  'Model-based generated histories with fault injection at the system-call boundary.',
  ['Linux; each socket object is used by one thread; accept gets a client object which is not connected'])
P('C29', 'Thread primitives are correct under every schedule, and parallel_for is complete',
  '''parallel_for calls the function exactly once for every index on one of the given threads, in ascending order per thread, stops a
  thread at the first false or exception, returns only when no call is running, and reports every exception and every thread which
  cannot be started. Joining a thread waits for its end; a thread which could not be started can be joined, restarted and destroyed. Mutexes and critical sections
  exclude each other's owners; waiting on a condition variable gives up and takes back the mutex and loses no notification; an event
  passes exactly one waiter per wakeup and remembers a wakeup before the wait; atomic add, exchange and compare-exchange are indivisible
  and return the old value; thread local values are private per thread and object and start empty; Sleep lasts at least the requested time.''',
  ['schedules', 'histories', 'fault_sequences'], 'every interleaving of the threads, including spurious wakeups, every number of threads and indices and index type, every failure to start a thread',
  'test/base/parallel_test.cpp, thread_test.cpp, event_test.cpp and condition_variable_test.cpp run one undisturbed schedule of a fixed program',
  [I + 'parallel.hpp', I + 'thread.hpp', I + 'mutex.hpp', I + 'critical_section.hpp', I + 'condition_variable.hpp', I + 'condition_variable_cs.hpp', I + 'event.hpp', I + 'atomic.hpp', I + 'tls.hpp'],
  [('parallel_for', I + 'parallel.hpp:59'), ('thread life cycle', I + 'thread.hpp:165'), ('event', I + 'event.hpp:66'), ('atomic operations', I + 'atomic.hpp:28'), ('thread local storage', I + 'tls.hpp:85')],
  '''Generated programs (indices, actions, threads, producers and consumers) run with random yields and sleeps around every mutex and condition
  variable call and with injected spurious wakeups and failing pthread_create, with AddressSanitizer and again with ThreadSanitizer; oracles are the histories each thread records.''',
  'a case is one program with its schedule seed; non-trivial if at least 2 threads, rounds or operations interact (or the sleep is interrupted)',
  'Generated concurrent programs under schedule perturbation, with invariants over the recorded histories and ThreadSanitizer.',
  ['Linux, C++11 or later', 'schedules are sampled, not enumerated', 'n is not negative, functions throw std::exception'])
P('C30', 'Byte order, bit and 128-bit vector operations agree with arithmetic',
  '''For every value and every address, aligned or not, the 16, 32 and 64 bit little and big endian loads and stores read and write exactly the bytes of
  the value in that order and touch nothing else, and byteSwap reverses the bytes. The lowest and highest set bit, the number of set bits, bit masks of 0 to 63 bits, the rank
  and select inside a 64 bit word and the byte select table agree with counting single bits, in the variants for x86-64 and in the portable ones.
  Every V128 operation (load, store, shifts by bits and bytes, rotation of three vectors, unpack, arithmetic, comparison, shuffle, insert, extract, test) acts on the lanes as documented for its SSE instruction;
  shrBit and shlBit shift the whole 128 bits.''',
  ['inputs', 'configurations'], 'every word and vector, every shift count and immediate, every address',
  'test/base/endian_test.cpp, bit_operation_test.cpp and v128_test.cpp use a handful of constants', [I + 'endian.hpp', I + 'bit_operation.hpp', I + 'select8.hpp', I + 'sucvector.hpp', I + 'v128.hpp'],
  [('loads and stores', I + 'endian.hpp:33'), ('bit scans', I + 'bit_operation.hpp:21'), ('select in a word', I + 'sucvector.hpp:55'), ('vector shifts', I + 'v128.hpp:305')],
  '''Oracle: loops over single bits and bytes. Words are dense, sparse, single bits, byte runs and masks; buffers are exactly sized and surrounded by known bytes; all immediates are instantiated; the portable code is
  compiled a second time with the x86 macros off.''', 'a case is one word, vector pair or store; non-trivial if the value is not zero', 'Generated search against bit-by-bit references in two configurations.', ['bsf and bsr get non-zero values; rank64 positions are below 64'])
P('C31', 'The unit test framework loses no failure and invents none',
  '''For every set of test modules, a run executes every module once in order of registration, between one setup and one teardown, goes on after a module is stopped by an exception of any type, and returns non-zero
  exactly if some check failed or some module, the setup or the teardown threw. Every failed check is printed with its file, line and macro, the summary line counts modules, passed and failed checks and exceptions exactly, and each check macro (assert, equal, near, pointer, array, exception, exception message, no exception)
  passes exactly if its relation holds: integers of different sign by value after conversion, C strings by content, floating point numbers by their bits, NaN never near.''',
  ['inputs', 'histories'], 'every program of checks and exceptions in every module', 'the framework has no test of its own: a lost failure would make the other tests pass', [I + 'test.hpp'],
  [('run', I + 'test.hpp:61'), ('comparison', I + 'test.hpp:124'), ('check macros', I + 'test.hpp:190')], 'Oracle: the expected result of each generated check; standard output is captured and compared.',
  'a case is one test program of 2 to 6 modules with up to 5 checks each, or one pair of values; non-trivial if it has more than one check or the values differ', 'Generated test programs against a counting model.', ['what() of exceptions contains no NUL'])
P('C32', 'Formatted text, exception messages and environment values are exact',
  '''For every format and arguments, format and vformat give exactly the text of printf, of any length, NUL characters included, also if the arguments lie in the receiving string, and report a conversion which fails by an exception.
  An exception carries its name and every value appended to it, in order, separated by colons, through copying, assignment and throwing; error numbers are captured when asked for and shown as system text and number.
  Environment queries return exactly the present value, the default or an exception for an absent name, and do not touch the result otherwise.''',
  ['inputs', 'histories'], 'every format, argument and string length; every sequence of appended values and copies; every environment history', 'test/base/format_test.cpp and env_test.cpp have a few fixed values; exceptions have no test', [I + 'format.hpp', I + 'exception.hpp', I + 'env.hpp'],
  [('vformat', I + 'format.hpp:21'), ('exception message', I + 'exception.hpp:121'), ('error numbers', I + 'exception.hpp:90'), ('environment', I + 'env.hpp:14')], 'Oracle: snprintf into a large buffer, string concatenation, strerror, and a map of the environment.',
  'a case is one format with arguments or one history; non-trivial if the text has more than one character or the history more than one step', 'Generated differential search against the C library.', ['appended strings contain no NUL', 'C locale'])
P('C33', 'Every log message of sufficient priority arrives once, complete and in order',
  '''For every history of opening files, setting a stream, switching syslog, priority and milliseconds and putting messages, each message whose priority is at least the current one is written exactly once, as one line
  with the current time, to the current file or stream at once (no flush needed) and, if switched on, to syslog with the corresponding level; other messages go nowhere. Messages of any length and content are not altered or interpreted as a format; files are continued, not overwritten,
  also by several loggers and threads. A file which cannot be opened is reported and changes nothing, a failing write is reported on standard error, a stream given by the user is never closed and every file the logger opened is closed.''',
  ['histories', 'inputs', 'fault_sequences', 'schedules'], 'every history of configuration and messages, every text, several loggers and threads on a file, a full device', 'the log has no test', [I + 'log.hpp', I + 'format.hpp', I + 'time.hpp'],
  [('writing a message', I + 'log.hpp:49'), ('opening and closing', I + 'log.hpp:91')], 'Oracle: a model of the destinations, each a list of lines; syslog is replaced by a recording stand-in; standard error is captured; open descriptors are counted.',
  'a case is one history of up to 15 operations, one shared file or one set of threads; non-trivial if more than one message is written', 'Stateful generated search against a model of the destinations, with fault injection.', ['messages contain no NUL', 'configuration functions are called by one thread'])
P('C34', 'A started process gets exactly its arguments, and failures leave no trace',
  '''run starts the program with exactly the given arguments (any bytes and lengths; the variant with single parameters leaves out empty ones), with the standard streams of the parent or none as asked, and with no other descriptor of the parent.
  isAlive is true until the process ends and then gives its exit code, or -1 if a signal ended it; a copy takes the process over. If the program cannot be started, for whatever reason (missing, not executable, no descriptor, no process, failing set-up of the streams, interrupted calls),
  run returns false, the object stays invalid and usable, and no child, zombie, open descriptor or duplicated output remains.''',
  ['inputs', 'histories', 'fault_sequences'], 'every argument list, every exit status, every set of open descriptors, every failing or interrupted system call on the way', 'the class has no test', [I + 'process.hpp'],
  [('Start', I + 'process.hpp:108'), ('IsAlive', I + 'process.hpp:213'), ('Process', I + 'process.hpp:244')], 'Programs are /bin/sh scripts in a scratch directory which record arguments and descriptors; system calls are wrapped at link time to fail or be interrupted.',
  'a case is one started process; non-trivial if it has arguments, inherited descriptors or a fault', 'Generated arguments and fault injection at the system-call boundary.', ['Linux; the standard descriptors of the parent are open', 'the exit code is taken from the first isAlive which reports the end'])
P('C35', 'Regular expressions on String agree with the engine on plain wide text',
  '''For every pattern, text (characters beyond 16 bits included), range of the text, syntax and match option, searching, matching, replacing, iterating over all matches and splitting into tokens give exactly the matches, groups, positions, prefix, suffix, replaced text and tokens of the underlying engine on the
  same wide characters, however the pattern was given (wide, UTF-16, String, range, length, copy); a malformed pattern is rejected; the searched text is never changed and iterators and their copies are independent.''',
  ['inputs'], 'every pattern and text of the grammar, every option and subrange', 'test/base/regex_test.cpp has a few fixed patterns and is left out of the default build', [I + 'regex.hpp', I + 'string.hpp'],
  [('construction', I + 'regex.hpp:305'), ('match results', I + 'regex.hpp:335'), ('iterators', I + 'regex.hpp:343'), ('search, match and replace', I + 'regex.hpp:385')], 'Oracle: boost::basic_regex on std::wstring with the same options. Patterns are generated from a grammar with groups, classes, anchors, look-ahead, back references and repetition; one in 15 is malformed.',
  'a case is one pattern with one text; non-trivial if the pattern has more than one character and is found', 'Generated differential search.', ['patterns contain no NUL'])
P('C36', 'tf-idf weights and pLSI probabilities are the defined ones',
  '''For every set of documents, in any mixture of upper and lower case, the document frequency of each word is the number of documents which contain it, the kept words are those above the lower limit cut at the given rate in order of frequency, and each document
  with a keyword gets exactly the vector of its term frequencies times log(documents / document frequency). For every relation of users and items, number of topics, temperature and number of steps, learning follows the EM recursion, the likelihood never falls at temperature 1,
  rankings of items for a user and for an item (joint, conditional, posterior) and the perplexity are those of the learned distribution, learning can be started again, and an unknown user or item gives an empty ranking. The random generators stay in their range and depend only on the seed.''',
  ['inputs', 'histories'], 'every set of documents, keyword file, relation, number of topics and steps', 'tf-idf, pLSI and their generators have no test', [I + 'nlp/tfidf.hpp', I + 'nlp/plsi.hpp', I + 'nlp/random.hpp', I + 'nlp/top_score.hpp', I + 'nlp/sparse.hpp'],
  [('document frequency', I + 'nlp/tfidf.hpp:52'), ('tf-idf', I + 'nlp/tfidf.hpp:112'), ('rankings', I + 'nlp/plsi.hpp:104'), ('learning', I + 'nlp/plsi.hpp:218')], 'Oracle: counting with maps; the EM recursion written out with plain vectors from the same start; the laws of probability (sums, marginals, monotone likelihood).',
  'a case is one set of up to 25 documents or one relation with up to 9 users and items; non-trivial if there are more than two documents in mixed case or more than one topic and step', 'Generated search against direct counting and a reference EM.', ['all users and items are registered before learning starts, each with an observation', 'a document without a keyword has no vector', 'term is called once'])
P('C37', 'The low-rank decomposition is orthonormal and as exact as its rank allows',
  '''For every matrix, dense or sparse, and every rank, ComputeSVD gives orthonormal U and V and descending non-negative S with t(U) A V = S, never more than the true singular values, exactly A = U S t(V) if the rank suffices and the projection on the compressed row space otherwise;
  a rank of zero is refused. Orthonormalising keeps the span of the first columns and sets dependent columns to zero; compressing groups neighbouring columns evenly. Matrices and vectors, dense and sparse, survive saving and loading to the printed precision, sparse files may list columns in any order,
  and a file which is missing, cut off, malformed or of another kind is refused.''',
  ['inputs'], 'every matrix up to 9x9 whose rank is numerically clear, every rank; every file of the grammar and every truncation by lines', 'test/nlp/svd_test.cpp uses a few random matrices of fixed size', [I + 'nlp/svd.hpp'],
  [('ComputeSVD', I + 'nlp/svd.hpp:456'), ('OrthonormalizeMatrix', I + 'nlp/svd.hpp:196'), ('loading', I + 'nlp/svd.hpp:270'), ('saving', I + 'nlp/svd.hpp:395')], 'Oracle: Eigen JacobiSVD and FullPivLU of the same matrix, and direct evaluation of the matrix equations; the values written to the file.',
  'a case is one matrix or one file; non-trivial if the rank is above one, or the file is unsorted or cut', 'Generated differential and algebraic search.', ['the rank of the matrix and of its compression is numerically clear (no singular value between 1e-9 and 1e-2)'])
P('C38', 'The suffix array and the Burrows-Wheeler transform are those of the text',
  '''For every text over every alphabet (bytes or wider symbols), the suffix array lists the starts of all suffixes in lexicographic order, and the transform gives the symbols before the sorted suffixes with the primary index, also in place.
  The text is not changed, nothing is written outside the given arrays, and impossible lengths or alphabets are refused.''',
  ['inputs'], 'every text; periodic, Fibonacci and self-copying texts drive the recursion deep', 'the header has no test of its own, only two short texts through the FM-index', ['include/sais.hxx'],
  [('suffixsort', 'include/sais.hxx:171'), ('saisxx', 'include/sais.hxx:322'), ('saisxx_bwt', 'include/sais.hxx:343')], 'Oracle: sorting the suffixes by comparison.',
  'a case is one text of up to 120 (thorough 600) symbols; non-trivial if it has more than 3', 'Generated differential search against naive sorting.', ['every symbol is below the alphabet size', 'the index type is int (no other compiles)'])
P('C39', 'JSON values are copied deeply and keep their content',
  '''For every history of building, nesting, copying, assigning and swapping values, each value has exactly the type and content it was given (any string, number, boolean, array or object, nested to any depth), never shares state with another one, can be assigned from a part of itself,
  and is released exactly once.''',
  ['histories', 'inputs'], 'every history of up to 25 operations on 5 values', 'test/base/json_test.cpp has four fixed values', [I + 'json.hpp'],
  [('Value', I + 'json.hpp:28')], 'Oracle: a tree model with value semantics; address sanitizer and a count of live blocks.',
  'a case is one history; non-trivial if a value of more than 4 nodes is built', 'Stateful generated search against a tree model.', ['accessors are called for the type of the value'])
P('C40', 'A TLS client transfers exactly the bytes and reports how the connection ended',
  '''For every sequence of writes and reads of any sizes over a TLS connection, with any fragmentation by the peer and TLS 1.2 or 1.3, the peer receives exactly the bytes written and the client exactly the bytes sent. The proper end of the peer is reported as 0 by reading some and as an exception by reading all; a connection cut off is
  always an exception. Closing tells the peer and does not fail unless something failed, the object can connect again, a peer which refuses or does not speak TLS is an exception, no socket is left open and the process ends normally.''',
  ['inputs', 'histories', 'fault_sequences'], 'every pattern of sizes, records, protocol versions and ends of the connection', 'the class has no test', [I + 'ssl.hpp', I + 'socket.hpp'],
  [('connect', I + 'ssl.hpp:120'), ('reading', I + 'ssl.hpp:141'), ('write', I + 'ssl.hpp:161'), ('close', I + 'ssl.hpp:178'), ('process end', I + 'ssl.hpp:31')], 'A TLS server of OpenSSL runs in a thread at the other end of a socket pair which replaces the connection (no port is used). Oracle: the strings sent by both sides.',
  'a case is one or two sessions with up to 60000 bytes each way, one bad server or one process; non-trivial if more than 10 bytes are sent', 'Generated search with a real peer and injected ends of the connection.', ['SIGPIPE is ignored', 'buffers are not empty'])
P('C41', 'Quit signals, stack traces and benchmark counters report what happened',
  '''Each SIGINT, SIGQUIT, SIGABRT or SIGTERM calls quit of the application registered last exactly once, never re-entering it, and other signals keep their handlers. A stack trace, taken directly or by an exception, lists the frames from the innermost one on (at most 32), with names in the debug and addresses in the release build; an exception shows it once behind its values.
  Demangled names are exact and other names unchanged, and the benchmark macros call the function exactly as often as they report with exactly the given parameters and measure the sum of the intervals.''',
  ['histories', 'schedules', 'inputs'], 'every history of registrations and (nested) signals, every call path, every name of the grammar, every loop count', 'none of these has a test', [I + 'quit_signal_handler.hpp', I + 'stacktrace.hpp', I + 'exception.hpp', I + 'benchmark.hpp'],
  [('signal handler', I + 'quit_signal_handler.hpp:23'), ('StackTrace', I + 'stacktrace.hpp:116'), ('Demangle', I + 'stacktrace.hpp:98'), ('CpuClock', I + 'benchmark.hpp:61')], 'Oracle: counters in the application, the generated call path, names put together from the mangling grammar, and call counts.',
  'a case is one history of up to 16 signals, one call path, one name or one loop; non-trivial if it has a nested signal, more than one frame, a qualified name or more than one loop', 'Generated histories and call paths against counters.', ['Linux and GCC', 'at most one pending instance of each signal'])
P('C42', 'The morphological analyser is wrapped without losing words',
  '''For every text and length, parsing appends exactly the words of the analyser in order, and walking visits exactly its nodes with their position, length and word class up to the end; an analyser which cannot be created is reported by an exception.''',
  ['inputs'], 'every text of Japanese and ASCII pieces with any white space, every length', 'the wrapper has no test', [I + 'nlp/mecab.hpp'],
  [('parse', I + 'nlp/mecab.hpp:38'), ('walking', I + 'nlp/mecab.hpp:60')], 'Oracle: MeCab called directly with the installed dictionary.',
  'a case is one text of up to 14 pieces; non-trivial if it has more than two words', 'Generated differential search.', ['a length of 0 means up to the end of the string', 'the dictionary of the sandbox (ipadic)'])
