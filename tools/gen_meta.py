#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the texts live here, the claimed set is spec/props.py)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from spec import props

P = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, na=na))


AI = 'path-sensitive abstract interpretation of the MIR of every monomorphised entry point, compared with a wire grammar'
ASM = ('Holds for every value / input / reader / writer behaviour within the abstract domain, for the listed entry points (types, attribute combinations and methods of the corpus); '
       'the type corpus is finite; std is modelled by its documentation where it is not analysed; 64-bit little-endian target. '
       'A path the domain cannot decide is reported in the evidence as undecided and is not counted as decided.')

W, R, D = 'src/writable_impl.rs', 'src/readable_impl.rs', 'speedy-derive/src/lib.rs'

prop('P01', 'Serialized bytes follow the documented wire format for every value',
     'For every supported type and every value of it, serializing writes exactly the bytes of the documented layout (fixed-width integers in the requested byte order, 32-bit element counts before strings and containers, one-byte presence/variant markers, fields and elements once each in order) and nothing else. This holds in both byte orders and for every kind of output.',
     ['inputs', 'configurations'], 'every value of every supported type, either byte order, any writer',
     'Tests compare a few values per type in both byte orders; a wrong length, order or byte order that only shows for other lengths, variants, capacities or writers is never sampled.',
     [W, 'src/writer.rs', 'src/ext_*.rs'], [('serialization of std and third-party types', W), ('integer writing and byte swapping', 'src/writer.rs')], AI, ASM)
prop('P02', 'Decoding consumes exactly one encoding and returns the value it denotes',
     'For every supported type and every input, a successful decode has consumed exactly the bytes of one encoding of that type, in order, and returns the value those bytes denote in the documented layout, in either byte order, whatever optional capabilities (borrowing, known remaining length) the source has. Every complete valid encoding is accepted.',
     ['inputs', 'configurations'], 'every byte sequence, every supported type, either byte order, readers with and without borrowing',
     'Round-trip tests use a handful of values; the borrowed, aligned, unaligned, byte-swapped and element-wise paths multiply with every type.',
     [R, 'src/readable_unsized_impl.rs', 'src/reader.rs', 'src/ext_*.rs'], [('deserialization of std and third-party types', R), ('bulk, borrowed and element-wise reading', 'src/reader.rs')], AI, ASM)
prop('P03', 'The announced serialized size equals what serialization writes',
     'For every value that can be serialized, the size computed in advance equals exactly the number of bytes serialization produces, including for zero-sized, nested, borrowed and attribute-modified data.',
     ['inputs'], 'every value of every supported or derived type',
     'Buffers are sized by this number, so an error shows only for values for which the shortcut computation and the real encoding diverge.',
     [W, D, 'src/writable.rs'], [('size computation by counting writes', 'src/writable.rs'), ('explicit size shortcuts', W)], AI, ASM)
prop('P04', 'No valid encoding is rejected up front as too short',
     'The minimum encoded size a type reports never exceeds the size of any of its valid encodings, and a decode never fails with an end-of-input error because of an upfront size estimate when the source in fact holds a complete valid encoding.',
     ['inputs', 'programs'], 'every type (including derived ones, with every attribute) and every valid encoding',
     'An overestimate only shows for the shortest encodings of particular variants or attributes.',
     [R, D, 'src/reader.rs', 'src/readable.rs'], [('minimum size per type', R), ('derived minimum size', D), ('upfront check', 'src/readable.rs')], AI, ASM)
prop('P05', 'Derived code encodes and decodes fields, variants and attributes as declared',
     'For every struct and enum with derived serialization, writing emits and reading consumes the fields once each in declaration order (enums: a tag of the declared width first, explicit tags taken as given and the others counting up), honouring skipped fields, defaults at end of input, constant prefixes, variable-length integers and peeked tags exactly as documented. Reading what was written gives an equal value in either byte order, also where the derive uses raw-memory fast paths.',
     ['programs', 'inputs', 'configurations'], 'every derivable type shape and attribute combination, every value, either byte order',
     'The derive macro generates code for unboundedly many type shapes; tests instantiate some shapes with one value each.',
     [D, 'src/private.rs'], [('code generation for fields and variants', D)], AI, ASM)
prop('P06', 'Length attributes and narrow length prefixes are enforced on both sides',
     'When a field has an explicit length or a narrower length prefix, writing fails with an error (and never emits a truncated count) if the actual length does not match the declared one or does not fit the prefix, and reading takes exactly the declared number of elements or, for an open-ended length, all remaining ones. A prefix out of the declared range is rejected when read.',
     ['programs', 'inputs'], 'every container kind with every length attribute, every length',
     'Lengths at and beyond the limits of each prefix are not sampled for every container kind.',
     [D, 'src/private.rs'], [('length prefix reading and writing', 'src/private.rs'), ('length attributes', D)], AI, ASM)
prop('P07', 'Variable-length integers have one canonical encoding and decode exactly',
     'Every unsigned 64-bit integer is written in the shortest of the nine documented variable-length forms, and every byte sequence of one of these forms is read back, or peeked at, as exactly the value it denotes, in either byte order and for every source. The announced size of an encoded integer is the size written.',
     ['inputs'], 'all 2^64 values, all byte sequences',
     'Tests try values around powers of two through one reader.',
     ['src/varint.rs'], [('variable-length integers', 'src/varint.rs')], AI, ASM)
prop('P08', 'Errors are propagated at once and unchanged',
     'When the underlying source or sink, or the serialization of any element, reports an error, the operation returns that same error, performs no further reading or writing, and never reports success or panics; an end of input is reported as an error and not as a shortened or defaulted value (except for fields explicitly declared to default at end of input).',
     ['fault_sequences', 'inputs'], 'every operation on the source or sink failing, at every position',
     'Tests use sources and sinks that fail only by running out, at a few positions.',
     ['src/reader.rs', 'src/writer.rs', R, W, D], [('error propagation in readers and writers', 'src/reader.rs')], AI, ASM)
prop('P09', 'Bytes that denote no valid value are rejected',
     'Decoding fails with an error whenever the bytes do not denote a valid value of the type: booleans and markers other than 0 or 1, unknown variants, invalid characters or UTF-8, zero for a non-zero integer, out-of-range times, mismatching constants or lengths. Such an error is never reported for valid bytes.',
     ['inputs'], 'every byte sequence and every type with invalid bit patterns',
     'Invalid patterns are sampled singly; a check lost on one of several reading paths (borrowed, bulk, peeked) would go unnoticed.',
     [R, 'src/error.rs', D], [('validation while reading', R)], AI, ASM)
prop('P10', 'Decoding arbitrary bytes never panics',
     'Decoding any supported or derived type from any byte sequence and any source returns a value or an error: it never panics, whether by overflow, failed assertion, slice indexing, division or unwrap.',
     ['inputs', 'programs'], 'every byte sequence, every source, every supported or derived type',
     'Panics need particular values (overflowing sums, extreme lengths, zero-sized elements) that the tests do not contain.',
     [R, 'src/reader.rs', D, 'src/ext_*.rs'], [('arithmetic and conversions in readers', R)], AI, ASM)


prop('P11', 'No memory access is out of bounds or exposes uninitialized memory',
     'For every type, value, input and source, no operation reads or writes memory outside the object it belongs to, uses memory that was never initialized as a value, produces values that are invalid for their type, or hands uninitialized memory to a user-supplied source, including when the source or sink fails or behaves arbitrarily within its contract.',
     ['inputs', 'fault_sequences', 'configurations'], 'every type of the corpus, every value, input and source behaviour',
     'Undefined behaviour is usually invisible in a test, and needs particular lengths, alignments or failures.',
     ['src/reader.rs', R, W, 'src/writable.rs', 'src/utils.rs', 'src/readable.rs'], [('raw copies and pointer arithmetic', 'src/reader.rs'), ('unsafe reads of plain memory', R), ('in-memory readers', 'src/readable.rs')],
     'abstract interpretation of the MIR with a proof obligation for every raw access (bounds, initialization, validity of enum and bool bit patterns) on every path', ASM)
prop('P14', 'In-memory sources account for every byte exactly',
     'Reading from a byte slice, copying or borrowing, provides exactly the bytes at the current position and advances by exactly the number taken; a request is refused, with an end-of-input error, if and only if fewer bytes remain; borrowed data lies in the input at the current position; and the number of consumed bytes that is reported is exact. What custom sources inherit behaves likewise.',
     ['inputs', 'histories'], 'every input, every position, every operation and request size',
     'The arithmetic at the end of the input and for huge requests is reached only by particular combinations.',
     ['src/readable.rs', 'src/reader.rs'], [('borrowing and copying buffer readers', 'src/readable.rs'), ('default methods of readers', 'src/reader.rs')],
     'abstract interpretation of each operation from an arbitrary state, with the demands stated as ghost assertions which are decided on every path', ASM)
prop('P15', 'Peeking shows the next bytes without consuming them',
     'For every source and every state, peeking at bytes or integers gives exactly what the next read would give, consumes nothing however often it is repeated, and fails only as the read would; afterwards reading continues as if nothing had been peeked at.',
     ['inputs', 'histories'], 'every peek operation, every source, every state',
     'Streams buffer what was peeked at, so an error shows only for particular sequences of peeks, reads and short reads.',
     ['src/readable.rs', 'src/reader.rs', 'src/circular_buffer.rs'], [('peeking in streams', 'src/readable.rs'), ('default methods of readers', 'src/reader.rs')],
     'inductive abstract interpretation: every peek operation from an arbitrary state, with the demands stated as ghost assertions', ASM)
prop('P16', 'Unbuffered streams are never read beyond what is decoded',
     'Reading from a stream without buffering takes from it exactly the bytes that were decoded or peeked at, never more, whatever the sizes of the chunks the stream provides; the bytes decoded are those of the stream in order, none lost or repeated; interrupted reads are retried and other errors are passed on.',
     ['inputs', 'histories', 'fault_sequences'], 'every operation, every state, every behaviour of the stream (short reads, interruptions, errors)',
     'Streams in tests provide whole chunks and do not fail.',
     ['src/readable.rs'], [('stream reader', 'src/readable.rs')],
     'inductive abstract interpretation: every operation of the stream reader from an arbitrary state over an opaque stream', ASM)
prop('P17', 'Buffered streams decode exactly the bytes of the stream, in order',
     'Reading from a stream with buffering provides the bytes of the stream in order, none lost, repeated or altered, however the stream splits them and however reads, peeks and wrap-arounds of the buffer interleave; it fails with an end of input if and only if the stream ends first; interrupted reads are retried and other errors are passed on.',
     ['inputs', 'histories', 'fault_sequences'], 'every operation, every state of the buffer (fill, position, capacity), every behaviour of the stream',
     'Wrap-around of the buffer needs particular read sizes and positions.',
     ['src/readable.rs', 'src/circular_buffer.rs'], [('stream reader', 'src/readable.rs'), ('circular buffer', 'src/circular_buffer.rs')],
     'inductive abstract interpretation: stream reader over an abstract queue, and the circular buffer against the contract of that queue, each from an arbitrary state', ASM)

prop('P18', 'All entry points do the same thing, with the context they are given',
     'Every convenience function behaves exactly like its explicit counterpart: without a context it uses little-endian byte order, otherwise exactly the context it was given (changes to a context passed by reference are visible to the caller). The value is read or written exactly once, the decoded value or the error is returned unchanged, the bytes produced are the same for buffers, vectors and streams, and the reported length is exact.',
     ['inputs', 'configurations'], 'every top-level function for reading and writing, every input, both byte orders',
     'Each of the two dozen functions has its own few tests, in one byte order and with inputs that are long enough.',
     ['src/readable.rs', 'src/writable.rs', 'src/context.rs'], [('top-level functions', 'src/readable.rs'), ('top-level functions', 'src/writable.rs')],
     'abstract interpretation of every top-level function with ghost assertions about context, value, error and length', ASM)
prop('P19', 'Output reaches buffers, vectors, streams and files completely or fails',
     'Writing puts the bytes in order and without gaps into the buffer, vector, stream or file. A buffer that is too small for the announced size is refused before anything is written; nothing is ever written beyond the announced size, and what lies behind the output stays untouched. Success is reported only if everything has been written and handed over (a file is truncated first and flushed), and the first error of a stream or file is returned; interrupted writes are retried.',
     ['inputs', 'fault_sequences', 'histories'], 'every write operation, every buffer size, every behaviour of the stream or file (partial writes, interruptions, errors at any point)',
     'Tests write to sinks that accept everything at once; errors of a sink or of the final flush never occur in them.',
     ['src/writable.rs', 'src/writer.rs'], [('buffer, stream and size-counting writers', 'src/writable.rs'), ('writing to a file', 'src/writable.rs')],
     'abstract interpretation of every write operation over an opaque sink / file, with ghost assertions', ASM)
prop('P22', 'Reading a file decodes exactly its contents and releases everything',
     'Reading from a file opens the named file, maps exactly its whole contents (an empty file is treated as empty input, without mapping), decodes from that memory only while it is mapped and never lends it out, unmaps it exactly once as a whole, and closes the file, whatever step fails; every failure of the operating system is returned as an error.',
     ['inputs', 'fault_sequences'], 'every size of the file, every system call failing, every decode result',
     'Tests read one small file and no system call fails.',
     ['src/readable.rs'], [('memory-mapped reading', 'src/readable.rs')],
     'abstract interpretation with a ghost model of files and mappings (typestate: open/closed, mapped/unmapped)', ASM)

prop('P12', 'Every decoded element is owned exactly once, also when a read fails midway',
     'Whatever decode fails at whatever point, every element that had already been decoded is dropped exactly once, and nothing that was never decoded is dropped; when a decode succeeds, every element is part of the returned value and none has been dropped. No element is leaked, dropped twice, or dropped and returned.',
     ['fault_sequences', 'inputs'], 'every type with elements that own something, every point of failure, every length',
     'Arrays and vectors are filled element by element in uninitialized memory, with hand-written clean-up; only a failure at a particular element of a type with a destructor can show a mistake there.',
     [R, 'src/reader.rs', D], [('element-wise reading of arrays', R), ('element-wise reading of vectors', 'src/reader.rs')],
     'ownership accounting on every path of the abstract interpretation of the MIR: every element read is matched with its drop, its collection or the returned value', ASM + ' Unwinding out of user code is not followed.')
prop('P13', 'Memory is requested in proportion to the input which exists',
     'A length found in the input never makes decoding request memory infallibly: memory is requested only in proportion to bytes which have been read or are known to remain, grown as elements are decoded, or requested fallibly, with a failed request reported as an error. A source which knows what remains is asked whether a sequence can be complete before memory for it is requested (unless its elements can be empty).',
     ['inputs', 'fault_sequences'], 'every type, every length in the input, every source, every failing allocation',
     'A length of billions in a short input aborts the process or exhausts memory; a test which shows it depends on the memory of the machine.',
     ['src/reader.rs', R], [('reading of vectors, strings and byte buffers', 'src/reader.rs'), ('collections, arrays and boxed values', R)],
     'abstract interpretation of the MIR recording every allocation with its symbolic size and what had been read or checked before', ASM + ' Growth of collections by pushing is amortised.')
prop('P24', 'Byte order follows the context at each access; reader and writer methods agree',
     'Every multi-byte item is read and written in the byte order the context has at that moment, also when the program changes the context between two items; single bytes are never affected. The methods of readers and writers which take a length, read to the end of the input, peek, or write slices and collections do this for exactly the elements in question, in order; the operations on byte orders (converting values and slices, reading from slices) agree with that.',
     ['inputs', 'histories'], 'every method, every element type, every length, every sequence of byte orders listed, every position in a slice',
     'Tests use one byte order per value, and the methods with lengths they happen to choose.',
     ['src/reader.rs', 'src/writer.rs', 'src/endianness.rs', 'src/context.rs'], [('sequence methods of readers', 'src/reader.rs'), ('sequence methods of writers', 'src/writer.rs'), ('conversion of byte orders', 'src/endianness.rs')],
     'abstract interpretation of the methods against the wire grammar with a symbolic byte order, and ghost assertions for the operations on byte orders', ASM)
prop('P25', 'Errors say what happened',
     'Every error has the kind its cause demands. It counts as an end of input or output exactly when one was hit (of a stream: exactly when the stream says so); converted into an error of the standard library it keeps that distinction, and an error of a stream comes back unchanged. Size mismatches report the sizes in question.',
     ['inputs', 'fault_sequences'], 'every kind of error, every error of a stream',
     'Code which retries at the end of the input depends on the kind of errors tests never provoke.',
     ['src/error.rs'], [('classification and conversion of errors', 'src/error.rs')],
     'abstract interpretation of every constructor and conversion of errors with ghost assertions', ASM)
prop('P20', 'Borrowed data lies in the input, is aligned, and cannot outlive the input',
     "Whatever is decoded without copying refers exactly to the bytes of the input at the position it was read from, with the length that was asked for and aligned as its type demands; where this is impossible (wrong alignment, wrong byte order, or a source that cannot lend) the data is copied, or an error is reported where it cannot be. No program in which such data outlives or coexists with a change of its input compiles.",
     ['inputs', 'programs'], 'every borrowing type, input, position and alignment; every program using the borrowed data',
     'Misaligned inputs and other byte orders depend on where the allocator puts a buffer; that programs do not compile is not tested.',
     ['src/utils.rs', 'src/reader.rs', R, 'src/readable.rs', 'src/readable_unsized_impl.rs', D], [('casting of borrowed bytes', 'src/utils.rs'), ('borrowing reads', 'src/reader.rs'), ('lifetimes of derived impls', D)],
     'abstract interpretation of the borrowing reads (provenance, length, alignment), and compile-fail witnesses with accepted twins for lifetimes', ASM + ' Lifetimes: the listed programs.')
prop('P21', 'Raw-memory shortcuts are used only for types which are plain memory',
     'A type is read, written or borrowed as raw memory only if every bit pattern of it is a valid value and its memory layout equals its wire layout (no padding, no reordered, skipped, prefixed or variable-length fields); for every other type the shortcut gives the same bytes and values as the field-by-field code, or does not exist: borrowing a slice of such a type does not compile.',
     ['programs', 'inputs', 'configurations'], 'every type, every struct shape, representation and attribute; either byte order',
     'Whether a shortcut is taken depends on the layout the compiler chooses; bytes written through it look right for most shapes.',
     [D, R, W, 'src/readable.rs', 'src/writable.rs', 'src/private.rs'], [('plain-memory markers of derived types', D), ('plain-memory markers of integers', R)],
     'abstract interpretation of bulk reads and writes for all layouts of the corpus, and compile-fail witnesses with accepted twins for what may be borrowed', ASM + ' Borrowing: the listed programs.')
prop('P23', 'Contradictory or unsupported uses of the derive macros do not compile',
     'A derive with attributes that are unknown, repeated, contradictory, out of range, given for the wrong kind of item or field, or that need a type or a default that does not exist, is rejected at compile time in every position and for both derives; the same declaration without the mistake is accepted. In particular, no two variants share a tag and no tag is truncated.',
     ['programs'], 'every attribute in every position (structs, tuples, variants, fields), for both derives',
     'The repository tests only what compiles; a check that is lost makes more programs compile, which no existing test notices.',
     [D], [('attribute parsing and checking', D)],
     'compile-fail witnesses: pairs of programs of which one has to be rejected and its twin, without the mistake, accepted by the derive and the type checker', 'The listed programs (577 pairs); the deciding step is the type check, nothing is run.')


def main():
    P.sort(key=lambda p: p['id'])
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']},
                                'why_tests_cant': p['why'], 'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}) + '\n')
    checks, na = [], []
    for p in P:
        if p['id'] in props.PROPS:
            c = 'python3 check.py %s' % p['id']
            checks.append({'property': p['id'], 'quick_cmd': c, 'thorough_cmd': 'VERIF_TIER=thorough ' + c, 'technique': p['technique'],
                           'level': props.PROPS[p['id']].level, 'level_note': p['note']})
        else:
            na.append({'property': p['id'], 'reason': p['na'] or 'no check has been built yet'})
    m = {'version': 1, 'setup_cmd': 'python3 setup.py', 'checks': checks, 'not_applicable': na,
         'notes': 'No hooks in /repo: everything is analysed through the public API. See DESIGN.md.'}
    json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)


main()
