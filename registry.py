"""Which harness entries decide which property, with their bounds."""
REG = {}

REG['P01'] = dict(
    jobs=[dict(file='p01', entry='p01_width', params=list(range(65)), time=120, wit=1),
          dict(file='p01', entry='p01_types', params=list(range(7)), time=60),
          dict(file='p01', entry='p01_packets', params_quick=[64, 33, 32, 13, 8, 7], params_thorough=[64, 57, 33, 32, 31, 24, 17, 16, 15, 13, 9, 8, 7, 5, 3], time=200, wit=1)],
    covers=['width', 'types', 'packets'],
    bounds='p01_width: every minimum/maximum pair of each width 0..64, 4 records with any in-range values, every split over two write calls, every read chunk size 1..4; '
           'p01_types: every buffer element type with values over the whole type, 3 records; p01_packets: enough records for more than two packets at fixed bounds, all values symbolic, '
           'writes of 1500 and reads of 1111 records',
    outside='more than about 2.3 packets of data; chunk sizes other than those listed for multi-packet data')

REG['P02'] = dict(
    jobs=[dict(file='p02', entry='p02_record', params=[0, 1], time=200, wit=2),
          dict(file='p02', entry='p02_narrow', params=[0, 1, 2, 3, 4, 5], time=120, wit=1),
          dict(file='p02', entry='p02_scaled', params=list(range(8)), time=200, wit=1),
          dict(file='p02', entry='p02_nodes', params=[0, 1, 2, 3, 4], time=120)],
    covers=['accepted', 'refused', 'narrow', 'scaled accepted', 'scaled refused', 'nodes'],
    bounds='p02_record: integer fields whose minimum, maximum and 2 records are all arbitrary 64-bit values; p02_narrow: every value of each narrower element type against fixed bounds; '
           'p02_scaled: every double (8 scale/offset pairs, powers of two) written with scaling; p02_nodes: every value/minimum/maximum triple of the node constructors',
    outside='scales that are not powers of two when writing scaled values (floating-point division is beyond the solver budget)')

REG['P03'] = dict(
    jobs=[dict(file='p03', entry='p03_convert', params=list(range(80)), time=120, wit=1),
          dict(file='p03', entry='p03_string', params=[0], time=60)],
    covers=['stored', 'delivered', 'unrequested', 'string'],
    bounds='both directions, every field kind (integer, raw scaled integer, single, double, string) against every buffer element type, with and without conversion requested; '
           'the converted value is any value of its type; 2 records with guard bytes between and after the elements',
    outside='more than 2 records per transfer (conversion is per value)')

REG['P04'] = dict(
    jobs=[dict(file='p04', entry='p04_scaled', params=list(range(8)) + [8, 10, 12, 15] + [16, 17, 18, 20, 22], time=200, wit=1),
          dict(file='p04', entry='p04_exact', params=[0, 1, 2, 3], time=200),
          dict(file='p04', entry='p04_toint', params=[a + 10 * b for b in range(4) for a in range(6)] + [6], time=120, wit=1),
          dict(file='p04', entry='p04_fromint', params=[a + 10 * b for b in range(4) for a in range(6)], time=120, wit=1),
          dict(file='p04', entry='p04_node', params=list(range(8)), time=60)],
    covers=['scaled', 'exact', 'int delivered', 'int written', 'node'],
    bounds='p04_scaled: 8 scale/offset pairs, every 16-bit raw value (10-bit through float buffers), also fields with a single possible value; p04_exact: every raw value below 2^51 in magnitude, 4 exact scales; '
           'p04_toint/p04_fromint: every raw value in -40000..40000 into, and every value of, each integer element type; p04_node: every 64-bit raw/minimum/maximum, 8 scale/offset pairs',
    outside='writing scaled values where the scale is not a power of two; raw values of magnitude 2^51 and more written through scaling')

REG['P05'] = dict(
    jobs=[dict(file='p05', entry='p05_bits', params=[0, 1], time=60, wit=2),
          dict(file='p05', entry='p05_packets', params=[0, 1], time=120, wit=1)],
    covers=['bits', 'packets'],
    bounds='every bit pattern of single and double fields; 3 records with every chunking, and enough records for more than one packet with every value symbolic',
    outside='more than about 2 packets of data')

REG['P06'] = dict(
    jobs=[dict(file='p06', entry='p06_chunks', params=list(range(9)), time=120, wit=2),
          dict(file='p06', entry='p06_long', params_quick=[0, 1, 2, 3, 6, 11, 12], params_thorough=list(range(16)), time=120),
          dict(file='p06', entry='p06_packets', params=[0, 1, 2], time=120)],
    covers=['chunks', 'long', 'packets'],
    bounds='3 strings with every combination of lengths 0, 1, 127, 128, 129, 300 and every byte symbolic, write and read blocks of 1 to 3; strings longer than one packet; 150 kB of short strings over several packets',
    outside='other length combinations; strings longer than 140000 bytes')

REG['P07'] = dict(
    jobs=[dict(file='p07', entry='p07_subset', params_quick=[0, 4, 8, 10, 14, 18, 21, 29, 35], params_thorough=list(range(36)), time=120, wit=2),
          dict(file='p07', entry='p07_packets', params=list(range(8)), time=200),
          dict(file='p07', entry='p07_none', params=[0], time=120, wit=1),
          dict(file='p07', entry='p07_newbuf', params=[0, 1, 2, 3], time=60),
          dict(file='p07', entry='p07_two', params=[0], time=60, wit=1)],
    covers=['subset', 'packets', 'none', 'newbuf', 'two'],
    bounds='8 fields of every kind (nested in structures and vectors), all values symbolic, 3 records, every non-empty subset read, write and read blocks of 1 to 3, 4 field orders; '
           '5000 records over several packets with uneven streams; zero records; new buffers between calls; two vectors in one file',
    outside='other prototypes; more records than listed')

REG['P08'] = dict(
    jobs=[dict(file='p08', entry='p08_offsets', params=[0], time=60),
          dict(file='p08', entry='p08_ops', params_quick=[0, 2, 4, 5, 8, 9, 12, 14, 16] + list(range(18, 27)), params_thorough=list(range(27)), time=300, wit=2)],
    covers=['offsets', 'ops'],
    bounds='offset translation for every offset below 2^42; operation sequences on the paged file: an initial write or extension of one of 9 lengths around page boundaries, then up to two further writes '
           '(10 offsets x 8 lengths) or extensions (8 lengths), all bytes symbolic, then a read from any of 10 offsets, the whole file read back after closing',
    outside='offsets and lengths other than the listed ones around page boundaries; writes that begin beyond the current end; more than three operations')

REG['P09'] = dict(
    jobs=[dict(file='p08', entry='p09_pages', params_quick=[0, 3, 5, 8, 9, 13, 17, 20, 24], params_thorough=list(range(27)), time=300, wit=1),
          dict(file='p08', entry='p09_crc', params=[0, 1, 2], time=300),
          dict(file='p08', entry='p09_step', params=[0], time=60),
          dict(file='p08', entry='p09_file', params=[0, 1, 2, 3], time=60, wit=1)],
    covers=['pages', 'crc', 'step', 'file'],
    bounds='as for the operation sequences of P08 with all bytes symbolic; whole files with 0 to 400 points and a blob of 7 lengths; the checksum routine for every message of up to 2 bytes and one further byte from every state',
    outside='other file layouts')

REG['P10'] = dict(
    jobs=[dict(file='p08', entry='p10_policy', params=list(range(101)), time=120, wit=1),
          dict(file='p08', entry='p10_file', params=[0, 1], time=60, wit=1)],
    covers=['delivered', 'refused', 'file sound', 'file corrupt'],
    bounds='4 pages with every byte and every stored checksum symbolic, 9 offsets x 10 lengths around page boundaries, each percentage 0..100; a whole file with any stored checksum of any page changed in any way',
    outside='other ranges and file sizes; corruption of the payload that happens to keep the checksum')

REG['P13'] = dict(
    jobs=[dict(file='p13', entry='p13_range', params=list(range(6)), time=60, wit=1),
          dict(file='p13', entry='p13_data', params=list(range(8)), time=60, wit=1),
          dict(file='p13', entry='p13_fresh', params=list(range(6)), time=60, wit=1)],
    covers=['range', 'data', 'never written', 'partly written'],
    bounds='blob lengths 0, 1, 4, 5, 7, 955, 1020, 1021, 1500, 2100, 3000 between two neighbouring blobs and a point set; every 64-bit start and count outside the blob; two overlapping writes and one read, each at 5 offsets x 2 lengths, all bytes symbolic; the last blob of a file with 0..2 short writes, read before and after closing',
    outside='other lengths and in-range offsets, more than two writes')

REG['P14'] = dict(
    jobs=[dict(file='p14', entry='p14_write', params=list(range(8)), time=120, wit=1),
          dict(file='p14', entry='p14_read', params=list(range(8)), time=60, wit=1),
          dict(file='p14', entry='p14_retry', params=[0, 1], time=60, wit=1)],
    covers=['write: reported', 'read: reported', 'retry'],
    bounds='a writing and a reading session (string, 1500-byte blob, 3 points; and a one-page file) with a fault at any of its system calls: an error, or any shorter transfer length (5 lengths for writes that extend the file); one fault or one that persists; repeated transfer on the same file after the fault',
    outside='other sessions, several independent faults, interrupted-and-restarted system calls, failures of close on a file that is only read')
REG['P15'] = dict(
    jobs=[dict(file='p14', entry='p15_whole', params=[0, 4], time=60, wit=1),
          dict(file='p14', entry='p15_torn', params=[0, 1, 2, 4, 5, 6], time=60, wit=1),
          dict(file='p14', entry='p15_cancel', time=60, wit=1)],
    covers=['nothing left', 'complete', 'refused', 'contents complete', 'cancel'],
    bounds='two writing sessions (string, 1500-byte blob, 3 points; and a one-page file) stopped at any system call, the last page written being torn at any byte (5 lengths for writes that extend the file); cancel and drop at 7 stages; checksum policies all, half, none',
    outside='other sessions; reordering of page writes by the operating system after a power failure')

REG['P21'] = dict(
    jobs=[dict(file='p21', entry='p21_seq', params_quick=[4, 13, 23, 33], params_thorough=[4, 14, 24, 34], time=400, wit=2),
          dict(file='p21', entry='p21_closed', time=100, wit=2)],
    covers=['sequence', 'closed'],
    bounds='every sequence of 4 of 15 operations (open, use, close and drop readers and writers, close and cancel the file, failing opens) from a fresh file, and of 3 (thorough: 4) from three prepared states; 36 operations on a closed file',
    outside='longer sequences, more than two compressed vectors; handles used after the file object itself is gone')

REG['P11'] = dict(
    jobs=[dict(file='p11', entry='p11_fields', params=[0, 1, 2, 3], time=60, wit=1),
          dict(file='p11', entry='p11_xml', params=[0, 1, 2, 3, 4, 5, 6, 7, 10, 14, 15], time=120, wit=1),
          dict(file='p11', entry='p11_length', params=[0, 1], time=60, wit=1)],
    covers=['accepted', 'refused', 'xml accepted', 'xml refused', 'length'],
    bounds='a small sound file whose 48 header bytes are arbitrary (page checksum kept consistent), from disk and from memory; every 64-bit XML position at or beyond the end and 15 positions inside; every 64-bit XML length beyond the file and 9 lengths inside; 18 file lengths',
    outside='other positions and lengths inside the file, XML contents other than those found there')
_P12S = [n * 100 + k for n in range(11) for k in (0, 1, 3)]
_P12T = [202, 204, 302, 304, 602, 802, 804, 102, 104, 902, 1002]
REG['P12'] = dict(
    jobs=[dict(file='p12', entry='p12_section', params=[0, 1, 2, 3, 4, 10, 11, 12, 13, 14], time=60, wit=1, stop=20),
          dict(file='p12', entry='p12_packet', params=_P12T + _P12S + [310, 211, 312, 10100, 10101, 10103, 10200, 10201], params_thorough=_P12T + _P12S + [310, 211, 312, 502, 504, 10100, 10101, 10103, 10200, 10201, 10202, 10300, 10302, 10501], time=300, time_thorough=900, wit=1),
          dict(file='p12', entry='p12_blob', time=60, wit=2),
          dict(file='p12', entry='p12_claims', time=60, wit=2)],
    covers=['read to the end', 'refused', 'blob read', 'blob refused', 'claims read', 'claims refused'],
    bounds='arbitrary section headers with 15 data offsets inside the file and any beyond it; one packet (11 lengths from 4 to 65536) or two (the second 4..16 bytes) with arbitrary type, flags, stream count and contents, stream lengths that fill the packet (4 splits) or any that do not; fields of 5 record types, string lengths of any size; claimed blob and record positions and lengths from a list of 13 x 11',
    outside='more than two packets, other splits between streams, packets that follow others than these')

REG['P16'] = dict(
    jobs=[dict(file='p16', entry='p16_tree', params_quick=list(range(11)) + [100, 103, 104, 107], params_thorough=list(range(11)) + [100 + k for k in range(11)], time=200, time_thorough=600, wit=2),
          dict(file='p16', entry='p16_alike', params=[0, 1, 2, 3, 4, 5] + [10 * k + 6 for k in range(9)] + [10 * k + 7 for k in range(9)] + [8, 18, 28, 48, 68, 78, 101, 106, 176], time=200, wit=1),
          dict(file='p16', entry='p16_frozen', params=[0], time=200, wit=2)],
    covers=['checked', 'append refused', 'set refused', 'alike accepted', 'unlike refused', 'frozen', 'not frozen'],
    bounds='9 nodes (root, two structures, homogeneous and heterogeneous vector, three integers, one of them with any maximum, a node of another file); every operation (set by 6 forms of path with any letters, append) on every pair of them, '
           'after each of 11 prepared trees and, for some of these (thorough: all), after one further arbitrary accepted operation; homogeneous vectors: pairs of nodes of nine kinds (also inside structures, vectors and prototypes) with any bounds, scales, names and values; every place below a homogeneous vector of one or two structures',
    outside='longer histories, numeric names of structure children, prototype and codec trees, edits of files opened for reading')

REG['P17'] = dict(
    jobs=[dict(file='p17', entry='p17_path', params_quick=[0, 1, 2, 3, 4, 5], params_thorough=[0, 1, 2, 3, 4, 5, 6], time=200, time_thorough=1500, wit=2),
          dict(file='p17', entry='p17_kinds', params_quick=[6], params_thorough=[6, 7, 8], time=200, time_thorough=1500, wit=2),
          dict(file='p17', entry='p17_element', params_quick=[0, 1, 2, 3, 4], params_thorough=[0, 1, 2, 3, 4, 5, 6], time=200, time_thorough=1500, wit=2)],
    covers=['refused', 'accepted', 'name'],
    bounds='every string of up to 5 (thorough: 6) bytes as a path, and every path of 6 (thorough: up to 8) characters of five kinds; every string of up to 4 (thorough: 6) bytes as an element name; one extension declared',
    outside='longer strings; correctness of UTF-8 sequences above 127')

REG['P18'] = dict(
    jobs=[dict(file='p18', entry='p18_text', params_quick=[0, 1, 2, 3, 4, 70003, 71003], params_thorough=[0, 1, 2, 3, 4, 5] + [k * 100 + 3 for k in range(690, 730)], time=200, time_thorough=1500, wit=2),
          dict(file='p18', entry='p18_markup', params_quick=[5, 6, 7, 71804], params_thorough=[5, 6, 7, 8, 9, 71804], time=200, time_thorough=1500, wit=2),
          dict(file='p18', entry='p18_unicode', time=100, wit=2)],
    covers=['kept', 'terminator', 'two bytes', 'three bytes', 'four bytes'],
    bounds='every string of up to 4 (thorough: 5) characters of ASCII text including tab, newline and carriage return; every string of up to 7 (thorough: 9) characters of the four kinds that matter to the markup; every character outside ASCII between two arbitrary others; the same behind a long fixed beginning so that the text crosses a page',
    outside='characters XML 1.0 cannot represent (control characters, surrogates, invalid UTF-8); longer arbitrary strings',
    assumptions=['the XML parser is replaced by a small model of XML 1.0 with namespaces in the symbolic build; every replay and path witness runs the real one'])

_TOK = ['decimal output and input of the C++ library is not executed: a symbolic number prints as a unique text that reads back as the number (a single precision number as one that only rounds to it); '
        'extreme values, NaN, infinities and numbers that need every digit are printed for real',
        'the XML parser is replaced by a small model of XML 1.0 with namespaces in the symbolic build; every replay and path witness runs the real one']
REG['P19'] = dict(
    jobs=[dict(file='p19', entry='p19_integer', params=[0, 1], time=100, wit=3),
          dict(file='p19', entry='p19_scaled', params=[0, 1], time=100, wit=3),
          dict(file='p19', entry='p19_double', params=[0, 1], time=100, wit=3),
          dict(file='p19', entry='p19_single', params=[0, 1, 2, 3, 4, 5], time=100, wit=3),
          dict(file='p19', entry='p19_digits', params_quick=[10, 16, 408, 410, 606], params_thorough=[10, 16, 18, 20, 408, 410, 412, 610, 612], time=100, time_thorough=900, wit=3)],
    covers=['kept', 'refused'],
    bounds='every 64-bit value, minimum and maximum of integer and scaled integer nodes with every scale and offset; every double value with all finite bounds; every single precision value or bound; each in the classic global locale and in one with digit grouping and decimal comma; '
           'all decimal digits of m/2^s for m below 2^16 (s=0) or 2^10 (s=4) and both signs',
    outside='infinite and NaN bounds of float nodes; digits of other floating point numbers',
    assumptions=_TOK)

REG['P20'] = dict(
    jobs=[dict(file='p20', entry='p20_tree', params_quick=list(range(10)) + [10, 20, 30, 40, 51, 60, 70, 80, 90, 98, 89], params_thorough=list(range(100)), time=200, time_thorough=400, wit=2)],
    covers=['reopened', 'blob', 'records'],
    bounds='two children of the root of 10 kinds each (quick: 21 pairs, thorough: all 100): integers, floats, scaled integers, strings, structures with two children of 9 kinds (one nested deeper), homogeneous vectors of 12, heterogeneous vectors of up to 3, blobs of up to 2 bytes, compressed vectors of up to 2 fields and 2 records; one letter of every name, all values and bounds, text and contents symbolic',
    outside='larger trees; default values of numbers (P19)', assumptions=_TOK)

REG['P23'] = dict(
    jobs=[dict(file='p23', entry='p23_registry', params=[1, 2, 3], time=100, wit=2),
          dict(file='p23', entry='p23_reopen', params=[1, 2], time=200, wit=2)],
    covers=['declared', 'duplicate prefix', 'duplicate uri', 'prefix found', 'prefix unknown', 'uri found', 'uri unknown', 'both', 'one'],
    bounds='up to 3 declarations with any prefixes and URIs of 1 or 2 bytes, then a lookup of any string of up to 2 bytes; reopening with 2 declarations of any 2-character names and any 1- or 2-character printable URIs',
    outside='longer strings, more declarations; empty prefixes and URIs; indices out of range',
    assumptions=_TOK[1:])

REG['P26'] = dict(
    jobs=[dict(file='p26', entry='p26_packet', params_quick=[204, 200, 300, 401, 303, 202, 302, 800, 1000], params_thorough=_P12T + _P12S, time=400, time_thorough=900, wit=1),
          dict(file='p26', entry='p26_section', params=[0, 1, 2, 3, 4, 10, 12, 14], time=60, wit=1, stop=20),
          dict(file='p26', entry='p26_blob', time=120, wit=1),
          dict(file='p26', entry='p26_corrupt', time=60, wit=2),
          dict(file='p26', entry='p26_turns', params=[0, 1], time=60, wit=1),
          dict(file='p26b', entry='p26_fields', time=60, wit=2),
          dict(file='p26b', entry='p26_xml', params=[0, 2, 4, 6], time=120, wit=1),
          dict(file='p26b', entry='p26_length', time=60, wit=2)],
    covers=['both read', 'both refuse', 'both open', 'neither opens', 'turns'],
    bounds='headers as in P11, section headers, packets, blob positions and lengths as in P12 (one packet), one changed byte on any page under four checksum policies; files of up to 5 pages; every order of 9 reads by two readers over one buffer',
    outside='the error code reported may differ; bytes of the XML section changed without a new checksum; buffers changed by the caller while in use')

REG['P22'] = dict(
    jobs=[dict(file='p22', entry='p22_packets', params_quick=[0, 1], params_thorough=[0, 1, 2, 4, 5], time=200, wit=0),
          dict(file='p22', entry='p22_width', params_quick=[0, 1, 2, 3, 5, 7, 8, 9, 13, 15, 16, 17, 24, 31, 32, 33, 47, 48, 57, 63, 64, 104, 111, 116, 132, 164],
               params_thorough=list(range(65)) + [100 + k for k in range(65)], time=120, wit=1),
          dict(file='p22', entry='p22_mix', params=[0, 5, 10, 15, 29], time=60, wit=1),
          dict(file='p22', entry='p22_strings', params=list(range(19)) + [100 + k for k in range(2, 19, 3)], time=60, wit=1),
          dict(file='p22', entry='p22_fields', params=[1, 40, 300, 1100], time=200, wit=1, steps=400000000),
          dict(file='p22', entry='p22_blob', time=60, wit=1)],
    covers=['mix', 'packets', 'width', 'strings', 'fields', 'blob'],
    bounds='records of eight kinds of field, 0..33 records of any values in two sections and 5000 records over several packets; integers of any minimum and ranges of 0..64 bits (three ranges of each width); '
           'strings of 19 lengths up to 140000 with any first and last 40 bytes beside other fields; up to 1100 fields; blobs of 11 lengths and any bytes before or after the section',
    outside='more than 1100 fields (beyond about 21800 no packet can hold one byte of each); several megabytes of data')

_P24 = [20, 30, 1020, 11010, 100020, 100030, 101030, 111010, 11, 21, 31, 1011, 11011, 100021, 100031, 101011, 111011, 22, 1022, 100022,
        3, 13, 23, 33, 1003, 1013, 11013, 1023, 100003, 100013, 100023, 100033, 101033, 111013, 4, 14, 24, 34, 1014, 100034, 25, 1025, 26, 1026, 101026,
        120, 121, 122, 123, 124, 125, 126, 1120, 1135, 101131, 101130]
REG['P24'] = dict(
    jobs=[dict(file='p24', entry='p24_points', params_quick=_P24,
               params_thorough=_P24 + [10, 1010, 100010, 101010, 11110, 111110, 11111, 111, 1111, 113, 114, 133, 134, 100120, 100130, 100121, 1122, 1123, 1124, 1125, 1126], time=300, time_thorough=900, wit=1),
          dict(file='p24', entry='p24_header', params=list(range(22)), time=300, wit=1),
          dict(file='p24', entry='p24_groups', params=[0, 1, 2, 3], time=60, wit=1),
          dict(file='p24', entry='p24_file', time=60, wit=2)],
    covers=['points', 'header', 'groups', 'file'],
    bounds='header: one group of fields at a time (texts of two letters each, all and one alone; 0..3 original guids; any finite numbers, index bounds of any value; colour limits 0..255 and 0..65535; intensity limits of -128..127 steps for integer types), '
           'points: every subset of each of seven groups of fields with all other fields off or on, 2 points of any values (coordinates, times and intensities any finite number, 8-bit raw values with a scale of 1/4 for scaled integers), '
           'float and double buffers of one\'s own or the library\'s, limits given or computed (values -25, 0.25, 25 among others near 0, 5, -10), groups of 1..3 lines with any values, 0..3 scans',
    outside='more points (P01..P07), subsets mixed over groups, texts and numbers themselves (P18, P19), scales other than 1/4, limits of colours and integer intensities that are not whole numbers, NaN and infinite values, '
            'conditions equal to the largest float (means unset), generated GUIDs',
    assumptions=_TOK)
REG['P25'] = dict(
    jobs=[dict(file='p25', entry='p25_header', params=list(range(8)) + list(range(10, 17)) + list(range(20, 25)), time=100, wit=1),
          dict(file='p25', entry='p25_data', params=list(range(8)) + [10, 11, 12, 13, 14, 15, 16], time=200, wit=2)],
    covers=['header', 'data', 'other image', 'outside'],
    bounds='every projection alone and with a visual reference, JPEG or PNG, with or without a mask; header texts of two letters, any finite numbers, widths and heights up to 2^31-1; images of 5 and 2100 bytes with any first and last bytes, '
           'masks of 3 and 1030 bytes, written in two pieces; any request (image index, projection, type) with every range of the short image',
    outside='both a JPEG and a PNG in one representation, a mask alone and two projections besides the visual reference (not allowed by the standard), requests beyond the end of an image (P13), NaN and infinite numbers',
    assumptions=_TOK)

REG['P27'] = dict(
    jobs=[dict(file='p27', entry='p27_tree', params_quick=list(range(11)), params_thorough=list(range(11)) + [100, 103, 104, 107], time=200, time_thorough=900, wit=2),
          dict(file='p27', entry='p27_transfer', params_quick=[3, 12, 22, 32], params_thorough=[4, 13, 23, 33], time=200, time_thorough=900, wit=2),
          dict(file='p27', entry='p27_values', params=[0, 1, 2, 3, 4, 5, 8], time=200, wit=2),
          dict(file='p27', entry='p27_extensions', time=60, wit=2),
          dict(file='p27', entry='p27_buffer', time=60, wit=2),
          dict(file='p27b', entry='p27_reopen', params_quick=list(range(10)) + [30, 67, 98], params_thorough=list(range(100)), time=200, time_thorough=400, wit=2)],
    covers=['tree', 'append refused', 'set refused', 'transfers', 'accepted', 'refused', 'extensions', 'buffer', 'reopened'],
    bounds='the trees of P16 after any one operation (thorough: two) and closing or cancelling; every sequence of 3 (from prepared states 2; thorough: 4 and 3) of the 15 transfer operations of P21; elements of 7 kinds with any values, bounds, scales and short texts, loose, placed and attached; '
           'any three declarations of extensions with two-character prefixes and URIs; buffers of 11 representations with gaps of 0 to 8 bytes; the trees of P20 (quick: 13 pairs of kinds, thorough: all 100) while written and after reopening',
    outside='longer histories; infinite scales and offsets; strides below the size of an element and scales of zero, which the documentation forbids; objects left over after a failed transfer', assumptions=_TOK)

REG['P28'] = dict(
    jobs=[dict(file='p28', entry='p28_limits', params=[0, 1, 2, 3, 10, 11, 12, 13, 20, 21, 22, 30, 31, 33], time=300, wit=1),
          dict(file='p28', entry='p28_store', params=list(range(25)), time=300, wit=1),
          dict(file='p28', entry='p28_fetch', params=list(range(25)) + [115, 116, 123, 124, 223, 224], time=300, wit=1),
          dict(file='p28', entry='p28_points_store', params=[10, 11, 13, 14, 20, 21, 22, 23, 24, 25, 26, 30, 31, 33, 34], time=200, wit=1),
          dict(file='p28', entry='p28_points_fetch', params=[2, 3, 4, 5, 6, 10, 11, 13, 14, 20, 21, 23, 24, 30, 31, 33, 34], time=200, wit=1),
          dict(file='p28', entry='p28_groups', params=[0, 1], time=60, wit=1),
          dict(file='p28', entry='p28_file', time=60, wit=1),
          dict(file='p28b', entry='p28_image_store', params=list(range(17)), time=200, wit=1),
          dict(file='p28b', entry='p28_image_fetch', params=list(range(17)), time=200, wit=1)],
    covers=['limits given', 'limits from the layout', 'stored', 'fetched', 'defaults', 'points stored', 'points fetched', 'groups', 'file', 'with a mask', 'without'],
    bounds='one group of related header elements at a time with any values, the others all absent or all present with fixed values; 0..2 original guids; bounds and limits stored as floats, scaled integers or integers (raw values 1..100, scale 1/4); '
           'record layouts with integer, scaled integer, float and double intensities and integer or float colours of any range within 0..102; two points with every field, coordinates, times and intensities of every type, fields stored in two orders with a foreign field among them; '
           'two line groups; the 64 combinations of optional elements of the file; images of three bytes with two mask bytes in each representation; distortion coefficients of which one in three may be absent or zero',
    outside='elements of one structure stored with different types, one of a minimum/maximum pair alone, integer coordinates and angles (refused by the simple interface), element types other than the standard gives, more points (P01..P07)',
    assumptions=_TOK)

REG['P29'] = dict(
    jobs=[dict(file='p29', entry='p29_writer', params_quick=[0, 1, 2, 3, 4], params_thorough=[0, 1, 2, 3, 4, 5], time=200, time_thorough=900, wit=2),
          dict(file='p29', entry='p29_reader', params_quick=[0, 1, 2, 3, 4], params_thorough=[0, 1, 2, 3, 4, 5], time=200, time_thorough=900, wit=2),
          dict(file='p29', entry='p29_later_write', time=200, wit=3),
          dict(file='p29', entry='p29_later_read', time=200, wit=3)],
    covers=['writer taken', 'writer refused', 'reader taken', 'reader refused', 'new memory', 'different set'],
    bounds='records of an integer, a float inside a structure and a string with any values; every list of 0..4 (thorough: 5) buffers naming these fields, the structure or nothing that exists, the first and the last with any capacity of 1..4; '
           'buffers given later that are the same but for the address or differ in number, order, element type, conversion flag, stride or name; 0..255 records requested of buffers of 4',
    outside='a changed capacity (documented as allowed, refused by the code) and a changed scaling flag of buffers given later, buffers made for another file, absolute path names, which of several applicable errors is raised')
