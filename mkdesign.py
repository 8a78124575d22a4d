#!/usr/bin/env python3
"""Regenerates DESIGN.md from design.head.md, the texts below, registry.py and seeded/*/meta.json."""
import json, os, glob
V = os.path.dirname(os.path.abspath(__file__))
from registry import REG
T = {}
def t(i, how, oracle, why): T[i] = (how, oracle, why)
t('P01', 'Writes symbolic records to a compressed vector in the in-memory file, closes, reopens and reads them with every chunking. Minimum and maximum are symbolic with only the width fixed per job, so each bit width has one job.', 'the values written, kept by the harness', 'tests use a handful of bounds; shifts and masks go wrong at particular widths, alignments and register refills')
t('P02', 'Symbolic value, minimum and maximum through the writer and the node constructors; outcome compared with the exact comparison.', 'value in [minimum, maximum] in mathematical integers / reals; error code as documented', 'the wrong side of a bound needs one particular value out of 2^64')
t('P03', 'One transfer for every pair of field kind and buffer element type in both directions; value symbolic over its whole type (NaN and infinities included).', 'representability written in the harness with wide integers and IEEE terms; guard bytes round each slot', 'wrong range checks show only at the exact limits of a type')
t('P04', 'Symbolic raw values with fixed scale/offset pairs, both directions and through every element type.', 'IEEE evaluation of raw*scale+offset; nearest integer of the inverse', 'rounding faults need particular raw/scale pairs and signs')
t('P05', 'Symbolic bit patterns through float and double fields.', 'bit equality', 'NaN payloads, denormals and packet borders are not in the tests')
t('P06', 'Strings with all bytes symbolic and every combination of listed lengths, all block sizes.', 'the strings written', 'needs a particular meeting of string length, prefix form and packet split')
t('P07', 'Eight fields of every kind; subset, order, block sizes and field order forked, values symbolic.', 'record k is record k in every field', 'the number of subset/order/chunk combinations')
t('P08', 'Symbolic bytes, sequences of operations on the paged file with lengths round page borders.', 'flat byte array', 'page-straddling combinations')
t('P09', 'As P08 and whole files; page checksums compared with the CRC function; the CRC code itself proved equal to a bitwise CRC-32C for messages to 2 bytes plus one inductive step from any state.', 'CRC-32C definition (reflected 0x82F63B78), big-endian at byte 1020', 'a wrong table entry shows only for some bytes; a page left without checksum only for some write orders')
t('P10', 'Pages and stored checksums symbolic, all percentages, ranges round page borders.', 'mismatch of stored and computed checksum over the pages touched', 'needs a corrupt page in a particular place of a particular read')
t('P11', 'The 48 header bytes are symbolic.', 'acceptance condition of the format', '2^384 headers')
t('P12', 'Packets, section headers, and claimed positions/lengths/counts symbolic; the reader is run to its end.', 'memory safety, termination within the step cap, exception type', 'hostile inputs')
t('P13', 'Symbolic start, count and bytes.', 'flat array and untouched neighbours (whole file compared)', 'overflowing ranges')
t('P14', 'The number of the failing system call, the kind of failure and the length of a short transfer are symbolic/forked over all calls of a session.', 'every call reported success implies the complete file', 'fault schedules')
t('P15', 'Stop at every system call with a torn last write; what is left is opened.', 'refused, or equal to the finished file', 'crash points')
t('P16', 'All operations on all pairs of nine nodes after prepared trees.', 'small reference model of the tree', 'histories')
t('P17', 'All byte strings up to a length.', 'independent grammar', 'input space')
t('P18', 'All texts up to a length, written and read back.', 'the same text', 'markup inside text in every position')
t('P19', 'Symbolic numbers with opaque printing, concrete digits for a range with real printing.', 'the same number', 'number space; locale')
t('P20', 'Pairs of elements of ten kinds with symbolic names, values, contents; closed and reopened.', 'the tree described by the harness', 'combinations of kinds')
t('P21', 'All call sequences up to a length.', 'reference counts and states', 'histories')
t('P22', 'Independent decoder of the binary layout over the bytes written for symbolic values.', 'the published layout', 'round trips in tests cannot see a layout fault made on both sides')
t('P23', 'Symbolic prefixes and URIs.', 'list of accepted declarations', 'coinciding names')
t('P24', 'Symbolic header fields and points through the simple writer and reader, all subsets of each group.', 'what was written', 'combinations of fields and types')
t('P25', 'Symbolic image headers, bytes and requests.', 'what was written', 'combinations of projection, type and mask')
t('P26', 'P11/P12 inputs read once from the memory file system and once from a memory buffer of exactly the file size.', 'same outcome, same data, no access outside the buffer', 'input space')
t('P27', 'The public consistency check is called after every step of symbolic histories (trees, transfers, values, extensions, buffers, reopened files).', 'no exception; state unchanged', 'redundant views disagree only for particular shapes, values and orders')
t('P28', 'Writes with one interface and reads with the other, both ways, through a table of the standard element names.', 'the table of names and the values given', 'round trips cannot see a fault made on both sides')
t('P29', 'All short lists of buffers over six names with symbolic capacities, counts and values; later sets that differ in one respect.', 'the documented conditions, evaluated on the list; records read back', 'tests pass only sets that fit')
o = open(V + '/design.head.md').read()
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)
    i = p['id']
    o += '### %s %s\n\n' % (i, p['title'])
    if i not in REG:
        o += '*not claimed*\n\n'
        continue
    r = REG[i]
    how, oracle, why = T[i]
    try:
        e = json.load(open(V + '/evidence/%s.json' % i))
        cost = '%s run: %.0f s, %d paths, %d queries, %d functions of the code encoded' % (e['tier'], e['wall_s'], e['coverage']['states'], e['coverage']['queries'], e['coverage']['function_count'])
    except Exception:
        cost = 'see evidence'
    o += '* **decided by**: %s\n* **oracle**: %s\n* **entries**: %s (`harness/%s.cpp`)\n* **bounds**: %s\n* **outside**: %s\n* **cost (last measured)**: %s\n* **beyond tests because**: %s\n' % (
        how, oracle, ', '.join('`%s`' % x for x in dict.fromkeys(j['entry'] for j in r['jobs'])), '`, `'.join(dict.fromkeys(j['file'] for j in r['jobs'])), r['bounds'], r['outside'], cost, why)
    if r.get('assumptions'):
        o += '* **assumptions**: %s\n' % '; '.join(r['assumptions'])
    o += '\n'
o += open(V + '/design.tail.md').read()
o += '\n| planted | property | what it breaks | needs |\n|---|---|---|---|\n'
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    j = json.load(open(m))
    o += '| %s | %s | %s | %s |\n' % (os.path.basename(os.path.dirname(m)), j['property'], j['what_it_breaks'], j['needs'])
open(V + '/DESIGN.md', 'w').write(o)
