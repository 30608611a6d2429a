import checks_tok as t
import checks_bind as b
import checks_ser as s
import checks_scal as c
import checks_map as m
import checks_diff as d
import checks_calls as k
import checks_err as e
CHECKS = {'C01': t.c01, 'C02': t.c02, 'C03': t.c03, 'C04': t.c04, 'C22': t.c22, 'C05': b.c05, 'C06': b.c06,
          'C09': b.c09, 'C10': b.c10, 'C18': b.c18, 'C19': b.c19, 'C20': b.c20, 'C07': s.c07, 'C08': s.c08, 'C11': c.c11, 'C12': c.c12, 'C13': c.c13, 'C14': m.c14, 'C15': m.c15, 'C16': d.c16, 'C17': k.c17, 'C21': e.c21}
TOKNOTE = ('Tok.tla is checked with TLC against an independent grammar on all inputs up to a bound; its control table, exported by TLC, judges the real tokenizer on millions of '
           'exhaustive and random inputs; a sample of executions is validated by TLC step by step. Trusted: TLC, the 60-line table interpreter, the compilers. NUL bytes are outside the model.')
NOTES = {
 'C01': ('TLA+ transducer model; table-driven conformance over segmentations, TLC trace validation', TOKNOTE),
 'C02': ('TLA+ transducer checked against a TLA+ grammar; table-driven conformance, TLC trace validation', TOKNOTE),
 'C03': ('TLA+ transducer checked against a TLA+ grammar; table-driven conformance, TLC trace validation', TOKNOTE),
 'C04': ('TLA+ transducer checked against a TLA+ grammar; table-driven conformance, TLC trace validation', TOKNOTE),
 'C22': ('same TLA+ conformance executions in every build configuration, compared pairwise; TLC trace validation', TOKNOTE + ' NEON code cannot run here.'),
}
BINDNOTE = ('Bind.tla says, for a table of type descriptions, what parsing a token stream into a C++ value and writing it out means. C++ types are generated from the same table; random histories of '
            'documents are executed on real objects, in an optimised and an ASan/UBSan build, and every recorded history is decided by TLC. Tokens in the records come from the exported Tok control table '
            '(re-derived by TLC for one record in 40). Trusted: TLC, the value dumper in the harness. Random rather than exhaustive over documents and types.')
for _c, _t in (('C05', 'TLA+ scope model checked by TLC; TLC trace validation of scope histories and of typed parsing that skips members'), ('C06', 'TLA+ model of buffer ownership; TLC trace validation of release events and captured text'),
               ('C09', 'TLA+ binding model; TLC trace validation of parse histories'), ('C10', 'TLA+ binding and layout model; TLC trace validation of write/read-back histories'), ('C18', 'TLA+ binding model; TLC trace validation of parse histories over container types'),
               ('C19', 'TLA+ binding model; TLC trace validation of parse and write histories over enum types'), ('C20', 'TLA+ binding model; TLC trace validation of histories over optional and nullable types')):
    NOTES[_c] = (_t, BINDNOTE)
SERNOTE = ('Layout.tla models the serializer as a state machine over tokens; TLC shows for all token sequences up to a bound that the tokenizer model reads back what it writes, with the stated layout. Every write call of recorded '
           'executions (random documents, styles, output buffer sizes from 1 byte, buffers that run out) is decided by TLC. Trusted: TLC, the table interpreter for tokens of long texts (re-derived by TLC for one record in 40).')
NOTES['C07'] = ('TLA+ model of the serializer, model-checked against the tokenizer model; TLC trace validation of write calls', SERNOTE)
NOTES['C08'] = ('TLA+ model of the serializer, model-checked against the tokenizer model; TLC trace validation of reformat runs', SERNOTE)
NOTES['C11'] = ('TLA+ model of string escaping, model-checked; TLC trace validation of parsed and written strings', 'StrMC checks Str.tla on every code point and all short strings. Every \\\\uXXXX, surrogate pairs, every special byte at every block position, and random strings, in scalar, SSE2, AVX2 and sanitizer builds; every result is decided by TLC.')
NOTES['C12'] = ('TLA+ model of decimal numbers, model-checked against a naive reading; TLC trace validation of conversions', 'NumMC checks Num.tla on all short spellings. Boundary values of all widths up to 128 bits in many spellings, malformed spellings, random numbers; 13 integer types each; every result is decided by TLC.')
NOTES['C13'] = ('TLA+ model of binary floating point formats with exact arithmetic, model-checked on a toy format; TLC validation of conversions', 'Flt.tla decides with big numbers whether a decimal rounds to a value and is a shortest one. Powers of two and ten, edges of the formats, middles between neighbours, random values; swept values are preselected by comparison with the C++ library, all differing ones and a sample are decided by TLC. Thorough: every float is swept.')
NOTES['C14'] = ('TLA+ model of a map as the members of a document, model-checked; TLC trace validation of histories', 'MapMC checks that a map updated step by step is the one built at once, for all histories up to a bound. Random histories of parse, set by name (20 types), set all, convert, look up, iterate, copy, move and write; after every step TLC decides tokens, metadata and iteration. Trusted: TLC, Bind.tla for the converted values.')
NOTES['C15'] = ('TLA+ model of container metadata, model-checked against a recursive definition; TLC validation of computed metadata', 'MetaMC checks the incremental computation on all token lists up to a bound. All bracket arrangements of up to 8 tokens (thorough 10) and random documents; every entry is decided by TLC.')
NOTES['C16'] = ('TLA+ definition of the difference of two documents, model-checked against equality of values; TLC trace validation of diff histories', 'DiffMC checks on all pairs of small documents that the marks are empty exactly for equal values and mirror each other. All pairs of 30 small documents and random histories of comparing, changing the base and the options; TLC decides every mark, count and missing token. Left open: numbers whose distance is about the tolerance.')
NOTES['C17'] = ('TLA+ model of executing a call document, model-checked; TLC trace validation of executions on real classes', 'CallsMC checks the rules (one entry and at most one call per member, name before alias, balanced results, independence of failing members) for all documents of up to 2 members (thorough 3) over a small class hierarchy. Random documents over 6 class hierarchies with 60 functions of all signatures; TLC decides calls, arguments, results, records and return values. Left open: what happens behind an argument the tokenizer rejects.')
NOTES['C21'] = ('TLA+ definition of what a report quotes and marks, model-checked; TLC validation of recorded reports', 'ErrMC checks on all short texts and settings that the reference report satisfies the rules the real reports are held to. Random valid and broken documents over settings, buffer cuts and token lists, in an optimised and a sanitizer build; TLC decides every report. Left open: the exact width of the quoted context.')
NA = {}
