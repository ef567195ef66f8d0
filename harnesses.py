"""The harnesses of each property, their bounds and required witnesses."""

FREE = "every string of 0-2 bytes"
FIXED = "a last fixed block with one literal, or with three literals and a reference of symbols 257 and 2, then %d free bits"
REF = "a last fixed block of 0 or %d literals and one reference: every length symbol 257-287, every distance symbol 0-31, all extra bits free"
SECOND = "a fixed block (empty or one literal) or a stored block, then %d free bits"
STORED = ("nothing, an empty fixed block or one of one literal, then a stored block of 0-%d bytes, last or followed by "
          "%d free bits; padding, complement and data free")
DYNAMIC = ("dynamic blocks with 4 pairs of tables (rich, no distance code, one distance code, 15-bit codes), as a last block with "
           "lengths one by one, or after a fixed block with run-length coded lengths; then %d free bits")
FULL = "a last dynamic block with 286 + 30 codes: two literals and a reference of each length symbol with distance symbols 0, 3, 4, 29, extra bits free"

ALIGN = ("a fixed block of 0-7 literals, so that the stored block after it starts at each place in a byte; it has 0 or 2 bytes and is last or "
         "followed by an empty stored block; padding and data free")
LENGTHS = ("a dynamic header of 4 pairs of counts whose lengths are zeroes and, from 10, 11 or 13 before the end, a one, two symbols that set, repeat or "
           "skip lengths with any extra bits, and two ones; then 3 free bits")
TRAIL = "; then two bytes, zero or all ones"
SHORT = "; every schedule of %d short (1-3 bytes) or interrupted reads"

RF = ["--real-format"]

PROPS = {
    "C01": {
        "harnesses": [
            {"fn": "h_c01_free", "covers": [1, 3], "bounds": FREE},
            {"fn": "h_c01_fixed", "covers": [0, 1, 3], "bounds": FIXED % 11},
            {"fn": "h_c01_ref", "covers": [0, 1, 3], "bounds": REF % 5},
            {"fn": "h_c01_second", "covers": [0, 1, 2, 3], "bounds": SECOND % 14},
            {"fn": "h_c01_align", "covers": [0, 1, 2, 3], "bounds": ALIGN},
            {"fn": "h_c01_stored", "covers": [0, 1, 2, 3], "bounds": STORED % (3, 10)},
            {"fn": "h_c01_dynamic", "covers": [0, 1, 4], "bounds": DYNAMIC % 11},
            {"fn": "h_c01_full", "covers": [0, 4], "bounds": FULL},
            {"fn": "h_c01_free3", "covers": [0, 1, 3], "bounds": "every string of 3 bytes", "tier": "thorough"},
            {"fn": "h_c01_dynamic_long", "covers": [0, 1, 4], "bounds": DYNAMIC % 14, "tier": "thorough"},
        ],
    },
    "C02": {
        "harnesses": [
            {"fn": "h_c02_free", "covers": [1, 3], "bounds": FREE},
            {"fn": "h_c02_fixed", "covers": [0, 1, 3], "bounds": FIXED % 11},
            {"fn": "h_c02_ref", "covers": [0, 1, 3], "bounds": REF % 5},
            {"fn": "h_c02_second", "covers": [0, 1, 2, 3], "bounds": SECOND % 14},
            {"fn": "h_c02_align", "covers": [0, 1, 2, 3], "bounds": ALIGN},
            {"fn": "h_c02_lengths", "covers": [0, 1, 4], "bounds": LENGTHS},
            {"fn": "h_c02_stored", "covers": [0, 1, 2, 3], "bounds": STORED % (3, 10)},
            {"fn": "h_c02_dynamic", "covers": [0, 1, 4], "bounds": DYNAMIC % 11},
            {"fn": "h_c02_full", "covers": [0, 1, 4], "bounds": FULL},
            {"fn": "h_c02_far", "covers": [0, 1, 2, 3], "bounds": "a stored block of 32767, 32768 or 40000 bytes, then references to 5 distances up to 32768 of 3 runs, one of distance 2 and one of distance 32768; the bytes referred to free"},
            {"fn": "h_c02_cut", "covers": [0, 1], "bounds": "four streams of 1-3 blocks of all kinds, 2 stored bytes free, cut after every byte"},
            {"fn": "h_c02_two_refs", "covers": [0, 1, 3], "tier": "thorough",
             "bounds": "7 literals, a reference of every length symbol and distance symbols 0-5, another of symbols 265 and 4, all extra bits free"},
            {"fn": "h_c02_free3", "covers": [0, 1, 3], "bounds": "every string of 3 bytes", "tier": "thorough"},
            {"fn": "h_c02_dynamic_long", "covers": [0, 1, 4], "bounds": DYNAMIC % 14, "tier": "thorough"},
        ],
    },
    "C03": {
        "harnesses": [
            {"fn": "h_c03_free", "covers": [1], "bounds": FREE},
            {"fn": "h_c03_fixed", "covers": [0, 1], "bounds": FIXED % 13},
            {"fn": "h_c03_ref", "covers": [0, 1, 2], "bounds": REF % 2},
            {"fn": "h_c03_second", "covers": [0, 1], "bounds": SECOND % 15},
            {"fn": "h_c03_align", "covers": [0, 1], "bounds": ALIGN},
            {"fn": "h_c03_lengths", "covers": [0, 1], "bounds": LENGTHS},
            {"fn": "h_c03_stored", "covers": [0, 1], "bounds": STORED % (2, 10)},
            {"fn": "h_c03_dynamic", "covers": [0, 1], "bounds": DYNAMIC % 12},
            {"fn": "h_c03_header", "covers": [1], "bounds": "a dynamic header: 5 pairs of literal and distance counts, 4, 5, 10 or 19 code length codes, two free ones at any place, the others zero, then 9 free bits"},
            {"fn": "h_c03_gzip", "covers": [0, 1], "bounds": "gzip headers: every string of 0-16 bytes (extra field of at most 15 bytes)"},
            {"fn": "h_c03_trace", "covers": [0, 1], "bounds": "trace bytes: every string of 0-5 bytes where counts of correct records are below 4"},
            {"fn": "h_c03_trace_counts", "covers": [0, 1], "bounds": "trace bytes: every first item (counts of correct records below 256 or above 32511), then 0-4 fixed bytes"},
            {"fn": "h_c03_free3", "covers": [0, 1], "bounds": "every string of 3 bytes", "tier": "thorough"},
            {"fn": "h_c03_header_long", "covers": [1], "tier": "thorough",
             "bounds": "a dynamic header: 5 pairs of counts, three free code length codes at any place, then 12 free bits"},
        ],
    },
    "C04": {
        "harnesses": [
            {"fn": "h_c04_free", "covers": [0, 1], "bounds": "every string of 2 bytes"},
            {"fn": "h_c04_fixed", "covers": [0, 1, 2], "bounds": FIXED % 11 + TRAIL},
            {"fn": "h_c04_second", "covers": [0, 1, 2], "bounds": SECOND % 10 + TRAIL},
            {"fn": "h_c04_align", "covers": [0, 2], "bounds": ALIGN + TRAIL},
            {"fn": "h_c04_stored", "covers": [0, 1, 2], "bounds": STORED % (3, 6) + TRAIL},
            {"fn": "h_c04_dynamic", "covers": [0, 1, 2], "bounds": DYNAMIC % 9 + TRAIL},
            {"fn": "h_c04_short_stored", "covers": [0, 1, 2], "bounds": STORED % (3, 3) + TRAIL + SHORT % 2},
            {"fn": "h_c04_short_fixed", "covers": [0, 1], "bounds": FIXED % 4 + SHORT % 2},
            {"fn": "h_c04_short_dynamic", "covers": [0, 1], "bounds": "a dynamic block without distance codes, then 3 free bits" + SHORT % 1},
            {"fn": "h_c04_short_more", "covers": [0, 1, 2], "bounds": STORED % (4, 3) + TRAIL + SHORT % 3, "tier": "thorough"},
        ],
    },
    "C05": {
        "harnesses": [
            {"fn": "h_c05_any", "covers": [0, 1], "bounds": "every string of 0-12 bytes (extra field below 4 bytes)"},
            {"fn": "h_c05_fields", "covers": [0, 1],
             "bounds": "every set of the five flags, extra fields of 0-2 bytes, then 0-7 more bytes, every content"},
            {"fn": "h_c05_extra", "covers": [0, 1],
             "bounds": "extra fields of 16 lengths from 0 to 65535, complete or a byte short, first and last byte free, with 4 sets of other flags"},
            {"fn": "h_c05_long", "covers": [0], "bounds": "names and comments of 11 lengths from 30 to 5000, their last two bytes free"},
            {"fn": "h_c05_short", "covers": [0], "bounds": "4 headers" + SHORT % 2},
        ],
    },
    "C06": {
        "harnesses": [
            {"fn": "h_c06_small", "covers": [0, 1, 2],
             "bounds": "capacities 1-3, every sequence of 4 operations: push, extend by 2 or 5, copy of length 0, 1 or 3 with every distance up to one past the capacity; all bytes"},
            {"fn": "h_c06_medium", "covers": [0, 1, 2], "bounds": "capacities 5-8, every sequence of 3 such operations"},
            {"fn": "h_c06_large", "covers": [0, 1, 2],
             "bounds": "9 capacities from 255 to 65535 filled to 4 points around the capacity, a push, a copy of 3 lengths at 5 distances around the ends, a push; pushed bytes free"},
            {"fn": "h_c06_default", "covers": [0], "bounds": "the default capacity after 6 fills; pushed byte free"},
            {"fn": "h_c06_small_long", "covers": [0, 1, 2], "tier": "thorough", "bounds": "capacities 1-5, every sequence of 5 operations"},
        ],
    },
    "C07": {
        "harnesses": [
            {"fn": "h_c07_list", "covers": [0, 1],
             "bounds": "capacities 2, 3, 4, 8, 9; history of 0-3 bytes; any literal or a reference of distance 1-9 and run 3, 4 or 7, then a reference of distance 1-9 and run 3 or 5, then a literal; all bytes"},
            {"fn": "h_c07_splits", "covers": [0, 1], "bounds": "history of 0-2 bytes; three codes, each any literal or a reference of distance 1-5 (first: 1-3) and run 3, 4 or 7, in every split over calls, capacity 32768"},
            {"fn": "h_c07_runs", "covers": [0, 1], "bounds": "every run 3-258 at distances 1-4, history of 1-3 bytes, capacities 5 and 300"},
            {"fn": "h_c07_far", "covers": [0, 1], "bounds": "9 histories around 32768 and 65536 bytes, 8 distances up to 32768, runs 3 and 258; first and last byte free"},
            {"fn": "h_c07_stored", "covers": [0], "bounds": "stored blocks of 0-3 bytes, capacities 1, 2, 300, all bytes"},
            {"fn": "h_c07_writer", "covers": [0], "bounds": "four codes; every schedule of two short or interrupted writes"},
            {"fn": "h_c07_list_long", "covers": [0, 1], "tier": "thorough", "bounds": "capacities 1-9, history of 0-5 bytes, three codes, each any literal or a reference of distance 1-12 (first: 1-9), then a literal"},
        ],
    },
    "C08": {
        "harnesses": [
            {"fn": "h_c08_encode_run", "covers": [0], "bounds": "every run 3-258 at distances 1 and 32768, encoded in a fixed block and parsed back"},
            {"fn": "h_c08_encode_dist", "covers": [0], "bounds": "every distance 1-32768 with runs 3 and 258, encoded in a fixed block and parsed back"},
            {"fn": "h_c08_encode_both", "covers": [0], "bounds": "every run 3-258 with every distance 1-32768"},
            {"fn": "h_c08_decode", "covers": [0], "bounds": "every pair of length and distance symbols with all extra bits, in a fixed block"},
            {"fn": "h_c08_decode_dynamic", "covers": [0], "bounds": "every length and every distance symbol with all extra bits, in a dynamic block"},
            {"fn": "h_c08_reserved", "covers": [0], "bounds": "the four reserved symbols, then 5 free bits"},
        ],
    },
    "C09": {
        "cfg": ["rezip_verif", "rezip_verif_tree"],
        "harnesses": [
            {"fn": "h_c09_short", "covers": [0, 1], "bounds": "every list of 0-4 lengths of 0-15"},
            {"fn": "h_c09_six", "covers": [0, 1], "bounds": "every list of 5 or 6 lengths of 0-5"},
            {"fn": "h_c09_eight", "covers": [0, 1], "bounds": "every list of 8 lengths of 0-3"},
            {"fn": "h_c09_deep", "covers": [0, 1], "bounds": "combs of depth 15 in either order with two lengths replaced by any"},
            {"fn": "h_c09_large", "covers": [0, 1], "bounds": "4 codes of up to 288 symbols with one of 5 lengths replaced by any"},
            {"fn": "h_c09_five", "covers": [0, 1], "tier": "thorough", "bounds": "every list of 5 lengths of 0-15"},
            {"fn": "h_c09_ten", "covers": [0, 1], "tier": "thorough", "bounds": "every list of 10 lengths of 0-3"},
        ],
    },
    "C10": {
        "harnesses": [
            {"fn": "h_c10_counts", "covers": [0], "bounds": "every pair of counts (257-286, 1-32), no, one or two distance codes, lengths plain or run-length coded"},
            {"fn": "h_c10_cross", "covers": [0, 1], "bounds": "counts 257-259 and 1-6; from the last literal length on, 11 free bits of a code with both repeats"},
            {"fn": "h_c10_overrun", "covers": [0, 1], "bounds": "1-14 distance lengths, one set, then each kind of repeat with every count, then 4 free bits"},
            {"fn": "h_c10_first", "covers": [1], "bounds": "10 free bits at the start of the lengths"},
            {"fn": "h_c10_cl", "covers": [1], "bounds": "every number of code length codes, those of symbols 1 and 18 and any other one free below 3, then 4 free bits"},
            {"fn": "h_c10_cl_full", "covers": [0], "bounds": "tables using every length 1-15, plain and run-length coded"},
            {"fn": "h_c10_dist", "covers": [0, 1], "bounds": "distance tables of 1-32 lengths with up to 5 of them (at either end) free among 0, 1, 2 and zero runs"},
            {"fn": "h_c10_cross_long", "covers": [0, 1], "tier": "thorough", "bounds": "as h_c10_cross with counts 257-260 and 1-10, and 18 free bits"},
        ],
    },
    "C11": {
        "harnesses": [
            {"fn": "h_c11_fields", "covers": [0],
             "bounds": "0-7 leading bits, then two fields of every width 0-16 (the second as field or bit by bit), all values"},
            {"fn": "h_c11_bits", "covers": [0], "bounds": "0-40 single bits, all values"},
            {"fn": "h_c11_vec", "covers": [0, 1, 2],
             "bounds": "0, 7, 8, 9 or 16 pushed bits, then every sequence of 4 operations (push, pop, pop_byte), all bit values"},
            {"fn": "h_c11_slice", "covers": [0], "bounds": "slices of 0-4 bytes, all values"},
            {"fn": "h_c11_prefixed", "covers": [0], "bounds": "0-7 leading bits, 0-4 data bytes, all values"},
            {"fn": "h_c11_vec_long", "covers": [0, 1, 2], "tier": "thorough",
             "bounds": "0-17 pushed bits, then every sequence of 6 operations, all bit values"},
        ],
    },
    "C12": {
        "harnesses": [
            {"fn": "h_c12_free", "covers": [0, 1, 2], "bounds": "0-2 bytes of history, every code list for 0-5 bytes, all literals and history; levels 1, 4 and the zopfli-like one"},
            {"fn": "h_c12_levels", "covers": [0, 1, 2], "bounds": "0-1 bytes of history, every code list for 5 bytes; all 10 techniques, search limits 1 and 5"},
            {"fn": "h_c12_pieces", "covers": [0, 1, 2], "bounds": "6 literals, then 2 codes: any literal or one of 6 references; 0 or 3 bytes of history; 3 techniques"},
            {"fn": "h_c12_try", "covers": [0], "bounds": "try_gzip at levels 1-9: 5 literals, then 2 such codes"},
            {"fn": "h_c12_history", "covers": [1, 2], "bounds": "4 histories of 32767-40000 bytes, references to 5 distances of 3 runs, then literals that a guess would replace; 3 techniques"},
            {"fn": "h_c12_three", "covers": [0, 1, 2], "bounds": "matches of three and of up to 4 and 6 one and two bytes on; the original has 0-3 literals, one of them free, a copy from one of three places, then literals; the zopfli-like technique"},
            {"fn": "h_c12_same", "covers": [0, 2], "bounds": "600 bytes of history of period 1 or 2, references of 5 runs up to 258 at 4 distances, a free literal; six techniques"},
            {"fn": "h_c12_past", "covers": [0, 1, 2], "bounds": "65260 or 65530 bytes of history, a literal, a reference of 258 or 40 bytes, 5 literals, a reference to one of 2 distances and a literal of 2 values; 4 techniques"},
            {"fn": "h_c12_pieces_long", "covers": [0, 1, 2], "tier": "thorough", "bounds": "5 literals, then 3 such codes; level 1"},
            {"fn": "h_c12_free_long", "covers": [0, 1, 2], "tier": "thorough", "bounds": "0-2 bytes of history, every code list for 6 bytes; 3 techniques"},
        ],
    },
    "C13": {
        "harnesses": [
            {"fn": "h_c13_free", "covers": [0, 1], "bounds": "0-2 bytes of history, 6 bytes in all, every value and position; levels 1, 9 and the zopfli-like one"},
            {"fn": "h_c13_walk", "covers": [0], "bounds": "0-1 bytes of history, 7 bytes in all, every value, all 10 techniques, following the guesses"},
            {"fn": "h_c13_tail", "covers": [0, 1], "bounds": "4 equal bytes, then 4 free ones; limits 1, 4, none"},
            {"fn": "h_c13_three", "covers": [0, 1, 2, 3], "bounds": "a match of three with matches of 0-5 and 0-6 one and two bytes on, a free byte after each, 3-8 bytes left"},
            {"fn": "h_c13_long", "covers": [0, 1, 3, 4], "bounds": "periods 1-4 for 256-266 bytes, the last one free"},
            {"fn": "h_c13_edge", "covers": [0, 1, 3, 4], "bounds": "matches of 9 lengths from 1 to 262 at a distance beyond, a free byte after, 0-3 more"},
            {"fn": "h_c13_overlap", "covers": [0, 1, 3, 4], "bounds": "9 distances from 1 to 259, 9 runs around each, two of four ends"},
            {"fn": "h_c13_far", "covers": [5], "bounds": "candidates at distances 32764-32771, three splits, two free bytes after"},
            {"fn": "h_c13_free_long", "covers": [0, 1], "tier": "thorough", "bounds": "0-2 bytes of history, 8 bytes in all, every value and position"},
        ],
    },
    "C14": {
        "harnesses": [
            {"fn": "h_c14_any", "covers": [0], "bounds": "0-7 records of every kind, every distance and run"},
            {"fn": "h_c14_items", "covers": [0], "bounds": "the layout of each kind of record, every distance and run"},
            {"fn": "h_c14_counts", "covers": [0], "bounds": "27 counts of correct records from 1 to 262144, alone or with any record before and after"},
            {"fn": "h_c14_runs", "covers": [0], "bounds": "two runs of 0-39 correct records with any record between"},
            {"fn": "h_c14_any_long", "covers": [0], "tier": "thorough", "bounds": "0-10 records of every kind, every distance and run"},
        ],
    },
    "C15": {
        "harnesses": [
            {"fn": "h_c15_any", "covers": [0, 1], "bounds": "every string of 0-9 bytes whose counts of correct records are below 4"},
            {"fn": "h_c15_counts", "covers": [0, 1], "bounds": "96 first counts from 32768 to 65535, then every string of 0-2 bytes"},
            {"fn": "h_c15_reader", "covers": [0, 1, 2], "bounds": "every string of 0-6 bytes, a failure at any byte or none" + SHORT % 2},
            {"fn": "h_c15_any_long", "covers": [0, 1], "tier": "thorough", "bounds": "every string of 0-12 bytes whose counts are below 3"},
        ],
    },
    "C16": {
        "harnesses": [
            {"fn": "h_c16_read", "covers": [0, 1], "bounds": "0-5 bytes of any value, three reads of 0-3 bytes" + SHORT % 2},
            {"fn": "h_c16_read_fail", "covers": [0, 1, 2], "bounds": "0-4 bytes of any value, a failure at any of them, three reads" + SHORT % 1},
            {"fn": "h_c16_read_blocks", "covers": [0], "bounds": "8 sizes of 111-300 bytes of any value, reads of 6 sizes around the SHA-512 block"},
            {"fn": "h_c16_read_all", "covers": [0], "bounds": "40 bytes of any value through read_exact and read_to_end" + SHORT % 3},
            {"fn": "h_c16_write", "covers": [0, 1, 3], "bounds": "0-5 bytes of any value, three writes of 0-3 bytes" + SHORT % 2},
            {"fn": "h_c16_write_fail", "covers": [0, 1, 2, 3], "bounds": "1-4 bytes of any value, a writer that is full after any number of them (an error or a count of zero)" + SHORT % 1},
            {"fn": "h_c16_write_blocks", "covers": [0, 2], "bounds": "8 sizes of 111-300 bytes of any value, writes of 6 sizes around the SHA-512 block, room for all or 128 or 130"},
            {"fn": "h_c16_write_all", "covers": [0], "bounds": "40 bytes of any value through write_all" + SHORT % 3},
            {"fn": "h_c16_into_inner", "covers": [0], "bounds": "6 bytes of any value, 0-3 of them passed"},
        ],
    },
    "C17": {
        "harnesses": [
            {"fn": "h_c17_small", "covers": [0], "bounds": "four header shapes with free fields, stored input blocks of 0-4 free bytes in all"},
            {"fn": "h_c17_kinds", "covers": [0], "bounds": "four header shapes with free fields; four streams of 1-3 blocks of all kinds, 0-3 stored bytes free"},
            {"fn": "h_c17_cut", "covers": [0, 1], "bounds": "contents of 8190-8195 bytes, the last 2-7 free, three sums before them"},
            {"fn": "h_c17_max", "covers": [0, 1], "bounds": "contents around 65535 and 131070 bytes that never reach a cutting point, the last two free"},
        ],
    },
    "C18": {
        "harnesses": [
            {"fn": "h_c18_header", "covers": [0, 1], "bounds": "four header shapes with free fields; the reader fails or ends at every byte, with one short or interrupted read"},
            {"fn": "h_c18_parse", "covers": [0, 1, 2], "bounds": "four streams of 1-3 blocks of all kinds, 0-2 stored bytes free; the reader fails or ends at every byte, with one short or interrupted read"},
            {"fn": "h_c18_decompress", "covers": [0, 1], "bounds": "the same streams, 4 free bytes; the writer fails, or takes nothing, after every number of bytes, with one short or interrupted write"},
            {"fn": "h_c18_copy", "covers": [0, 1], "bounds": "5 free literals and a reference of run 3, 4, 10 or 258 and distance 1, 2 or 5; the writer fails at every byte"},
            {"fn": "h_c18_compress", "covers": [0, 1], "bounds": "the same streams, 3 free bytes; the writer fails, or takes nothing, after every number of bytes, with one short or interrupted write"},
            {"fn": "h_c18_trace", "covers": [1], "bounds": "traces of 1-3 items of all kinds, distances and runs free; the reader fails at every byte, with two short or interrupted reads"},
            {"fn": "h_c18_commands_read", "covers": [0, 1, 2], "bounds": "cat, dump and zero on the same streams; the reader fails or ends at every byte"},
            {"fn": "h_c18_commands_write", "covers": [0, 1], "bounds": "cat, dump and zero on the same streams, three contents; standard output fails after every number of bytes"},
        ],
    },
    "C19": {
        "harnesses": [
            {"fn": "h_c19_stored", "covers": [0], "bounds": "stored blocks of 0-5 free bytes at every bit offset, last or followed by another block"},
            {"fn": "h_c19_stored_long", "covers": [0, 1], "bounds": "stored blocks of 255-257, 32768, 65534-65537 and 131072 bytes, first and last byte free"},
            {"fn": "h_c19_literals", "covers": [0], "bounds": "fixed and dynamic blocks, each of the 256 literals"},
            {"fn": "h_c19_codes", "covers": [0], "bounds": "fixed and dynamic blocks of 0-2 codes out of 5 at every bit offset, last or followed by another block"},
            {"fn": "h_c19_ref", "covers": [0], "bounds": "fixed and dynamic blocks: a reference of any run at distance 1 or 3000, or of any distance with run 3 or 115"},
            {"fn": "h_c19_lacking", "covers": [0, 1], "bounds": "4 pairs of tables (rich, no distance code, one distance code, 15-bit codes): each literal, each run, both ends of each distance symbol"},
            {"fn": "h_c19_no_header", "covers": [1], "bounds": "headers of 0-13 free bits, and one without an end-of-block code"},
            {"fn": "h_c19_sink", "covers": [0, 1], "bounds": "stored and dynamic blocks of 1-5 codes into a writer failing after every number of bytes, with one short or interrupted write"},
        ],
    },
    "C20": {
        "harnesses": [
            {"fn": "h_c20_free", "covers": [2], "bounds": "plain gzip header, then " + FREE},
            {"fn": "h_c20_headers", "covers": [0], "bounds": "four header shapes with free fields, then one of two fixed blocks, then 8 free bytes"},
            {"fn": "h_c20_fixed", "covers": [0, 2], "bounds": FIXED % 11},
            {"fn": "h_c20_ref", "covers": [0, 2], "bounds": REF % 5},
            {"fn": "h_c20_stored", "covers": [0, 1, 2], "bounds": STORED % (3, 10)},
            {"fn": "h_c20_dynamic", "covers": [0, 2], "bounds": DYNAMIC % 11},
            {"fn": "h_c20_full", "covers": [0, 2], "bounds": FULL},
            {"fn": "h_c20_across", "covers": [0, 2], "bounds": "a stored block of 0-4 free bytes, then two fixed blocks with references of distance symbols 0-7 that reach back across them"},
            {"fn": "h_c20_far", "covers": [0, 2], "bounds": "a stored block of 32767, 32768 or 40000 bytes, then a reference of distance 1, 10, 32767 or 32768 and length 3-258, bytes it copies free"},
        ],
    },
    "C21": {
        "harnesses": [
            {"fn": "h_c21_free", "covers": [0, 1], "bounds": "0-2 bytes of history, 7 bytes in all, every value, unlimited"},
            {"fn": "h_c21_short", "covers": [1], "bounds": "0-4 bytes in all, every split and value"},
            {"fn": "h_c21_limit", "covers": [0, 1], "bounds": "limits 1-3, 8 bytes below 32 (no hash collisions) of any value: exactly the nearest"},
            {"fn": "h_c21_limit_hash", "covers": [0, 1], "bounds": "limits 1-2, 7 bytes of any value: a prefix of the unlimited list"},
            {"fn": "h_c21_skips", "covers": [0, 1], "bounds": "8 bytes below 32, one skipped reference of run 3-5 at any place, limits 1, 2, none"},
            {"fn": "h_c21_skips_two", "covers": [0, 1], "bounds": "7 bytes below 32, two skipped references of run 3-5 at any places"},
            {"fn": "h_c21_pick", "covers": [0], "bounds": "1-3 earlier copies of 3-9 bytes of a word, each followed by a free byte; levels 1 and 4"},
            {"fn": "h_c21_chain", "covers": [0, 3], "bounds": "7 earlier copies, one longer than the others, a free byte after each; levels 1 and 2"},
            {"fn": "h_c21_pick_levels", "covers": [0], "bounds": "three earlier copies of 3-5, 3-11 and 3 bytes; levels 1-9 and the zopfli-like one"},
            {"fn": "h_c21_pick_skip", "covers": [0, 2], "bounds": "a reference of run 3-8 at each of 5 places declared before the search; 5 levels"},
            {"fn": "h_c21_far", "covers": [0, 1], "bounds": "a candidate at distance 32767-32770, three splits into history and data, next byte free"},
            {"fn": "h_c21_far_three", "covers": [0, 1], "bounds": "a candidate at distance 4095-4097 followed by a free byte; 5 levels"},
            {"fn": "h_c21_spread", "covers": [0], "bounds": "four places with the same three bytes (3 kinds) and one of two bytes after each, 7 sets of distances with up to 66000 bytes of data, skipped references in four of them, two splits"},
            {"fn": "h_c21_free_long", "covers": [0, 1], "tier": "thorough", "bounds": "0-2 bytes of history, 9 bytes in all, every value, unlimited"},
        ],
    },
    "C22": {
        "harnesses": [
            {"fn": "h_c22_free", "covers": [1], "args": RF, "bounds": "every string of 2 bytes after a plain gzip header"},
            {"fn": "h_c22_fixed", "covers": [0, 1], "args": RF, "bounds": FIXED % 11},
            {"fn": "h_c22_ref", "covers": [0, 1], "args": RF, "bounds": REF % 1},
            {"fn": "h_c22_literal", "covers": [0], "args": RF, "bounds": "a fixed block of one literal, each of the 256"},
            {"fn": "h_c22_dynamic", "covers": [0, 1, 4], "args": RF, "bounds": DYNAMIC % 7},
            {"fn": "h_c22_blocks", "covers": [0, 1, 4], "args": RF, "bounds": "two or three blocks, every kind in every order (stored of 0-100 free bytes), whole or cut off at any byte"},
        ],
    },
    "C23": {
        "harnesses": [
            {"fn": "h_c23_fixed", "covers": [0, 2], "bounds": FIXED % 10 + "; three techniques"},
            {"fn": "h_c23_second", "covers": [0, 1, 2], "bounds": SECOND % 12 + "; three techniques"},
            {"fn": "h_c23_align", "covers": [0, 1], "bounds": ALIGN},
            {"fn": "h_c23_stored", "covers": [0, 1], "bounds": STORED % (3, 10)},
            {"fn": "h_c23_dynamic", "covers": [0, 1, 2], "bounds": DYNAMIC % 9 + "; three techniques"},
            {"fn": "h_c23_across", "covers": [0, 1, 2, 3, 4], "bounds": "a stored block of 0-2 bytes and a free one, a fixed block of 0, 3 or 6 literals (one of 3 values), maybe with a reference, then a fixed block of up to 3 literals and a reference of 2 lengths and 5 distance symbols, extra bits free; three techniques"},
            {"fn": "h_c23_far", "covers": [0, 1, 4], "bounds": "a stored block of 32767, 32768 or 40000 bytes, then references to 5 distances up to 32768 of 3 runs, one of distance 2 and one of distance 32768; three techniques"},
            {"fn": "h_c23_same", "covers": [0, 1], "bounds": "600 or 601 bytes of period 1 or 2, references of 5 runs up to 258 at 4 distances; three techniques"},
            {"fn": "h_c23_long", "covers": [0], "bounds": "two literals and a reference of length symbol 283-285, all extra bits; three techniques"},
            {"fn": "h_c23_dynamic_long", "covers": [0, 1, 2], "tier": "thorough", "bounds": DYNAMIC % 12 + "; three techniques"},
        ],
    },
    "C24": {
        "harnesses": [
            {"fn": "h_c24_window", "covers": [0, 1, 2], "bounds": "contents of 8193-8196 bytes, those entering the rolling sum (1-3) and the first two, which leave it, free; three sums of the rest"},
            {"fn": "h_c24_again", "covers": [0, 1, 2], "bounds": "contents of 16385-16387 bytes cut at 8192 or 8193, the first two bytes of the second block and the last 1-3 free, two sums of the rest"},
            {"fn": "h_c24_longest", "covers": [0, 1, 2], "bounds": "contents of 65534-65536 or 73729 bytes that reach no cutting point before 65531, three bytes from there on free"},
        ],
    },
}
NOT_APPLICABLE = {}
