"""Which harnesses decide which property, with their bounds and limits."""

PROPERTIES = {}


def h(entry, bound, jobs=1, tier=0, time=600, params=(), raw=False, query_ms=60000):
    return dict(entry=entry, bound=bound, jobs=jobs, tier=tier, time=time, params=list(params), raw=raw, query_ms=query_ms, confirm=False)


def confirm(entry, params=(1,), jobs=4, time=45):
    """Repeat a harness, usually on one item, with every condition left to Z3."""
    return dict(h(entry, "confirmation without rewriting, one item", jobs, 0, time, params, True), confirm=True)


def prop(id, harnesses, outside, assumptions=()):
    PROPERTIES[id] = dict(harnesses=harnesses, outside=outside, assumptions=list(assumptions))


prop("C01", [
    h("h_c01_queries", "every 188-byte packet", raw=True),
    h("h_c01_setters", "every 188-byte packet, every identifier < 8192, every counter < 16", raw=True),
], outside="slices shorter than a packet")

prop("C02", [
    h("h_c02_offset", "every 188-byte packet", raw=True),
], outside="slices shorter than a packet")

prop("C03", [
    h("h_c03_write", "every clock value below 2^33*300, every 188-byte packet"),
    h("h_c03_read", "every 188-byte packet", raw=True),
], outside="slices shorter than a packet; clock values outside the clock range")

prop("C04", [
    h("h_c04_delta", "every pair of clock values"),
    h("h_c04_stc", "every last value and every interval up to 1 s; byte counts from a list of 4 x 6 pairs (6 x 7 thorough)"),
    h("h_c04_stc_total", "every last value, every interval in the clock range, byte counts below 2^22"),
    h("h_c04_jitter", "every expected value, every distance up to 1 s either way", query_ms=240000),
    h("h_c04_total", "every pair of clock values; bitrate: every interval, byte counts up to 2^40"),
], outside="exact extrapolation for other byte counts and longer intervals; jitter of more than one second (only bounded)")

prop("C05", [
    h("h_c05_packet", "every 188-byte packet, from 3 small states with any contents (4 thorough)", jobs=8),
    h("h_c05_step", "one packet (payload offsets 4, 5, 95, 187; pointer fields at the limits) from states holding up to 4282 bytes with section sizes 8, 183, 184, 1024, 4095, 4098, any contents", raw=True),
    h("h_c05_history", "3 packets from a fresh reassembler (4 thorough): payload offsets 4, 100, 187, pointer fields 0 and 40 (0, 1, 40 thorough), short and long sections, any other contents", jobs=4),
], outside="longer histories are covered by the single step from an arbitrary consistent state, for the listed sizes; slices shorter than a packet")

prop("C06", [
    h("h_c06_roundtrip", "every section of 8..1024 bytes, any contents, identifier and counter; 6 prior states for sizes below 400 and every 64th, else a fresh reassembler", jobs=8),
    h("h_c06_roundtrip", "sections of 8..16 bytes, decided without simplification", params=(8, 16), raw=True),
    h("h_c06_roundtrip", "every section of 4090..4098 bytes", params=(4090, 4098), jobs=4),
    h("h_c06_roundtrip", "every section of 2044..2052 bytes", params=(2044, 2052), jobs=2),
    h("h_c06_roundtrip", "sections of 184 * k - 2..184 * k + 2 bytes, k = 6..22", params=(6, 0), jobs=4),
    h("h_c06_roundtrip", "every section of 1025..4089 bytes", params=(1025, 4089), jobs=32, tier=1),
], outside="other sections of 1025..4089 bytes (quick); other prior states")

prop("C07", [
    h("h_c07_packets", "every section of 8..1024 bytes, any contents, identifier and counter, 4 lengths of existing output; followed by a 20-byte section", jobs=2),
    h("h_c07_fresh", "sections newly made for a table, header of 3..12 bytes, any table and version"),
    h("h_c07_packets", "sections of 176..200 bytes, decided without simplification", params=(176, 200), raw=True),
    h("h_c07_packets", "every section of 4070..4098 bytes", params=(4070, 4098)),
    h("h_c07_packets", "every section of 2044..2052 bytes", params=(2044, 2052)),
    h("h_c07_packets", "sections of 184 * k - 2..184 * k + 2 bytes, k = 6..22", params=(6, 0)),
    h("h_c07_packets", "every section of 1025..4069 bytes", params=(1025, 4069), jobs=8, tier=1),
], outside="other sections of 1025..4069 bytes (quick)")

prop("C08", [
    h("h_c08_pieces", "sections of 8..11 bytes (13 thorough), any contents, every cut into pieces; packets without payload between, stuffing at the end, 6 prior states; adaptation fields with any contents", jobs=4),
    h("h_c08_large", "sections of 160, 200, 366, 367 bytes (also 368, 551 thorough) in two or three pieces, every fifth cut position (every one thorough)"),
], outside="cuts of longer sections into more pieces")

prop("C09", [
    h("h_c09_shared", "two sections of 9..11 bytes (14 thorough) and a third of 10, any contents, every cut of each; 6 prior states", jobs=4),
    h("h_c09_large", "sections of 200, 367, 368 (1024 thorough) bytes followed by 400, 183, 551 bytes in full packets"),
], outside="several sections completed within one packet (the interface holds one); other sizes")

prop("C10", [
    h("h_c10_gap", "section of 12..13 bytes (16 thorough) in four packets, every cut, each of the first three lost, every counter jump; next section alone or behind the tail; 6 prior states", jobs=2),
    h("h_c10_long", "a section in 22 packets, one of the first four lost; next section behind the tail"),
    h("h_c10_restart", "a section of up to 583 bytes given up after its first or second packet, seven lengths of the first; then sections of 12, 60, 183, 184, 300 bytes from the start of a packet with any counter; 6 prior states"),
], outside="losses of a multiple of 16 packets within a section, which the counter cannot show")

prop("C11", [
    h("h_c11_value", "every byte string of 0..64 bytes (256 thorough)"),
    h("h_c11_value", "every byte string of 0..2 bytes, decided without simplification", params=(2,), raw=True),
    h("h_c11_long", "every byte string of 255, 256, 257, 1020, 1024 and 4094 bytes (thorough: also 100, 128, 512, 2048 and 3000)"),
    h("h_c11_burst", "12 bytes of any contents (40 thorough), every nonzero change within 32 consecutive bits at every position"),
], outside="other lengths")

prop("C12", [
    h("h_c12_finalize", "bodies of 4..64 bytes, any contents", params=(4, 64)),
    h("h_c12_finalize", "bodies of 250..260 bytes", params=(250, 260)),
    h("h_c12_finalize", "bodies of 505..515 bytes", params=(505, 515)),
    h("h_c12_finalize", "bodies of 2046..2049 bytes", params=(2046, 2049)),
    h("h_c12_finalize", "bodies of 1015..1020 bytes", params=(1015, 1020)),
    h("h_c12_finalize", "bodies of 4091..4094 bytes", params=(4091, 4094)),
    h("h_c12_valid", "sections of 3..24 bytes (64 thorough), any contents, with too few, exactly enough and extra bytes collected"),
], outside="other body lengths; bodies shorter than 4 bytes")

prop("C13", [
    h("h_c13_compare", "7 x 7 (8 x 8 thorough) combinations of collected and announced size, any contents", raw=True),
    h("h_c13_long", "complete sections of 183, 259, 1024 and 4098 bytes, any contents", raw=True),
    h("h_c13_transitive", "5 x 5 x 5 combinations, any contents", raw=True),
], outside="other lengths")

any_table = "section lengths from 8 up to the stated one, any contents: valid, wrong checksum, another table, cut at every length"
prop("C14", [
    h("h_c14_pat", any_table + " 24 (40 thorough)", jobs=2),
    h("h_c14_pmt", any_table + " 23 (26 thorough)", jobs=4),
    h("h_c14_sdt", any_table + " 26 (30 thorough)", jobs=2),
    h("h_c14_nit", any_table + " 23 (26 thorough)", jobs=4),
    h("h_c14_eit", any_table + " 36 (40 thorough), table identifiers 4E, 4F, 50, 5F, 60, 6F (all 34 thorough)", jobs=4),
    h("h_c14_tdt", "buffers of 0..12 bytes (20 thorough), any contents, 4 declared sizes"),
    h("h_c14_tot", any_table + " 22 (26 thorough)", jobs=8),
], outside="longer sections (descriptor contents on their own: C25)")

prop("C15", [
    h("h_c15_trip", "0..6 items (20 thorough), every field value"),
    h("h_c15_read", "0..6 items (20 thorough), every section content"),
    confirm("h_c15_read", params=(), jobs=2),
], outside="more items in one section; several sections: C23")

long = "descriptor loops of 253..259 bytes (150..280 thorough), at every multiple of 256 and one byte either side, and of "
loops = "descriptor loops: empty or one/two unknown descriptors of 0, 1 or 5 bytes"
prop("C16", [
    h("h_c16_trip", "0..2 elementary streams (3 thorough), every field value; " + loops, jobs=2),
    h("h_c16_read", "0..2 elementary streams (3 thorough), every field bit including reserved ones", jobs=2),
    h("h_c16_long", long + "980 bytes, of the program or of a stream", jobs=2),
    h("h_c16_many", "198 and 440 streams without descriptors, any field values"),
    confirm("h_c16_read"),
], outside="more streams; other descriptors (C24..C31)")

prop("C17", [
    h("h_c17_trip", "0..2 services (3 thorough), every field value; " + loops, jobs=2),
    h("h_c17_read", "0..3 services (4 thorough), every field bit including reserved ones", jobs=2),
    h("h_c17_long", long + "990 bytes", jobs=2),
    h("h_c17_many", "198 and 440 services without descriptors, any field values"),
    confirm("h_c17_read"),
], outside="more services; other descriptors (C24..C31)")

prop("C18", [
    h("h_c18_trip", "0..2 streams (3 thorough), every field value; " + loops, jobs=4),
    h("h_c18_read", "0..2 streams (3 thorough), every field bit including reserved ones", jobs=2),
    h("h_c18_long", long + "980 bytes, of the network or of a stream", jobs=2),
    h("h_c18_many", "165 and 350 streams without descriptors, any field values"),
    confirm("h_c18_read"),
], outside="more streams; other descriptors (C24..C31)")

prop("C19", [
    h("h_c19_trip", "1 or 2 events (3 thorough), every field value, dates 1970..2038; " + loops, jobs=8),
    h("h_c19_read", "0..1 events (2 thorough), every field bit including reserved ones"),
    h("h_c19_long", "descriptor loops of 253..259 bytes (150..280 thorough), at every multiple of 1024 (256) and one byte either side, and of 4060 bytes", jobs=4),
    h("h_c19_many", "sections with 65 and 339 events without descriptors, any identifiers and flags"),
    confirm("h_c19_read"),
], outside="more events; dates outside 1970..2038; other descriptors (C24..C31)")

prop("C20", [
    h("h_c20_few", "1..3 events (4 thorough) on every day of 20000, every time of day; the second 0, 1 or 4 days behind the first, the others on the same or the next day", jobs=8),
    h("h_c20_place", "3 events (4 thorough), the first in every segment of any day, up to 40 segments between two, any time within them", jobs=2),
    h("h_c20_sizes", "up to 7 events within one segment, descriptor loops up to 4070 bytes with the section filled to within 3 bytes of its limit, any identifiers", jobs=8),
    h("h_c20_long", "40 events (75 thorough) in segments one after another from 3 days and 3 segments; the first, the last and one around the table change at any time of their segment", jobs=4),
], outside="longer lists; more than 8 sections in a segment; schedules longer than 16 tables")

prop("C21", [
    h("h_c21_trip", "every date and time of day 1970..2038"),
    h("h_c21_read", "every date and time of day 1970..2038, any reserved bits"),
    confirm("h_c21_read"),
], outside="other dates")

prop("C22", [
    h("h_c22_trip", "every date and time of day 1970..2038, with and without descriptors"),
    h("h_c22_read", "every date and time of day; with and without descriptors"),
    h("h_c22_long", long + "1000 bytes"),
    confirm("h_c22_read"),
], outside="other dates; other descriptors (C24..C31)")

edges = "section filled to 1018..1023 bytes before its checksum by three items, then the same for the second section; descriptor loops of up to 1000 bytes with any three bytes in every descriptor; every other field value"
prop("C23", [
    h("h_c23_pat", "252, 253, 254, 506, 507 items (thorough: 13 counts up to 2531); any values next to the ends of sections, fixed ones elsewhere", jobs=2),
    h("h_c23_pmt", edges, jobs=4),
    h("h_c23_sdt", edges, jobs=4),
    h("h_c23_nit", edges, jobs=8),
], outside="other item counts and sizes; single items or table descriptors that do not fit a section")

prop("C24", [
    h("h_c24_loop", "every byte string of 0..7 bytes (10 thorough)", raw=True),
    h("h_c24_typed", "one descriptor of each of 14 known and 3 other types, every content of 0..30 bytes (60 thorough; extended event 16/20, service and short event 20/32), then 0..2 bytes of another", raw=True),
    h("h_c24_print", "one descriptor of each known type with any field values, two in raw form"),
], outside="longer loops; printing of every possible number (the formatted digits of some fields are fixed)")

prop("C25", [
    h("h_c25_loop", "every byte string of 0..7 bytes (9 thorough)"),
    h("h_c25_typed", "one descriptor of each known type, every content of 0..28 bytes (41 thorough; extended event 12/16, service and short event 14/20), followed by another one; rereading of local time offsets for dates and times in range only"),
    h("h_c25_many", "loops of up to 4095 bytes: 130 and 2047 empty descriptors, 819 with 3 bytes, 16 with 253 bytes; any tag without a type of its own, any two bytes in each"),
    h("h_c25_large", "the largest lists, texts and data of each type, any contents; sizes at the limit"),
], outside="contents between the small and the largest sizes")

prop("C26", [
    h("h_c26_write", "every field value within its width", query_ms=240000),
    h("h_c26_read", "every byte sequence with decimal digits where the format has them"),
], outside="cable frequencies beyond 42949.6729 MHz and terrestrial ones beyond 4294.96729 MHz, which the field in Hz cannot hold")

prop("C27", [
    h("h_c27_write", "every field value; lists of 0..4 items (12 thorough), names of 0..6 bytes (16 thorough), pairs of texts of 0..3 bytes (6 thorough)", raw=True),
    h("h_c27_read", "every well-formed byte sequence with lists of 0..5 items (16 thorough), names of 0..8 bytes (20 thorough), pairs of texts of 0..5 bytes (10 thorough)", raw=True),
    h("h_c27_full", "the largest name, list, service and channel list and those one smaller, every field value; the two texts of a service split in four ways", raw=True),
], outside="sizes between the small and the largest ones")

prop("C28", [
    h("h_c28_write", "every field value; 0..2 items (3 thorough) with texts of up to 2 bytes, other texts of 0..3 bytes (6 thorough)", raw=True),
    h("h_c28_read", "every well-formed byte sequence with 0..2 items, texts of 0..2 bytes (0..3 thorough) in items, 0..5 bytes (10 thorough) elsewhere", raw=True),
    h("h_c28_full", "the largest short and extended event descriptors and those one and two bytes smaller, every field value; short event texts split in four ways, 0..3 items of 52 bytes, one of 249 or up to 124 small ones", raw=True),
], outside="sizes between the small and the largest ones")

prop("C29", [
    h("h_c29_write", "every field value; lists of 0..4 items (12 thorough), private data of 0..8 bytes (40 thorough)", raw=True),
    h("h_c29_read", "every well-formed byte sequence with lists of 0..5 items (16 thorough), private data of 0..12 bytes (56 thorough)", raw=True),
    h("h_c29_full", "the largest private data and language list and those one smaller, every field value", raw=True),
], outside="sizes between the small and the largest ones")

prop("C30", [
    h("h_c30_write", "every region, polarity, offset below 24 h, date and time; 0..2 items (3 thorough)"),
    h("h_c30_read", "every well-formed item; 0..2 items (3 thorough)"),
    h("h_c30_full", "18 and 19 items, one of them (first, tenth or last) with any values"),
], outside="offsets of 24 hours and more; other list sizes")

prop("C31", [
    h("h_c31_loop", "every byte string of 0..7 bytes (9 thorough)", raw=True),
    h("h_c31_typed", "one descriptor of each known type and one other, every content of 0..28 bytes (41 thorough; extended event 12/16, service and short event 12/18), alone or followed by another", raw=True),
    h("h_c31_print", "one descriptor of each type with any field values"),
    h("h_c31_independent", "changes to either copy", raw=True),
], outside="longer loops")

prop("C32", [
    h("h_c32_read", "every byte string of 0..16 bytes (40 thorough)", raw=True),
    h("h_c32_write", "every ASCII text of 1..3 bytes (8 thorough) that starts with a printable character, all 16 tables", raw=True),
    h("h_c32_sized", "texts of every length the size byte holds, 4 tables", raw=True),
], outside="texts longer than a size byte can announce; texts in the default table that start with a control character (the format has no way to tell it from a selector)")

prop("C33", [
    h("h_c33_byte", "every byte value in all 15 tables, between two letters", raw=True),
    h("h_c33_total", "every byte string of 0..4 bytes (6 thorough), selector included", raw=True, jobs=2),
    h("h_c33_long", "texts of 31, 64, 127, 128, 200 and 251 characters from both halves of all 15 tables, any one in the first, middle or last place"),
    h("h_c33_unicode", "every pair of Unicode characters in UTF-8", raw=True),
], outside="longer strings; combining accents of ISO 6937 are decoded one byte at a time, as the library documents its tables")

prop("C34", [
    h("h_c34_char", "every Unicode character in all 15 tables, between two letters", raw=True),
    h("h_c34_inverse", "every assigned character of every table behind any ASCII character", raw=True),
    h("h_c34_long", "texts of 31, 128 and 251 characters (also 64, 127 and 200 thorough) from both halves of all 15 tables, any one in the first, middle or last place", jobs=2),
    h("h_c34_longer", "texts of 300, 1100 and 4200 letters in three tables, any one of them"),
    h("h_c34_unicode", "every pair of Unicode characters, UTF-8 and every unknown table number", raw=True),
], outside="longer strings")

prop("C35", [
    h("h_c35_split", "UTF-8 texts: 0..7 letters, 3 characters of any length (4 thorough), 0..6 letters; sizes 5..7 (5..12 thorough)", raw=True),
    h("h_c35_split_any", "every byte string of 0..11 bytes (16 thorough) in 4 tables, the three smallest sizes", raw=True),
    h("h_c35_long", "3 characters of any length at the end of a 249- or 255-byte piece, 300 letters behind", raw=True),
    h("h_c35_truncate", "UTF-8 texts: 0..5 letters, 3 characters of any length (4 thorough), 0..6 letters; sizes 0..8 (12 thorough)", raw=True),
    h("h_c35_truncate_any", "every byte string of 0..11 bytes (16 thorough) in 3 tables, every size", raw=True),
], outside="size limits below what one character and the selector need (5 for UTF-8, 4 for other tables)")

prop("C36", [
    h("h_c36_codes", "every ASCII string of 0..4 bytes", raw=True),
    h("h_c36_any", "strings starting with any Unicode character, with and without an ASCII character behind", raw=True),
], outside="longer strings; languages missing from the list")

prop("C37", [
    h("h_c37_encode", "every number of 2, 4 and 8 digits"),
    h("h_c37_total", "every 8-, 16- and 32-bit pattern"),
], outside="nothing in the value range; numbers with more digits than the code holds are a documented precondition")

prop("C38", [
    h("h_c38_date", "every day from 1970 to 2038-04-22, every second of the day; every 16-bit date"),
    h("h_c38_time", "every time of day and minute offset; every day for timestamps"),
    h("h_c38_long", "every duration 00:00:00..99:99:99 and offset 00:00..99:99", raw=True),
    h("h_c38_total", "every 32-bit pattern"),
], outside="dates the 16-bit day number cannot hold")

prop("C39", [
    h("h_c39_header", "every 20-byte packet start", raw=True),
], outside="packets shorter than their header")

prop("C40", [
    h("h_c40_read", "every 20-byte packet start", raw=True),
    h("h_c40_distance", "every pair of 33-bit timestamps", raw=True),
], outside="values beyond 33 bits")

prop("C41", [
    h("h_c41_class", "every stream type, up to 2 descriptors (3 thorough) with any tag and 0 or 1 data bytes", jobs=2, raw=True),
    h("h_c41_late", "types 5 and 6, the deciding descriptor behind 1..60 others", raw=True),
], outside="longer descriptor lists")

prop("C42", [
    h("h_c42_packets", "every stream of 188, 190, 376, 379 bytes, up to two short reads of 1, 2, 93 or 186 bytes", jobs=8),
    h("h_c42_pieces", "one packet delivered in up to four reads, every first cut", raw=True),
    h("h_c42_errors", "streams of 0, 40, 188, 189 bytes, an error of five kinds at any of the first five reads", raw=True),
    h("h_c42_garbage", "187, 188, 600, 1500 bytes (5000 thorough) without a sync byte, then three packets with any contents, whole or byte by byte", raw=True),
    h("h_c42_source", "a source used by its owner between and after reads, any contents", raw=True),
], outside="more than three packets; more patterns of short reads")

prop("C43", [
    h("h_c43_sizes", "0..2 packets with any contents, 4 reads (5 thorough) with buffers of 0, 1, 100, 187, 188, 189, 400 bytes, a source error at any point", raw=True),
    h("h_c43_small", "0..2 packets, 7 reads (8 thorough) with buffers of 63, 94, 150 bytes, a source error at any point", raw=True),
    h("h_c43_stream", "one packet behind two bytes of garbage through reader and drain, every buffer size 1..190", raw=True),
], outside="other buffer sizes in mixed sequences; longer sequences")

prop("C44", [
    h("h_c44_bytes", "byte strings of 2..8 bytes (16 thorough), every offset, every value", raw=True),
], outside="longer byte strings; slices shorter than the integer (documented precondition)")

prop("C45", [
    h("h_c45_header", "every header without adaptation field; every identifier and counter with a fixed one"),
    h("h_c45_adaptation", "every flag and length combination with a fixed clock; every clock with fixed flags"),
], outside="the cross product of flags and clock digits; alternate ({:#?}) form; slices shorter than a packet")

sequence = "3 sections (4 thorough) of 1 or 2 items with any fields, each valid, with a wrong checksum, cut short or of another table"
prop("C46", [
    h("h_c46_pat", sequence),
    confirm("h_c46_pat", params=()),
    h("h_c46_pmt", sequence),
    confirm("h_c46_pmt", params=()),
    h("h_c46_sdt", sequence),
    confirm("h_c46_sdt", params=()),
    h("h_c46_nit", sequence),
    confirm("h_c46_nit", params=()),
    h("h_c46_eit", sequence + "; fixed times"),
], outside="longer sequences; table descriptors repeated in later sections")

prop("C47", [
    h("h_c47_satellite", "every named value, every value of the other fields", raw=True),
    h("h_c47_cable", "every named value, every value of the other fields; frequencies up to 999.9999 MHz", raw=True),
    h("h_c47_terrestrial", "every named value, every value of the other fields", raw=True),
    h("h_c47_text", "every named table, every text of 3 printable ASCII characters", raw=True),
    h("h_c47_packets", "every packet content", raw=True),
], outside="classes of streams (C41)")

prop("C48", [
    h("h_c48_access", "0..3 descriptors of 4 kinds, every field value, every position 0..4, every change of one field", raw=True),
    h("h_c48_append", "every pair of byte strings of 0..3 bytes (4 thorough)", raw=True),
], outside="asking for a descriptor as another type (panics)")

prop("C49", [
    h("h_c49_bits", "every field value for eight lists of widths", raw=True),
], outside="other lists of widths; values wider than their field")

prop("C50", [
    h("h_c50_tables", "two programs, one stream with a descriptor loop of 5 or 190 bytes, every other field value; the map also sent ahead of the list; another stream's packets at any of the places between; 1 or 3 stray bytes before any packet; reads of up to 70 or 188 bytes", jobs=4),
    h("h_c50_repeat", "a service table with a loop of 0, 6 or 170 bytes twice, then another one or not; every field value"),
], outside="other tables (each alone: C15..C22); lost packets (C10); stray bytes that look like a sync byte (C42)")

prop("C51", [
    h("h_c51_oversize", "ten types, one item or byte too much and 1, 2, 255, 256, 257 bytes more, any contents", jobs=4),
], outside="other sizes; several oversized descriptors; a type written without its loop")

prop("C52", [
    h("h_c52_event", "descriptions of 0, 1, 246, 249, 250, 500 and 745 bytes, any bytes, in three kinds of tables", jobs=2),
    h("h_c52_service", "every character of every single-byte table behind any ASCII character; any Unicode character", jobs=6),
], outside="other lengths; texts or pieces in the default table that start with a control character below 0x20, which the format reads as a selector")
