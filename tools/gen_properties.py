import json
P=[]
def p(id,title,st,over,qt,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    assert len(title)<=80,title
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
I=["inputs"]
p("C01","Packet header fields are read and written exactly where the standard puts them",
"For every 188-byte packet, each header query (sync, error, payload start, payload, adaptation, scrambling, packet identifier, continuity counter) returns the bits ISO 13818-1 assigns to it. Each setter makes the matching query return the value set and changes no other bit of the packet.",
I,"every packet content, every packet identifier below 8192, every counter below 16",
"The unit tests use a handful of fixed header bytes; a setter that disturbs a neighbouring bit, or a mask that is one bit short, is visible only for other bit patterns.",
["src/ts/mod.rs"],[("bit masks in accessors and setters","src/ts/mod.rs")],["return values","packet bytes"])
p("C02","Payload offset is valid or reported as absent",
"For every packet the reported payload offset is the number of header and adaptation-field bytes that precede the payload. When the packet carries no payload, or its adaptation field leaves no room for one, the reported offset is 0.",
I,"every packet content, including every adaptation-field length 0..255",
"Tests check two packets; the lengths near and past the packet end (where the sum leaves the packet or the integer range) are never tried.",
["src/ts/mod.rs"],[("payload offset computation","src/ts/mod.rs: get_payload_offset")],["return value"])
p("C03","A clock reference written to a packet reads back exactly",
"For every clock reference below the wrap value, writing it into a packet and reading it back gives the same value, in the 33-bit base / 9-bit extension layout of ISO 13818-1, with reserved bits set and no byte outside the field changed. Presence of a clock reference is reported exactly when the adaptation field is present, long enough and flagged.",
I,"all 2^33*300 clock values and all packet contents",
"One value is tested; a lost base bit or extension carry shows only for particular values among 2.5e12.",
["src/ts/pcr.rs"],[("base/extension split and reassembly","src/ts/pcr.rs: set_pcr, get_pcr, is_pcr")],["packet bytes","return value"])
p("C04","Clock reference arithmetic follows the cyclic 27 MHz clock",
"The distance between two clock references is the number of ticks from the earlier to the later on the cyclic clock, the estimated clock is the linear extrapolation reduced to the clock range, and jitter is the signed cyclic distance between actual and expected value in nanoseconds. The bitrate over a distance is the number of bits divided by its milliseconds, and zero below one millisecond. None of them fails for values inside the clock range.",
I,"all pairs of clock values, all byte counts and deltas within stated ranges",
"Tests contain one non-wrapping and one wrapping pair; sign errors, off-by-one at the wrap and overflow need specific pairs.",
["src/ts/pcr.rs"],[("wrap handling","src/ts/pcr.rs: pcr_delta, pcr_jitter_ns, pcr_to_stc"),("unit conversion","src/ts/pcr.rs: pcr_to_us, pcr_to_ms, pcr_delta_bitrate")],["return values"])
p("C05","Section reassembly survives any packet in any state",
"Feeding arbitrary 188-byte packets to the section reassembler in any order never panics and never reads outside the packet. The collected data never grows beyond one maximal section plus one packet payload.",
["inputs","histories"],"every packet content, every reachable state of the reassembler (bounded history length plus one inductive step from an arbitrary consistent state)",
"Tests feed well-formed streams only; the panics need an invalid adaptation length or pointer, or a specific earlier packet.",
["src/psi/mod.rs","src/ts/mod.rs"],[("bounds checks on payload offset and pointer field","src/psi/mod.rs: Psi::mux")],["absence of panic","buffer length"],[("buffer,size,cc","bytes collected, announced size, last counter","src/psi/mod.rs: Psi")])
p("C06","A section packetized and reassembled is unchanged",
"For every valid section of every size, splitting it into transport packets and feeding those packets to a reassembler yields the same section bytes, reported complete and valid exactly after the last packet. This holds whatever the reassembler had collected before.",
["inputs","histories"],"every section size up to the stated maximum, every content, every starting counter, every prior reassembler state within bounds",
"Tests round-trip two captured tables; boundary sizes (183, 184, 367 ... bytes), counter wrap and stale prior state are not reached.",
["src/psi/mod.rs"],[("packetizer","src/psi/mod.rs: Psi::demux"),("reassembler","src/psi/mod.rs: Psi::mux"),("validity test","src/psi/mod.rs: Psi::check")],["section bytes","validity after each packet"])
p("C07","Packetizer output is a well-formed packet run",
"Packetizing a section appends whole 188-byte packets to the output without touching what was there: sync byte, the given identifier, payload-only flag, a counter increasing by one modulo 16 and continuing across sections, the start flag and a zero pointer only on the first packet, and 0xFF stuffing after the section end. The number of packets is the minimum that fits.",
["inputs","histories"],"every section size up to the stated maximum, every content, identifier, starting counter and pre-existing output length within bounds",
"Tests compare two fixed outputs; sizes that exactly fill a packet and counters near the wrap are not covered.",
["src/psi/mod.rs"],[("packet count and copy arithmetic","src/psi/mod.rs: Psi::demux"),("counter hand-over between sections","src/psi/mod.rs: PsiDemux::demux")],["output bytes","returned counter"])
p("C08","Reassembly does not depend on how a section is cut into packets",
"A section whose bytes are spread over consecutive packets in any pieces, with adaptation fields of any valid length and with packets that carry no payload in between, is reassembled to exactly the same bytes. Before its last byte arrives it is not reported complete.",
["inputs","histories"],"every sequence of piece sizes within bounds, every section content, insertion of payload-less packets at every position",
"Test streams always fill packets completely; short first pieces that split the three-byte section header never occur.",
["src/psi/mod.rs"],[("incremental size detection","src/psi/mod.rs: Psi::push, Psi::mux")],["section bytes","validity after each packet"])
p("C09","Sections that share a packet are both delivered",
"When the packet that ends one section also starts the next one through a non-zero pointer field, the first section is reported complete with its own bytes and the second is completed by the packets that follow. Neither is lost, repeated or mixed with the other.",
["inputs","histories"],"every pair of section sizes within bounds, every split position, every content, continuation in any number of packets within bounds",
"One captured stream exercises the pointer field, with one split position.",
["src/psi/mod.rs"],[("pointer field handling and removal of the finished section","src/psi/mod.rs: Psi::mux")],["section bytes reported after each packet"])
p("C10","A lost packet never yields a section stitched across the gap",
"If a packet of a section is missing, so that the counter does not continue, the reassembler reports no section containing bytes from both sides of the gap. The next section that starts after the gap is reassembled normally. One that starts right at the beginning of a packet replaces an unfinished section whatever the counter.",
["inputs","fault_sequences"],"every section size and content within bounds, every lost packet, every counter jump",
"No test drops a packet.",
["src/psi/mod.rs"],[("continuity counter comparison","src/psi/mod.rs: Psi::mux")],["collected bytes","validity"])
p("C11","The checksum is CRC-32/MPEG-2 and catches every short error burst",
"For every byte string the checksum equals the bit-serial CRC with polynomial 0x04C11DB7, initial value all ones and no final inversion. Consequently two strings of equal length that differ only within 32 consecutive bits always have different checksums.",
I,"every byte string up to the stated length, every burst position and pattern",
"Tests check a few strings; a wrong entry among 256 table constants is hit only by particular byte sequences.",
["src/psi/utils/crc32.rs"],[("lookup table and shift loop","src/psi/utils/crc32.rs: crc32b")],["return value"])
p("C12","Completing a section makes it valid; corruption makes it invalid",
"Completing any section body appends the checksum, writes the matching length field while keeping the flag bits, and the result is accepted as valid; completing it again changes nothing. A section is accepted exactly when all announced bytes are present and the last four equal the checksum of the rest.",
I,"every body content and length up to the stated maximum, every corruption pattern within bounds",
"Tests complete a few fixed tables and never corrupt one.",
["src/psi/mod.rs"],[("length and checksum write","src/psi/mod.rs: Psi::finalize"),("validity test","src/psi/mod.rs: Psi::check, Psi::new")],["section bytes","validity"])
p("C13","Section comparison is a total equivalence",
"Comparing two sections never fails, whatever state they are in, including empty and incomplete ones. The result is reflexive, symmetric and transitive, and two complete sections of equal length are equal exactly when their checksums are equal.",
["inputs","histories"],"every pair of section states within bounds",
"Tests compare complete sections only.",
["src/psi/mod.rs"],[("comparison by size and checksum","src/psi/mod.rs: PartialEq for Psi")],["comparison result","absence of panic"])
p("C14","Table parsers accept any section without failing",
"Parsing an arbitrary section, complete or not, with a valid or an invalid checksum, never panics for any of the supported tables. A section of another table type, an incomplete one, or (where the table carries a checksum) one with a wrong checksum leaves the parsed table unchanged.",
I,"every section content up to the stated length for PAT, PMT, SDT, NIT, EIT, TDT and TOT",
"Tests parse captured valid tables; hostile inner lengths never occur.",
["src/psi/pat.rs","src/psi/pmt.rs","src/psi/sdt.rs","src/psi/nit.rs","src/psi/eit.rs","src/psi/tdt.rs","src/psi/tot.rs"],[("admission checks and inner length checks","src/psi/*.rs: check, parse")],["absence of panic","table fields"])
tab=lambda n,f:[(f"parser and builder of the {n}",f)]
p("C15","Program association table survives the trip through packets",
"For every program association table, building it, packetizing, reassembling and parsing gives the same version, stream identifier and items in order. The bytes produced and accepted are those defined by ISO 13818-1.",
I,"every field value, every item list up to the stated length",
"One table is tested in each direction.",["src/psi/pat.rs"],tab("PAT","src/psi/pat.rs"),["parsed fields","section bytes"])
p("C16","Program map table survives the trip through packets",
"For every program map table, building it, packetizing, reassembling and parsing gives the same program number, version, clock identifier, program descriptors and streams with their descriptors, in order. The bytes produced and accepted are those defined by ISO 13818-1.",
I,"every field value, item and descriptor lists up to the stated length",
"The captured tables have no program-level descriptors, so that loop is never parsed.",["src/psi/pmt.rs"],tab("PMT","src/psi/pmt.rs"),["parsed fields","section bytes"])
p("C17","Service description table survives the trip through packets",
"For every service description table, actual or other, building it, packetizing, reassembling and parsing gives the same identifiers, version, flags and services with their descriptors, in order. The bytes produced and accepted are those defined by EN 300 468.",
I,"every field value, item and descriptor lists up to the stated length",
"One table is tested; flag and status bits share a byte pair with the length and are constant in the test.",["src/psi/sdt.rs"],tab("SDT","src/psi/sdt.rs"),["parsed fields","section bytes"])
p("C18","Network information table survives the trip through packets",
"For every network information table, actual or other, building it, packetizing, reassembling and parsing gives the same identifiers, version, network descriptors and transport streams with their descriptors, in order. Both loop lengths in the bytes are those defined by EN 300 468.",
I,"every field value, item and descriptor lists up to the stated length",
"One table is tested in each direction.",["src/psi/nit.rs"],tab("NIT","src/psi/nit.rs"),["parsed fields","section bytes"])
p("C19","Present/following event table survives the trip through packets",
"For every present/following event table, building it, packetizing, reassembling and parsing all sections gives the same identifiers and events with start time, duration, status and descriptors, in order, one event per section with matching section numbers. The bytes are those defined by EN 300 468.",
I,"every field value, start times over the whole date range, durations up to 99:59:59, event lists up to the stated length",
"Two captured events are tested; date, time-of-day and duration carry interact only for particular values.",["src/psi/eit.rs"],tab("EIT","src/psi/eit.rs"),["parsed fields","section bytes"])
p("C20","Event schedules keep every event exactly once and in order",
"For every chronological event list, building a schedule and parsing all its sections gives back every event exactly once and in order with all its fields. Every section is valid, within the size limit and carries the schedule's identifiers, with strictly increasing table and section numbers and no segment left out, and announces the last section of its segment, the last section of its table and the last table. Every event is filed in its three-hour segment; those of the first segment may be in the one behind it.",
I,"event lists up to the stated length, all start offsets within the stated span, all descriptor sizes within bounds",
"One schedule is tested; section overflow, segment changes and table changes are not.",["src/psi/eit.rs"],[("segment and section allocation","src/psi/eit.rs: Eit::psi_list_assemble")],["parsed events","section headers"])
p("C21","Time table carries any date and time exactly",
"For every UTC time representable in a 16-bit modified Julian date, building, packetizing, reassembling and parsing the time and date table gives the same time, in the 8-byte layout of EN 300 468.",
I,"every second from 1970 to 2038-04-22",
"One timestamp is tested.",["src/psi/tdt.rs","src/psi/utils/mjd.rs","src/psi/utils/bcd.rs"],tab("TDT","src/psi/tdt.rs"),["parsed time","section bytes"])
p("C22","Time offset table survives the trip through packets",
"For every UTC time and descriptor list, building, packetizing, reassembling and parsing the time offset table gives the same time and descriptors, with a valid checksum and the layout of EN 300 468.",
I,"every second of the date range, descriptor lists up to the stated length",
"One table is tested.",["src/psi/tot.rs"],tab("TOT","src/psi/tot.rs"),["parsed fields","section bytes"])
p("C23","Large tables split into sections without loss",
"A table too large for one section is emitted as several, each within the standard's size limit and valid, numbered from zero with the correct last number, repeating the table header. Parsing all sections gives back all items in order.",
I,"item counts and descriptor sizes around every section boundary, up to the stated number of sections, all field values",
"No test builds a table that needs a second section, except an event schedule.",["src/psi/mod.rs","src/psi/pat.rs","src/psi/pmt.rs","src/psi/sdt.rs","src/psi/nit.rs"],[("section size checks","src/psi/*.rs: psi_list_assemble"),("section numbering","src/psi/mod.rs: PsiDemux::demux")],["section bytes","parsed items"])
p("C24","Descriptor loops of any content parse without failing",
"Parsing an arbitrary byte string as a descriptor loop never panics and stops cleanly at a truncated descriptor. Every descriptor that is completely present is represented, in order, with its own tag, and printing the parsed loop never fails.",
I,"every loop content up to the stated length, and every single descriptor of every tag up to the stated length",
"Each descriptor type is tested with one well-formed sample; inconsistent inner lengths and invalid digits never occur.",
["src/psi/descriptors/mod.rs","src/psi/descriptors"],[("per-type admission checks with fallback to raw storage","src/psi/descriptors/mod.rs: Descriptor::parse")],["absence of panic","tags in order"])
p("C25","Writing a descriptor loop is consistent with its announced size",
"For every parsed or constructed descriptor loop that fits the format, the announced size equals the number of bytes written, each descriptor's length byte matches its content, and existing output is kept. Descriptors without a dedicated type are written back byte for byte, and writing what was parsed and parsing it again gives the same loop if its dates and times are in range.",
I,"every loop content up to the stated length, every descriptor type",
"Tests assert sizes for two samples; a mismatch corrupts everything that follows in a table only for content not in the samples.",
["src/psi/descriptors/mod.rs","src/psi/descriptors/raw.rs","src/psi/descriptors"],[("size and assemble of each type","src/psi/descriptors")],["bytes written","announced size"])
desc=lambda fs:[("parse and assemble of the types","; ".join(fs))]
def d(id,title,what,std,fs):
    fs=["src/psi/descriptors/"+f+".rs" for f in fs]
    p(id,title,f"For every field value the format can carry, {what} are written as the bytes defined by {std} and read back with the same fields. Every well-formed byte sequence is decoded to the fields the standard assigns to its bits.",
      I,"every value of every field within its width, lists and texts up to the stated length","One sample per type is tested in each direction; neighbouring bit fields and digit carries are constant in it.",fs,desc(fs),["descriptor bytes","fields"])
d("C26","Delivery system descriptors carry every field exactly","satellite, cable and terrestrial delivery descriptors","EN 300 468",["x43","x44","x5a"])
d("C27","Naming and service list descriptors carry every field exactly","network name, service list, service and logical channel descriptors","EN 300 468 and the DTT profile",["x40","x41","x48","x83"])
d("C28","Event text descriptors carry every field exactly","short event and extended event descriptors, including item lists,","EN 300 468",["x4d","x4e"])
d("C29","Stream-level descriptors carry every field exactly","conditional access, language, maximum bitrate and stream identifier descriptors","ISO 13818-1 and EN 300 468",["x09","x0a","x0e","x52"])
d("C30","Local time offset descriptors carry every field exactly","local time offset descriptors, including offset, polarity and time of change,","EN 300 468",["x58"])
p("C31","Copying a descriptor loop is always possible and faithful",
"Copying any descriptor loop, parsed from arbitrary bytes or constructed, never fails. The copy writes the same bytes and has the same tags, size and printed form as the original, and changing one does not affect the other.",
I,"every loop content up to the stated length, every descriptor type",
"Tests never copy a descriptor that was stored in raw form under a known tag.",["src/psi/descriptors/mod.rs"],[("type dispatch by tag","src/psi/descriptors/mod.rs: Clone for Descriptor")],["bytes written by the copy"])
p("C32","Text fields keep their bytes and character table",
"For every text in a supported character table, the written form starts with the table selector of EN 300 468 annex A, its announced size equals the bytes written, and reading it back gives the same text and table. Reading any byte string never fails, and rereading what was written from it is stable; a text in a table that is not supported reads as a question mark.",
I,"every byte string up to the stated length, every character table",
"Tests cover a few short strings in three tables.",["src/textcode/mod.rs"],[("selector parsing and writing","src/textcode/mod.rs: From<&[u8]>, assemble, assemble_sized, size")],["bytes written","size","table number"])
p("C33","Text decoding matches the published character tables",
"Every byte of every supported single-byte table decodes to the character the published ISO 8859 or ISO 6937 table assigns, a question mark if none is assigned, and nothing for the control range. Printing any text, in any table, never fails.",
I,"all 256 byte values in all tables, every byte string up to the stated length",
"Tests decode one ASCII string and one Cyrillic word of 15 tables with 96 entries each.",["src/textcode/mod.rs","src/textcode/data.rs"],[("decoding tables","src/textcode/data.rs"),("decoder","src/textcode/mod.rs: Display")],["decoded text","absence of failure"])
p("C34","Text encoding is the inverse of decoding and degrades predictably",
"Text whose characters all exist in the chosen table encodes to bytes that decode to the same text. A character missing from the table becomes its ASCII replacement or a question mark, never some other character, and control characters of the upper half are dropped; with the UTF-8 table, or for an unknown table, the text is kept as UTF-8.",
I,"every Unicode character in every table, strings up to the stated length",
"Tests encode two words.",["src/textcode/mod.rs","src/textcode/data.rs"],[("reverse lookup and substitutions","src/textcode/mod.rs: from_str")],["encoded bytes","decoded text"])
p("C35","Splitting and shortening text never damages it",
"Splitting a text yields pieces that each fit the given size when written, never cut a UTF-8 character and concatenate to the original. Shortening keeps the text within the size and never cuts a UTF-8 character, ending it with an ellipsis where that fits.",
I,"every text up to the stated length, every size limit at or above the minimum one character needs",
"One text is split at one size; four-byte characters and small limits are not tested.",["src/textcode/mod.rs"],[("piece boundary search","src/textcode/mod.rs: split, truncate")],["pieces","sizes"])
p("C36","Language code conversion is consistent in both directions",
"Converting any string never fails and yields a result only for a known two- or three-letter code. Converting a two-letter code to three letters and back returns the original code, and both three-letter variants of a language give the same two-letter code.",
I,"every string up to four bytes",
"No test covers the conversion at all.",["src/textcode/lang.rs"],[("language list and lookup","src/textcode/lang.rs: convert")],["returned code"])
p("C37","Decimal digit coding is exact",
"Every number within range is coded as its decimal digits, one per four bits, and decoded back to itself; every valid digit code decodes to the number its digits spell. Decoding any other bit pattern never fails.",
I,"all 8-, 16- and 32-bit values",
"Tests check a few values per width.",["src/psi/utils/bcd.rs"],[("digit arithmetic","src/psi/utils/bcd.rs: BCD")],["return values"])
p("C38","Date and time coding is exact",
"Every time within the format's range is coded as modified Julian date and decimal hours, minutes and seconds and decoded back to itself, for time of day, durations and minute offsets. Decoding any bit pattern, including the all-ones 'undefined' one, never fails.",
I,"all dates from 1970 to 2038, all times of day, all bit patterns",
"Tests check a few timestamps; overflow at five hours or more is not reached.",["src/psi/utils/bcd.rs","src/psi/utils/mjd.rs"],[("digit and calendar arithmetic","src/psi/utils/bcd.rs: BCDTime; src/psi/utils/mjd.rs")],["return values"])
p("C39","Elementary stream packet headers are read as the standard defines",
"For every packet header, prefix detection, the distinction of stream identifiers without optional header, packet length, payload offset and the timestamp-presence flags are those of ISO 13818-1.",
I,"every header content",
"Tests use one captured header.",["src/es/pes.rs"],[("bit masks and identifier list","src/es/pes.rs")],["return values"])
p("C40","Presentation and decoding timestamps are read and compared on the 33-bit clock",
"Every 33-bit timestamp coded in a packet as the standard defines is read back exactly, ignoring marker bits. The distance between two timestamps is the number of ticks from the earlier to the later on the cyclic clock, including across the wrap.",
I,"all 2^33 timestamps, all pairs for the distance",
"Tests read one timestamp and never wrap.",["src/es/pes.rs"],[("bit gathering","src/es/pes.rs: get_pts, get_dts"),("wrap handling","src/es/pes.rs: pts_delta")],["return values"])
p("C41","Streams are classified by type and descriptors as documented",
"Every stream of a program map gets the documented class: by its stream type for video and audio, and for private data by the first recognised descriptor among its descriptors. Anything else is data.",
I,"every stream type and every descriptor tag list up to the stated length",
"Tests classify the streams of one table.",["src/psi/pmt.rs","src/es/mod.rs"],[("type and descriptor tag match","src/psi/pmt.rs: PmtItem::get_stream_type")],["returned class"])
p("C42","The stream reader returns exactly the packets of the stream",
"Reading from any byte source yields consecutive 188-byte packets that each start at a sync byte, skipping only bytes before a sync byte, independent of how the source chops its data. An incomplete packet at the end is reported as end of stream, source errors are passed on, and nothing beyond the packet is written.",
["inputs","schedules","fault_sequences"],"every stream content and every sequence of read sizes, errors and end positions within bounds",
"Tests read from an in-memory slice that always returns everything asked for.",["src/reader/mod.rs"],[("sync search and fill loop","src/reader/mod.rs: TsReader::read")],["returned packets","errors"])
p("C43","Draining packets as a byte stream loses and repeats nothing",
"Whatever the sizes of the buffers passed, the bytes obtained are exactly the concatenation of the source's packets in order, and end of stream and errors of the source are passed on without losing data already fetched. No buffer is overrun.",
["inputs","schedules","fault_sequences"],"every sequence of buffer sizes (including zero), packet contents, and errors or end at any point within bounds",
"Tests drain with one buffer size.",["src/reader/drain.rs"],[("position tracking in the pending packet","src/reader/drain.rs: TsDrain::read")],["bytes read","errors"])
p("C44","Big-endian integer access is exact",
"Reading 16-, 24- and 32-bit integers from bytes gives their big-endian value, and writing them stores exactly those bytes, leaves all others alone and reads back the same value.",
I,"all values, all surrounding contents",
"One value per width is tested.",["src/bytes.rs"],[("shift and mask","src/bytes.rs")],["bytes","return values"])
p("C45","Diagnostic printing of packets never fails and shows the real fields",
"Printing any packet for diagnostics never fails. The printed header and adaptation-field values are those of the packet.",
I,"every packet content",
"No test prints a packet.",["src/ts/debug.rs"],[("field formatting","src/ts/debug.rs")],["printed text"])
p("C46","Tables accumulate over sections",
"Parsing several sections of a table one after another gives all their items in section order, with the header fields of the last accepted section. A rejected section in between changes nothing.",
["inputs","histories"],"sequences of sections up to the stated length, valid and invalid, all contents within bounds",
"Tests parse a single section per table object, except one schedule.",["src/psi/pat.rs","src/psi/pmt.rs","src/psi/sdt.rs","src/psi/nit.rs","src/psi/eit.rs"],[("append on parse","src/psi/*.rs: parse")],["parsed items"])
p("C47","Named values are those of the standards",
"A descriptor, text or packet described with one of the named values of the library (delivery parameters, character tables, packet identifiers) carries the number the standard assigns to that meaning, whatever its other fields hold, and reading that number gives the same named value. No two meanings of one field share a number.",
["inputs"],"every named value; every value of the other fields",
"Tests use seven of the named values and compare them with themselves, so a wrong number in the list goes unnoticed.",["src/constants.rs","src/ts/mod.rs","src/psi/*.rs","src/textcode/mod.rs"],[("constants","src/constants.rs")],["descriptor bytes","packet bytes"])
p("C48","Descriptors of a loop are reached by position and type",
"Descriptors of a loop are found at the position and with the type and fields they were added with, in order, and nothing is found beyond the end. Changing one through its typed view changes exactly its own bytes, and reading another loop into the same list adds its descriptors behind those present.",
["inputs","histories"],"up to three descriptors of four kinds with any values, every position, every change of one; pairs of byte strings up to the stated length",
"Tests look at the first descriptors of one fixed loop and never change one in place.",["src/psi/descriptors/mod.rs"],[("typed view over boxed descriptors","src/psi/descriptors/mod.rs")],["returned references","written bytes"])
p("C49","Bit fields are packed in order",
"Packing fields that fit their widths gives the number whose bits are the fields one after another from the top, with zero in the places left over, for results of 8, 16 and 32 bits.",
["inputs"],"every value of every field; eight lists of widths",
"The only test packs one fixed set of values.",["src/bits.rs"],[("recursive macro","src/bits.rs: set_bits")],["value of the expression"])
p("C50","Tables are found in a multiplex",
"Reading a byte stream packet by packet, following the program list to the map of a program and feeding the packets of each identifier to a reassembler yields each table once, with every field as sent, whatever packets of other streams lie between, wherever a few stray bytes precede a packet and however the source cuts its reads; a table repeated in the stream compares equal to the one before, and a changed one is read as changed.",
["inputs","histories"],"every identifier, version, counter and field value of both tables; packets of another identifier with any content at any subset of the places between; up to three stray bytes before any packet; reads cut at 70 bytes or not",
"Tests exercise reader, reassembler and parsers apart, each with one captured stream; what they require of each other (unchanged packets, one report per section, comparison) is never tried together.",["src/reader/mod.rs","src/ts/mod.rs","src/psi/mod.rs","src/psi/pat.rs","src/psi/pmt.rs","src/psi/sdt.rs"],[("synchronisation, reassembly state and section comparison together","src/psi/mod.rs: mux, check, eq")],["parsed tables","number of reports"])
p("C51","An oversized descriptor does not damage its loop",
"A descriptor holding more than its length byte can say, whether a long list, long text or long data, leaves the loop it is written in well formed: the descriptors before and behind it are written and read back unchanged, and the announced size is the number of bytes written.",
["inputs"],"every type of variable size, one byte or item too much and up to 257 bytes more, any contents; any neighbours of fixed size",
"Tests write descriptors of ordinary size; the length byte wraps silently beyond 255 and the rest of the table is then read from the wrong place.",["src/psi/descriptors/*.rs"],[("one-byte length field","src/psi/descriptors/mod.rs: Descriptor::assemble"),("size limit of single types","src/psi/descriptors/x4e.rs; src/psi/descriptors/raw.rs")],["written bytes","announced size","reread loop"])
p("C52","Texts arrive as they were given",
"A long event description split for its descriptors, written into an event table, packetized, reassembled and read is put together again from the descriptors in order, byte for byte in its character table and with every part numbered. The names of a service given as characters are read from the received table as the same characters.",
["inputs"],"descriptions of the stated lengths with any bytes in three kinds of character tables; every character of every table in a service name, any Unicode character in a provider name",
"Tests check text, descriptors and tables apart, with one sample each; whether pieces made by one fit the limits of the next is never tried.",["src/textcode/mod.rs","src/psi/descriptors/x4e.rs","src/psi/descriptors/x48.rs","src/psi/eit.rs","src/psi/sdt.rs"],[("size limits of text pieces, descriptors and sections","src/textcode/mod.rs: StringDVB::split; src/psi/descriptors/x4e.rs: assemble")],["texts of the parsed table"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
