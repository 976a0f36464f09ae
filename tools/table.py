AI = "abstract interpretation of LLVM IR (interprocedural dataflow)"
PR = "mbus/mbus-protocol.c"; PH = "mbus/mbus-protocol.h"; AX = "mbus/mbus-protocol-aux.c"; SE = "mbus/mbus-serial.c"; TC = "mbus/mbus-tcp.c"
TOOLS = ["bin/mbus-" + t + ".c" for t in ("serial-request-data", "serial-request-data-multi-reply", "serial-scan", "serial-scan-secondary", "serial-select-secondary", "serial-set-address", "serial-switch-baudrate", "tcp-application-reset", "tcp-raw-send", "tcp-request-data", "tcp-request-data-multi-reply", "tcp-scan", "tcp-scan-secondary", "tcp-select-secondary")]
GOLD = "The 110 stable tests feed about a hundred recorded telegrams through parsing and XML rendering; "
NOTE = "holds for every execution the abstract semantics covers; trusted: the engine's transfer functions, joins and C library models, and the driver's environment model"

PROPERTIES = [
 dict(id="P01", title="Parsing any received bytes is memory-safe",
  statement="Handing the frame parser a buffer of any length with any content never reads outside the given bytes, never writes outside the frame it fills, never changes the given bytes, and has no undefined behaviour. It always returns.",
  over=["inputs"], forall="every buffer content and every length, including empty, truncated and over-long input, and absent buffers",
  tests=GOLD + "they are well-formed apart from ten, so almost no truncated, oversized or contradictory length field is ever seen.",
  files=[PR], mech=[("frame parser", PR + ": mbus_parse"), ("frame layout", PH + ": mbus_frame")], technique=AI, note=NOTE),
 dict(id="P02", title="Interpreting any user data is memory-safe and uses only received bytes",
  statement="Interpreting the user data of any accepted frame, whatever its bytes, never reads past the bytes the frame carries and never writes outside the records it builds. Every record it builds has at most as many extension bytes, data bytes and custom text as a record can hold.",
  over=["inputs"], forall="every user data content and length from 0 to the maximum a frame can carry, and every allocation failure",
  tests=GOLD + "the record chains that run off the end, the longest records, and failing allocations are not among them.",
  files=[PR], mech=[("variable data", PR + ": mbus_data_variable_parse"), ("fixed data", PR + ": mbus_data_fixed_parse"), ("dispatch", PR + ": mbus_frame_data_parse")], technique=AI, note=NOTE),
 dict(id="P03", title="XML rendering never overruns a buffer and never loses text",
  statement="Rendering any decoded data as XML, plain or normalized, never reads or writes outside its buffers and never cuts off what it writes, for any number of records and any record content.",
  over=["inputs"], forall="every header, every record content (codes, extension bytes, data bytes, custom text) and every number of records",
  tests=GOLD + "longest texts, long record lists near the point where the output buffer grows, and rare unit codes do not occur in them.",
  files=[PR, AX], mech=[("record text", PR + ": mbus_data_variable_record_xml"), ("list text", PR + ": mbus_data_variable_xml"), ("normalized text", AX + ": mbus_data_variable_xml_normalized"), ("escaping", PR + ": mbus_str_xml_encode")], technique=AI, note=NOTE),
 dict(id="P04", title="XML output is well-formed",
  statement="Whatever the meter sent, the XML produced is well-formed: every element opened is closed in order, and text taken from the telegram appears only escaped, with no markup and no control characters.",
  over=["inputs"], forall="every header, record content and number of records",
  tests=GOLD + "few of them carry text with markup characters or control bytes, and none carries hostile units or manufacturer codes.",
  files=[PR, AX], mech=[("escaping", PR + ": mbus_str_xml_encode"), ("list text", PR + ": mbus_data_variable_xml"), ("fixed text", PR + ": mbus_data_fixed_xml"), ("error text", PR + ": mbus_data_error_xml")], technique="abstract interpretation: tag-nesting and character-class effects of string writes", note=NOTE),
 dict(id="P05", title="A frame is accepted exactly when it is valid, and stored as received",
  statement="The parser reports success exactly for byte strings that begin with a valid frame: right start and stop bytes, agreeing length bytes, length matching the frame kind, checksum equal to the sum of the bytes it covers, and a known control code. On success every field and data byte of the frame equals the received byte.",
  over=["inputs"], forall="every buffer content and every frame length from the smallest to the largest",
  tests=GOLD + "ten damaged frames are rejected, but a missing condition shows only on the one damaged frame it should reject.",
  files=[PR], mech=[("frame parser", PR + ": mbus_parse"), ("validation", PR + ": mbus_frame_verify"), ("checksum", PR + ": calc_checksum")], technique="abstract interpretation with symbolic byte equalities", note=NOTE),
 dict(id="P07", title="The announced number of missing bytes never exceeds what the frame lacks",
  statement="When the parser asks for more bytes, the number it asks for is positive and never exceeds the number of bytes the frame still lacks, so a receiver that reads as many never reads past the end of the frame. A complete frame is never asked to be longer.",
  over=["inputs"], forall="every prefix of every frame",
  tests=GOLD + "always as one complete buffer, so the incomplete case is never exercised.",
  files=[PR], mech=[("frame parser", PR + ": mbus_parse"), ("receive loops", SE + ": mbus_serial_recv_frame; " + TC + ": mbus_tcp_recv_frame")], technique="abstract interpretation with linear relations over lengths", note=NOTE),
 dict(id="P25", title="Records take up exactly the bytes they announce and keep them",
  statement="Each record of variable data takes up exactly the bytes its information fields announce (data length by code, extension bytes while announced, custom unit text, variable-length data), and the next record starts right after it. The record keeps every information and data byte as received.",
  over=["inputs"], forall="every data field code, every number of extension bytes, every custom text and variable length that fits the frame",
  tests=GOLD + "they contain only the codes and shapes of the recorded meters.",
  files=[PR], mech=[("variable data", PR + ": mbus_data_variable_parse"), ("data length", PR + ": mbus_dif_datalength_lookup")], technique="abstract interpretation with symbolic byte equalities, split by announced lengths", note=NOTE),
 dict(id="P06", title="Packing frames and data produces exactly their wire form",
  statement="Packing a frame writes exactly the bytes its format prescribes, with correct length bytes and checksum, never outside the buffer given, and fails when the buffer is too small or the frame kind is unknown. A packed frame parses back as the same frame. Packing data that were parsed gives the same bytes again, and records that do not fit into a frame are refused.",
  over=["inputs"], forall="every frame kind, field value, data length, buffer size and record content",
  tests="None of the stable tests packs a frame.",
  files=[PR], mech=[("frame packer", PR + ": mbus_frame_pack"), ("data packer", PR + ": mbus_frame_internal_pack"), ("validation", PR + ": mbus_frame_verify")], technique="abstract interpretation with symbolic byte equalities, split by lengths", note=NOTE),
 dict(id="P26", title="User data are interpreted according to their kind",
  statement="User data are taken for an error report, fixed data or variable data exactly as the control information says, and rejected for any other control information, for a frame not sent by a meter, and when too short for their header or of a wrong fixed length. Error code, identification, manufacturer, version, medium, counters and states are the bytes received, and fill bytes are not records.",
  over=["inputs"], forall="every control and control information byte, every length and content of user data",
  tests=GOLD + "almost all carry variable data with a complete header.",
  files=[PR], mech=[("dispatch", PR + ": mbus_frame_data_parse"), ("fixed data", PR + ": mbus_data_fixed_parse"), ("variable data", PR + ": mbus_data_variable_parse"), ("direction", PR + ": mbus_frame_direction")], technique="abstract interpretation with symbolic byte equalities", note=NOTE),
 dict(id="P13", title="Numbers, BCD, dates and texts decode to what was transmitted",
  statement="Every integer, BCD number, floating point number, date, time and text decodes to exactly the value its bytes encode, for every width including negative values and the absent value; the value text of a record is that value written out. Encoding integers and BCD numbers is the inverse of decoding them.",
  over=["inputs"], forall="every width, every content of the data bytes and every date field",
  tests=GOLD + "each width and sign is met with a few values only, and out-of-range digits, negative wide values and many date forms never.",
  files=[PR, AX], mech=[("decoders", PR + ": mbus_data_int_decode, mbus_data_bcd_decode, mbus_data_tm_decode, mbus_data_str_decode"), ("record value", PR + ": mbus_data_record_value"), ("normalized value", AX + ": mbus_variable_value_decode")], technique="abstract interpretation with symbolic linear values and symbolic texts", note=NOTE),
 dict(id="P12", title="Units and powers of ten follow the code tables of the standard",
  statement="For every value information code, including both extension tables, text units, the correcting extensions and the codes of fixed data, the unit text and the normalized unit, quantity and value are those of the M-Bus standard: the number transmitted times the power of ten the code stands for. Extensions that correct nothing leave the value alone.",
  over=["inputs"], forall="every value information byte with and without extension, every first extension byte, and every fixed data unit code",
  tests=GOLD + "a few dozen of the several hundred codes occur in them, and hardly any correcting extension.",
  files=[AX, PR], mech=[("code table", AX + ": vif_table, fixed_table"), ("normalization", AX + ": mbus_vib_unit_normalize"), ("unit text", PR + ": mbus_vib_unit_lookup, mbus_unit_prefix, mbus_data_fixed_unit")], technique="abstract interpretation, exhaustive over code values, against an independent table of the standard", note=NOTE),
 dict(id="P09", title="A readout asks, repeats and collects answers as the protocol demands",
  statement="A readout asks with the frame count bit set at first and toggled only after an accepted telegram that announces a following one; after a missing or damaged answer it repeats the same request at most the configured number of times. It stops at an error, at the given number of telegrams (none given: no limit) or at the last telegram, hands back the telegrams received in order, reports success exactly when the readout is complete, and loses no memory.",
  over=["inputs", "histories", "fault_sequences"], forall="every sequence of answers, timeouts, damaged frames and transport errors, every retry setting and telegram limit, and every allocation failure",
  tests="No stable test talks to a bus, real or simulated.",
  files=[AX], mech=[("readout", AX + ": mbus_sendrecv_request"), ("emptying the bus", AX + ": mbus_purge_frames")], technique="abstract interpretation with ghost protocol state over arbitrary answer histories", note=NOTE),
 dict(id="P10", title="Selecting, probing and reading a slave report what the bus answered",
  statement="Selecting or probing a secondary address reports a single device, a collision, no device or an error exactly as the answers on the bus say, and a broken connection is never taken for an absent device. The address reported for a probed device is the one it sent, and invalid address masks are refused without using the bus.",
  over=["inputs", "histories", "fault_sequences"], forall="every address mask and every sequence of answers, timeouts, damaged frames and transport errors",
  tests="No stable test talks to a bus, real or simulated.",
  files=[AX], mech=[("selection", AX + ": mbus_select_secondary_address"), ("probing", AX + ": mbus_probe_secondary_address"), ("reading", AX + ": mbus_read_slave")], technique="abstract interpretation with ghost protocol state over arbitrary answer histories", note=NOTE),
 dict(id="P11", title="The secondary address scan searches the whole wildcard tree",
  statement="A scan of secondary addresses probes every decimal digit at each wildcard position, refines exactly where devices collide, and leaves fixed digits as given, so every device the probes can tell apart is reported exactly once. An error ends the scan and is reported; the mask given is left unchanged and no memory is lost.",
  over=["inputs", "histories", "fault_sequences"], forall="every mask, start position and outcome of every probe, and every allocation failure",
  tests="No stable test talks to a bus, real or simulated.",
  files=[AX], mech=[("scan", AX + ": mbus_scan_2nd_address_range")], technique="abstract interpretation of one level of the recursion, induction on the position", note=NOTE),
 dict(id="P20", title="Every command sends exactly the frame it stands for, once",
  statement="Each request, ping, reset, baudrate switch, address change, user data and selection command sends one frame whose kind, control, address, control information, length and data are those of the command and its arguments. Arguments outside their range are refused with nothing sent, and a frame that could not be built or sent is reported by the result -1.",
  over=["inputs", "fault_sequences"], forall="every address, mask, baudrate, subcode and user data, every failure of the transport and of memory allocation",
  tests="No stable test sends a frame.",
  files=[AX, PR], mech=[("commands", AX + ": mbus_send_request_frame, mbus_send_ping_frame, mbus_send_user_data_frame, mbus_send_application_reset_frame, mbus_send_switch_baudrate_frame, mbus_set_primary_address, mbus_send_select_frame"), ("selection frame", PR + ": mbus_frame_select_secondary_pack")], technique="abstract interpretation with symbolic byte equalities", note=NOTE),
 dict(id="P28", title="Echoed own frames are skipped once, and stale frames drained",
  statement="When a connection is set to skip frames of one direction at the start (the echo of own frames), the first frame received is skipped exactly when it was received intact and has that direction, and the next one is handed over; any other frame and any reception error reaches the caller unchanged. Emptying the bus reads until nothing comes any more, and tells whether anything came.",
  over=["inputs", "histories", "fault_sequences"], forall="every sequence of frames and reception errors and every purge setting",
  tests="No stable test receives a frame from a bus, real or simulated.",
  files=[AX], mech=[("receiving", AX + ": mbus_recv_frame"), ("emptying the bus", AX + ": mbus_purge_frames")], technique="abstract interpretation with ghost protocol state over arbitrary receptions", note=NOTE),
 dict(id="P16", title="Connections open one descriptor, close it once, and fail cleanly",
  statement="Connecting opens the device or host and port of the handle (for a host, each of its addresses in turn until one accepts); if it fails at any step, every descriptor and address list obtained is released and the handle is left unconnected. Disconnecting closes the descriptor exactly once, and disconnecting again is refused.",
  over=["histories", "fault_sequences"], forall="every history of connecting and disconnecting and every failure of every system call",
  tests="No stable test opens a connection.",
  files=[SE, TC], mech=[("serial line", SE + ": mbus_serial_connect, mbus_serial_disconnect"), ("TCP", TC + ": mbus_tcp_connect, mbus_tcp_disconnect")], technique="abstract interpretation with typestate of descriptors", note=NOTE),
 dict(id="P17", title="Sending writes the packed frame completely and once, or fails",
  statement="Sending a frame hands exactly its packed bytes to the connection, once. It succeeds exactly when all of them were taken, and only then announces them to the send callback; a frame that cannot be packed is not sent at all.",
  over=["inputs", "fault_sequences"], forall="every frame, every result of writing including partial writes, with and without callback",
  tests="No stable test sends a frame.",
  files=[SE, TC], mech=[("serial line", SE + ": mbus_serial_send_frame"), ("TCP", TC + ": mbus_tcp_send_frame")], technique="abstract interpretation with typestate of the transfer", note=NOTE),
 dict(id="P18", title="Receiving reads exactly one frame and reports what happened",
  statement="Receiving asks for exactly the bytes the frame still lacks until it is complete, invalid, timed out or the connection fails, keeps them in order and never reads into the next frame or past its buffer. The result tells these cases apart, an interrupted read is resumed on TCP, and the receive callback gets exactly the bytes received, once.",
  over=["inputs", "schedules", "fault_sequences"], forall="every way the bytes of a frame arrive in pieces, with silence and read errors in between",
  tests="No stable test receives a frame.",
  files=[SE, TC], mech=[("serial line", SE + ": mbus_serial_recv_frame"), ("TCP", TC + ": mbus_tcp_recv_frame")], technique="abstract interpretation with typestate of the transfer and linear relations over lengths", note=NOTE),
 dict(id="P19", title="Handles hold their defaults and exactly the settings accepted",
  statement="A new handle is unconnected, has the documented defaults and its own copy of the device or host name, and can be freed without losing memory. Options, callbacks, line speed (with its waiting time) and timeout are accepted exactly within their ranges and are then in force; a refused one changes nothing. The last error text is the one set.",
  over=["inputs", "fault_sequences"], forall="every name, port, option, value and line speed, and every allocation failure",
  tests="No stable test makes a handle.",
  files=[AX, SE, TC], mech=[("handles", AX + ": mbus_context_serial, mbus_context_tcp, mbus_context_free"), ("options", AX + ": mbus_context_set_option"), ("line speed", SE + ": mbus_serial_set_baudrate"), ("timeout", TC + ": mbus_tcp_set_timeout_set")], technique=AI, note=NOTE),
 dict(id="P21", title="Hexadecimal text becomes exactly the bytes it spells",
  statement="Hexadecimal text, with or without blanks between the pairs of digits, becomes the bytes its pairs spell, in upper or lower case. Conversion ends at the first thing that is not a pair of digits and when the room given is full; nothing outside the text is read or outside the room written, the rest of the room is cleared, and the number of bytes is returned.",
  over=["inputs"], forall="every text of any length and content, terminated or not, and every size of destination",
  tests="The stable tests convert well-formed lower and upper case files with single blanks into ample room only.",
  files=[AX], mech=[("conversion", AX + ": mbus_hex2bin")], technique=AI, note=NOTE),
 dict(id="P22", title="Storage number, tariff, device, function and names follow the codes",
  statement="The storage number, tariff, device unit and function of a record are those spread over its information bytes, for every number of extensions, and absent where none was sent. Device types, media, application errors, stored or actual values and manufacturer codes have the names and numbers the standard gives them.",
  over=["inputs"], forall="every data information field with any number of extensions, every device type, medium, error code and manufacturer code",
  tests=GOLD + "chains of more than two extensions, most device types and all error codes are missing.",
  files=[PR], mech=[("record fields", PR + ": mbus_data_record_storage_number, mbus_data_record_tariff, mbus_data_record_device, mbus_data_record_function"), ("names", PR + ": mbus_data_variable_medium_lookup, mbus_data_fixed_medium, mbus_data_error_lookup"), ("manufacturer", PR + ": mbus_manufacturer_id")], technique="abstract interpretation with symbolic bit fields; exhaustive over code tables", note=NOTE),
 dict(id="P23", title="Addresses are recognised and reported exactly",
  statement="A number is a primary address exactly from 0 to 255, and a text is a secondary address exactly when it is sixteen hexadecimal digits. The secondary address reported for a device is the text of the identification number, manufacturer, version and medium it sent; an answer that carries none, or cannot be read, has none.",
  over=["inputs", "fault_sequences"], forall="every number, every text of any characters and length, every answer, every allocation failure",
  tests="No stable test looks at addresses.",
  files=[PR], mech=[("recognition", PR + ": mbus_is_primary_address, mbus_is_secondary_address"), ("reported address", PR + ": mbus_frame_get_secondary_address")], technique="abstract interpretation with symbolic texts", note=NOTE),
 dict(id="P08", title="Everything allocated is owned once and freed exactly once",
  statement="Frames, data, record lists, normalized records and the XML texts rendered from them are freed completely by freeing their owner, on success and on every error, and nothing is freed twice or used after it was freed. Rendering a chain of telegrams reads and shows each record of each telegram once.",
  over=["inputs", "fault_sequences"], forall="every telegram, chain of telegrams and record list, every parse error and every allocation failure at any place",
  tests="No stable test fails an allocation or looks for leaks.",
  files=[PR, AX], mech=[("frames and data", PR + ": mbus_frame_free, mbus_frame_data_free, mbus_data_record_free, mbus_data_record_append"), ("chains", PR + ": mbus_frame_xml"), ("normalized records", AX + ": mbus_parse_variable_record, mbus_parse_fixed_record, mbus_record_free")], technique="abstract interpretation with heap ownership (typestate of every allocation)", note=NOTE),
 dict(id="P14", title="Reading telegrams, records and texts never changes them",
  statement="Parsing leaves the bytes given, interpreting leaves the frame, rendering as XML, normalizing and printing leave the frames, data and records given exactly as they were.",
  over=["inputs"], forall="every telegram, data and record of any content, and every allocation failure",
  tests="No stable test looks at its input after use.",
  files=[PR, AX], mech=[("parsing", PR + ": mbus_parse"), ("interpretation", PR + ": mbus_frame_data_parse"), ("rendering", PR + ": mbus_frame_data_xml, mbus_frame_xml"), ("normalization", AX + ": mbus_parse_variable_record")], technique="abstract interpretation with read-only objects", note=NOTE),
 dict(id="P15", title="The library never ends the program nor writes to its output unasked",
  statement="No function of the library ends the program, whatever it is given or the connection does. Nothing is written to standard output unless asked for by printing, by debug output, or by scanning without a callback for the devices found.",
  over=["inputs", "histories", "fault_sequences"], forall="every telegram, argument, history of the connection and allocation failure",
  tests="No stable test looks for it.",
  files=[PR, AX, SE, TC], mech=[("library", PR + ": all functions"), ("protocol and normalization", AX + ": all functions"), ("scan output", AX + ": mbus_scan_2nd_address_range")], technique="abstract interpretation with effects (process end, standard output)", note=NOTE),
 dict(id="P29", title="Printing, dumping and debug output read only what is there",
  statement="Printing frames and data, dumping bytes and the debug output of parsing access only the object given, whatever its content, terminate, and have the documented result. Parsing prints debug output when that is switched on, and only then.",
  over=["inputs"], forall="every frame, data, record list, buffer of any length and label",
  tests="No stable test prints.",
  files=[PR], mech=[("printing", PR + ": mbus_frame_print, mbus_frame_data_print, mbus_data_variable_print, mbus_data_fixed_print"), ("dumping", PR + ": mbus_hex_dump")], technique=AI, note=NOTE),
 dict(id="P24", title="Command line tools do what was asked, step by step, and report failure",
  statement="Every command line tool uses exactly the device, host, port, line speed (9600 unless given), address, subcode, retries and telegram limit (16 unless given) of its command line, in every form of it, and contacts nothing when it cannot be served: wrong number of arguments, port outside 0 to 65535, malformed secondary address, new primary address no device may have. It goes on only while each step succeeds (a secondary address must select exactly one device, then spoken to at address 253; a new primary address must stay silent when pinged); when a step fails or no reply is received it ends with non-zero status, sending and showing nothing further, otherwise with zero. The reply is shown completely; a scan tries each primary address from 0 to 250 (again after silence, as often as asked) and reports exactly those that acknowledge as found, and those that answer disturbed or more than once as collisions; the traffic is dumped with -d and only then.",
  over=["inputs", "histories", "fault_sequences"], forall="every form of the command line of each of the 14 tools and every outcome of every step",
  tests="No stable test runs a tool against a bus.",
  files=TOOLS, mech=[("reading a device", "bin/mbus-serial-request-data.c, bin/mbus-tcp-request-data.c and their multi-reply forms: main"), ("scanning", "bin/mbus-serial-scan.c, bin/mbus-tcp-scan.c: main, ping_address; bin/mbus-serial-scan-secondary.c, bin/mbus-tcp-scan-secondary.c: main"), ("commands", "bin/mbus-serial-set-address.c, bin/mbus-serial-switch-baudrate.c, bin/mbus-tcp-application-reset.c, bin/mbus-tcp-raw-send.c, bin/mbus-serial-select-secondary.c, bin/mbus-tcp-select-secondary.c: main")], technique="abstract interpretation with ghost protocol state over every command line form and outcome", note=NOTE),
 dict(id="P27", title="XML shows every record once, in order, with the fields decoded",
  statement="The XML of a telegram or chain of telegrams shows the device and every record once, in order and numbered through, with its function, storage number, tariff, device unit, unit, value and time of receipt; that of fixed data shows both counters, binary or BCD as their status says, and that of an error its name. A normalized record carries the same fields with the scaled value, or is left empty if it cannot be read.",
  over=["inputs"], forall="every content of every field of records, headers, fixed data and errors, and every list and chain of up to three",
  tests=GOLD + "chains of telegrams, times of receipt, normalized records that cannot be read and most combinations of fields are missing.",
  files=[PR, AX], mech=[("record", PR + ": mbus_data_variable_record_xml"), ("device", PR + ": mbus_data_variable_header_xml"), ("chain", PR + ": mbus_frame_xml"), ("fixed data", PR + ": mbus_data_fixed_xml"), ("normalized", AX + ": mbus_data_variable_xml_normalized, mbus_parse_variable_record, mbus_parse_fixed_record")], technique="abstract interpretation with symbolic texts", note=NOTE),
 dict(id="P32", title="Results do not depend on what was processed before",
  statement="Every text, number, record, frame and result a call of the library gives is determined by its arguments and the connection alone: nothing that earlier calls left in the library's internal buffers and variables shows through, and no call alters its tables of units and factors. Kept by design, and only handed out or obeyed, are the text of the last error, the register of slave states, the TCP timeout and whether parsing prints debug output.",
  over=["histories"], forall="every sequence of earlier calls, whatever they processed, before any call of decoding, rendering, packing, transport, bus protocol or search",
  tests=GOLD + "each in a process of its own, so nothing is ever left over from a telegram before.",
  files=[PR, AX, SE, TC], mech=[("texts in static buffers", PR + ": mbus_data_record_value, mbus_data_record_unit, mbus_vif_unit_lookup, mbus_vib_unit_lookup, mbus_data_variable_record_xml, mbus_decode_manufacturer, mbus_frame_get_secondary_address"), ("unit tables", AX + ": vif_table, fixed_table, mbus_vif_unit_normalize, mbus_vib_unit_normalize")], technique="abstract interpretation with the statics of the library left undefined by an unknown history", note=NOTE),
]
NOT_APPLICABLE = [
 dict(id="P30", title="A transaction takes no longer than the standard's waiting times allow",
  statement="A request to a silent device ends within the waiting times configured, retries included, and no request follows another sooner than the devices can bear.",
  over=["schedules"], forall="every timing of devices, operating system and line",
  tests="No stable test talks to a bus.", files=[SE, TC, AX], mech=[("waiting", SE + ": mbus_serial_recv_frame; " + TC + ": mbus_tcp_recv_frame")],
  reason="elapsed time is a quantity of the run: it depends on the kernel, the line and the device, and no construct in the source bounds it; what the source does decide (the limits requested from the system, how often a read or request is repeated) is part of P09, P18 and P19"),
 dict(id="P31", title="Decimal texts of real values are the nearest to the value sent",
  statement="The decimal text of every real value differs from the exact value of the field sent by at most half a unit of its last digit.",
  over=["inputs"], forall="every 32-bit real, scale and format",
  tests=GOLD + "few of them contain real values.", files=[PR, AX], mech=[("reals", PR + ": mbus_data_float_decode; " + AX + ": mbus_parse_variable_record")],
  reason="rounding happens in the processor and in the C library's formatting; the analysis abstracts doubles to symbolic terms (P02, P13 and P12 decide which value is decoded, scaled and handed to which format) and has no sound bound on accumulated rounding"),
]
