import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
PC='mbus/mbus-protocol.c';AUX='mbus/mbus-protocol-aux.c';SER='mbus/mbus-serial.c';TCP='mbus/mbus-tcp.c'
NOCOMM='The existing tests only feed one complete telegram from a hex file to the parser and compare the XML; no test opens a transport, so '
p('C01','A byte string is accepted as a telegram exactly when it is a well-formed one',
 'For every byte string, the telegram parser reports success exactly when the string is an acknowledgement byte (trailing bytes after it are ignored) or a complete short, control or long telegram with valid start, length, control, checksum and stop bytes, and then reports exactly the type and field values that were in the bytes. For a string that is a proper prefix of what its start and length bytes announce it reports exactly how many more bytes are needed to reach that next decision point, and for every other string it reports an error. It never needs bytes beyond those given.',
 ['inputs'],'all byte strings of length 0..300, all values of every byte',
 'The tests parse a hundred complete recorded telegrams and a few damaged ones; they never check the reported missing count, and cannot enumerate the corrupted variants of each field.',
 [PC],[('mbus_parse','mbus-protocol.c:mbus_parse'),('mbus_frame_verify','mbus-protocol.c:mbus_frame_verify')],['return value of mbus_parse','mbus_frame fields'])
p('C02','Encoding a telegram yields the wire image that decodes to the same telegram',
 'For every telegram of each type, encoding it into a buffer that is large enough writes exactly the wire image defined by its fields, with the length and checksum bytes computed, and returns its length; decoding that image yields the same telegram. If the buffer is too small, or the telegram has no known type, a negative value is returned and nothing is written outside the buffer. Verification accepts every telegram so encoded that carries a permitted control code and rejects it once any start, length, control, checksum or stop field is altered.',
 ['inputs'],'all frame types, control/address/CI values, payload lengths 0..252, payload bytes, and buffer sizes',
 'Nothing in the tests encodes a telegram.',
 [PC],[('mbus_frame_pack','mbus-protocol.c:mbus_frame_pack'),('calc_checksum, calc_length','mbus-protocol.c'),('mbus_frame_verify','mbus-protocol.c')],['bytes written by mbus_frame_pack','return values'])
p('C03','A receive is independent of segmentation and consumes just that telegram',
 'For every byte stream arriving on the TCP or serial transport, however it is split into reads and whatever interruptions occur, one receive call yields OK with the first telegram of the stream and leaves every later byte unread, INVALID when the bytes cannot become a telegram, and otherwise the outcome of the transport event that stopped it. On TCP a receive timeout yields TIMEOUT, end of stream RESET and any other read failure ERROR, while an interrupted read is retried; on serial a silent line yields TIMEOUT, a line that falls silent three times within a telegram yields INVALID, a read failure yields ERROR and so does a device that is not a terminal.',
 ['inputs','schedules','fault_sequences'],'all streams, all segmentations into reads, all placements of timeouts, interrupts, errors and end of stream',
 NOCOMM+'no partial read, timeout or failure is ever exercised.',
 [TCP,SER,PC],[('mbus_tcp_recv_frame','mbus-tcp.c'),('mbus_serial_recv_frame','mbus-serial.c'),('mbus_parse','mbus-protocol.c')],['result of mbus_recv_frame / transport receive','bytes left on the transport'])
p('C04','Transmission is exact and traffic callbacks report exactly what was transferred',
 'Sending a telegram puts exactly its wire image on the transport, once, and then reports exactly those bytes once to the registered send callback; when the telegram cannot be encoded or the write fails or is short, the call returns an error and the send callback is not invoked. Every receive that consumed a complete or invalid telegram reports exactly the consumed bytes once to the registered receive callback, and a receive that got no data reports nothing. Callbacks carry the transport kind, and none is needed for operation.',
 ['inputs','fault_sequences','histories'],'all frames, both transports, all write outcomes, all receive outcomes, callbacks registered or not',
 NOCOMM+'callbacks and write failures are never exercised.',
 [TCP,SER,AUX],[('mbus_tcp_send_frame','mbus-tcp.c'),('mbus_serial_send_frame','mbus-serial.c'),('send_event/recv_event','mbus-tcp.c, mbus-serial.c')],['bytes written','callback arguments'])
p('C05','Echoed telegrams are skipped and purging drains the transport',
 'With the echo option set to master-to-slave (the default) or slave-to-master, a receive call discards at most one leading valid telegram of that direction and returns the outcome and content of the next one, while with the option off, or for a telegram of the other direction, the first telegram is returned unchanged. Purging keeps receiving (each receive discarding an echo) until the transport reports silence or failure, reports whether anything but discarded echoes had been received, and always terminates on a transport that falls silent. Every successfully received telegram carries its reception time.',
 ['histories','configurations','fault_sequences'],'all sequences of telegrams, garbage and timeouts, all three option values, both transports',
 NOCOMM+'echo cancellation and purging are never executed.',
 [AUX],[('mbus_recv_frame','mbus-protocol-aux.c'),('mbus_purge_frames','mbus-protocol-aux.c'),('mbus_frame_direction','mbus-protocol.c')],['telegram and result returned','number of telegrams consumed'])
p('C06','Each request emits exactly its telegram, or nothing if its arguments are invalid',
 'Each request operation (data request, ping, user data, application reset, baud rate switch, set primary address, select by secondary address) transmits exactly one telegram whose control, address, control-information and data bytes are those M-Bus prescribes for that request and its arguments. Arguments outside the permitted range (primary addresses 0..255, new primary address also not a network-layer or broadcast address, supported baud rates, subcode up to one byte, 1..252 data bytes, 16 hexadecimal digits) make the call report failure without transmitting anything, and so does a failing transport.',
 ['inputs','configurations'],'all argument values, both transports, failing and working writes',
 NOCOMM+'none of the request builders is executed by any test.',
 [AUX,PC],[('mbus_send_*_frame','mbus-protocol-aux.c'),('mbus_set_primary_address','mbus-protocol-aux.c'),('mbus_frame_select_secondary_pack','mbus-protocol.c')],['bytes written','return value'])
p('C07','Selecting a secondary address classifies the bus reaction correctly',
 'A selection reports SINGLE exactly when one acknowledgement and nothing else follows the select telegram, COLLISION when the reaction is not a valid telegram or anything (but a discarded echo) follows the acknowledgement, NOTHING when the bus stays silent or answers with a valid telegram that is not an acknowledgement, and ERROR when the mask is not a valid 16-digit address or the transport fails while the selection is sent or its answer received. After COLLISION, or an acknowledgement, the transport has been drained.',
 ['histories','fault_sequences'],'all reactions of the bus: silence, acknowledgements, garbage, other telegrams, transport failures, combinations; all masks',
 NOCOMM+'no selection is ever executed.',
 [AUX],[('mbus_select_secondary_address','mbus-protocol-aux.c')],['result of mbus_select_secondary_address'])
p('C08','Probing finds a device exactly when one device answers, with bounded retries',
 'A probe repeats the selection only while nothing answers and at most the configured number of extra times, and requests data only after exactly one device acknowledged. It reports SINGLE exactly when that request is then answered by one valid variable-data telegram and nothing more; it then delivers the secondary address contained in the answer and notifies the found callback exactly once with that telegram. Otherwise it reports NOTHING, COLLISION or ERROR as the bus reaction or a transport failure dictates, without a found notification.',
 ['histories','fault_sequences','configurations'],'all reaction sequences over all attempts, retry settings 0..9, both transports',
 NOCOMM+'no probe is ever executed.',
 [AUX],[('mbus_probe_secondary_address','mbus-protocol-aux.c'),('mbus_frame_get_secondary_address','mbus-protocol.c')],['result, matching address, found callback, telegrams sent'])
p('C09','A secondary scan finds every matching device exactly once and terminates',
 'Over a population of devices with pairwise different decimal secondary addresses that answer selections as specified (every F digit of either case a wildcard), a secondary scan from any starting mask without a wildcard before its start position reports every device matching the mask exactly once and no other, however simultaneous answers overlap (short of forming another valid telegram), and terminates after probing only masks that refine the starting mask. The position before which the mask is fixed is never varied, progress is notified once per probed mask before it is probed, and a transport failure aborts the whole scan with an error.',
 ['histories','configurations','fault_sequences'],'all populations, all masks and start positions, all collision superpositions, transport failures at any probe',
 NOCOMM+'no scan is ever executed.',
 [AUX,'bin/mbus-serial-scan-secondary.c','bin/mbus-tcp-scan-secondary.c'],[('mbus_scan_2nd_address_range','mbus-protocol-aux.c'),('mbus_probe_secondary_address','mbus-protocol-aux.c')],['found callbacks','progress callbacks','telegrams sent','return value'])
p('C10','A multi-telegram readout obtains every telegram once, in order, despite losses',
 'Against a slave that honours the frame count bit (repeating its last telegram on an unchanged bit, advancing on a toggled one), a readout returns the complete chain of telegrams in order, without loss or duplication, whenever requests or answers are lost or damaged no more than the retry limit in a row. The request repeats the frame count bit exactly when the previous answer was lost or invalid, toggles it after every valid answer, starts with it set, and never changes anything else.',
 ['histories','fault_sequences','schedules'],'all losses and corruptions of requests and answers, answers so late that they arrive while the repeated request is answered, all telegram counts, all retry limits',
 NOCOMM+'no readout is ever executed.',
 [AUX],[('mbus_sendrecv_request','mbus-protocol-aux.c'),('mbus_purge_frames','mbus-protocol-aux.c')],['telegrams sent','reply chain','return value'])
p('C11','A readout stops where it must: end of data, frame limit, or exhausted retries',
 'A readout continues after a valid answer exactly when that answer announces more records and the frame limit (no limit when not positive) is not reached, and returns success after the last one. After more consecutive timeouts or invalid answers than the configured retries, after a transport failure, or after an answer whose data cannot be decoded it stops and reports failure. It always terminates against a slave that eventually stops announcing more records, leaves a reply chain that the caller can release, and never corrupts memory, whatever the slave answers.',
 ['histories','fault_sequences','configurations'],'all answer sequences (variable, fixed, error, undecodable, acknowledgement, garbage, timeout, failure), limits and retries',
 NOCOMM+'no readout is ever executed.',
 [AUX],[('mbus_sendrecv_request','mbus-protocol-aux.c'),('mbus_frame_data_parse','mbus-protocol.c')],['telegrams sent','reply chain','return value','allocation balance'])
p('C12','Reading one slave addresses only that slave and succeeds only on its answer',
 'Reading a slave by primary address sends exactly one data request to that address; by secondary address it selects it first and sends the data request to the network-layer address only if exactly one device acknowledged. It reports success exactly when a valid telegram then arrives, returning that telegram, and failure in every other case, including collisions, silence, an invalid address and transport failures.',
 ['histories','fault_sequences','inputs'],'all addresses, all bus reactions at both stages',
 NOCOMM+'it is never executed.',
 [AUX],[('mbus_read_slave','mbus-protocol-aux.c'),('mbus_select_secondary_address','mbus-protocol-aux.c')],['telegrams sent','return value and reply'])
p('C13','Variable data is segmented into exactly the records encoded in it',
 'For every variable-data payload, decoding either fails, or yields the header fields and, in order, one record for each data record encoded after the header (idle fillers skipped, a manufacturer-specific or more-records-follow block taking the rest of the payload), each with exactly its information fields, extensions, plain-text unit and data bytes. It fails exactly when a record runs past the end of the payload, has more extensions than allowed, announces a plain-text unit of more than 128 characters, or the header is incomplete, and never reads or writes outside the payload and the record. More-records-follow is reported exactly when such a block is present.',
 ['inputs'],'all payloads of 0..252 bytes',
 'The tests sample about a hundred recorded telegrams; truncations at every byte, extension limits and every length code are not covered.',
 [PC],[('mbus_data_variable_parse','mbus-protocol.c'),('mbus_frame_data_parse','mbus-protocol.c'),('mbus_dif_datalength_lookup','mbus-protocol.c')],['mbus_data_variable contents','return value'])
p('C14','Function, storage number, tariff and device unit of a record are decoded exactly',
 'For every record the reported storage number, tariff and device unit are the numbers composed of the corresponding bits of the information field and all of its (up to ten) extensions, least significant first; tariff and device are reported exactly when at least one extension is present. The reported function is determined by the two function bits alone.',
 ['inputs'],'all information fields with 0..10 extensions',
 'Recorded telegrams use at most a few extensions, so high-order parts are never checked.',
 [PC,AUX],[('mbus_data_record_storage_number','mbus-protocol.c'),('mbus_data_record_tariff','mbus-protocol.c'),('mbus_data_record_device','mbus-protocol.c'),('mbus_data_record_function','mbus-protocol.c')],['return values','XML fields'])
p('C15','The value of a record is rendered exactly as encoded',
 'For every data coding (1..8 byte two\'s-complement integers, 2..12 digit BCD with sign, 32-bit real, dates and times of types F, G and I, text, binary) and every valid content (no non-decimal digits in BCD, no NaN), the value text of a record is the decimal number, date, time, reversed text up to a NUL, or reversed hexadecimal dump that the bytes encode. BCD of an error record shows its hexadecimal digits, and manufacturer specific data is dumped in transmission order. The same holds for the value and text of the normalized record before unit scaling.',
 ['inputs'],'all codings and all byte contents',
 'The tests cover the values that happen to be in the recorded telegrams; sign, range and invalid-digit boundaries are not covered.',
 [PC,AUX],[('mbus_data_record_decode','mbus-protocol.c'),('mbus_variable_value_decode','mbus-protocol-aux.c'),('mbus_data_*_decode','mbus-protocol.c')],['mbus_data_record_value','mbus_record fields'])
p('C16','Unit, quantity and scale of a record follow the M-Bus value information tables',
 'For every value information field and extension, the normalized record carries the quantity and base unit that the M-Bus standard assigns to that code and the value multiplied by the assigned power of ten (or unit conversion factor), with the standard multiplicative and additive correction in the first extension of a primary code applied, so that the normalized value and the plain unit text denote the same physical quantity. A code the library does not know is reported as failure or as unrecognised, never with another code\'s unit.',
 ['inputs'],'all primary codes and all codes of both extension tables, with correction extensions, all values',
 'The recorded telegrams use a fraction of the roughly 380 codes; most table rows are never exercised.',
 [AUX,PC],[('vif_table, mbus_vif_unit_normalize, mbus_vib_unit_normalize','mbus-protocol-aux.c'),('mbus_vib_unit_lookup and helpers','mbus-protocol.c')],['mbus_record unit/quantity/value','mbus_data_record_unit'])
p('C17','Fixed data telegrams decode to both counters with their units',
 'For every 16-byte fixed-data payload the decoded identification, access number, status, medium, and both counters (BCD or binary as the status says, stored or actual) are those encoded, the unit of each counter is the one the M-Bus standard assigns to its code, and the normalized counter is the value times the power of ten of that unit. Payloads of any other length are rejected.',
 ['inputs'],'all 16-byte payloads and all other lengths',
 'Only a handful of fixed-data telegrams are recorded.',
 [PC,AUX],[('mbus_data_fixed_parse, mbus_data_fixed_xml, mbus_data_fixed_unit, mbus_data_fixed_medium','mbus-protocol.c'),('fixed_table, mbus_parse_fixed_record','mbus-protocol-aux.c')],['XML','mbus_record'])
p('C18','The XML of any reply or chain of replies is well formed and complete',
 'For every telegram or chain of telegrams whose data decodes, the generated XML is a well-formed document with the slave information of the first telegram and one data record per decoded record of every telegram, numbered consecutively and, in a chain, labelled with its telegram number, whatever characters and lengths the data contains. If the data of any telegram does not decode, no document is produced. Only variable data contributes records, and a chain that starts with error or fixed data renders just that. The caller\'s buffers and the heap stay intact, and nothing is leaked, for every input.',
 ['inputs','histories'],'all payloads, all chains of telegrams of all kinds',
 'Tests render single recorded telegrams only; chains, escapes, very long documents and undecodable members are never rendered.',
 [PC,AUX],[('mbus_frame_xml','mbus-protocol.c'),('mbus_data_variable_xml, mbus_data_variable_record_xml','mbus-protocol.c'),('mbus_str_xml_encode','mbus-protocol.c'),('mbus_frame_data_xml_normalized','mbus-protocol-aux.c')],['XML text','allocation balance'])
p('C19','Secondary addresses translate faithfully between text and telegram',
 'The address text obtained from a variable-data telegram consists of the sixteen hexadecimal digits of its identification, manufacturer, version and medium, and selecting with that text produces a selection telegram whose eight bytes equal the first eight bytes of that telegram\'s data. Every 16-digit hexadecimal text, upper or lower case and with F wildcards, translates to exactly the bytes of its digits, and every other text is rejected.',
 ['inputs'],'all telegrams, all texts',
 'The tests never translate an address.',
 [PC],[('mbus_frame_get_secondary_address','mbus-protocol.c'),('mbus_frame_select_secondary_pack','mbus-protocol.c'),('mbus_is_secondary_address','mbus-protocol.c')],['address text','selection telegram'])
p('C20','A connection handle owns exactly one descriptor and accepts only valid options',
 'Over any sequence of create, connect, disconnect, set option and free, on working or failing transports, the library closes each descriptor it opened at most once and never one it did not open, disconnecting without an established connection fails without side effect, and every operation on a missing handle fails. (A connected handle is not connected again.) An option is accepted exactly when its value is in its documented range, takes effect exactly then, and a rejected value changes nothing.',
 ['histories','fault_sequences','configurations'],'all call sequences, all failures of open/socket/connect, all option values',
 NOCOMM+'no handle is created by any test.',
 [AUX,SER,TCP],[('mbus_context_serial/tcp/free, mbus_connect, mbus_disconnect, mbus_context_set_option','mbus-protocol-aux.c'),('connect/disconnect','mbus-serial.c, mbus-tcp.c')],['descriptors opened/closed','return values','retry behaviour'])
p('C21','The serial line is configured as M-Bus requires at every supported rate',
 'After connecting, the serial line is set to 2400 baud, 8 data bits, even parity, receiver on, modem lines ignored, with reads that return after a bounded wait; setting a supported baud rate (300 to 38400) applies that rate in both directions together with the response timeout belonging to it and changes nothing else. An unsupported rate, or a refusal by the device, is reported as failure, and an unsupported rate leaves the line untouched.',
 ['inputs','histories','fault_sequences'],'all rates and sequences of rates, refusals by the device',
 NOCOMM+'no serial device is ever opened.',
 [SER],[('mbus_serial_connect','mbus-serial.c'),('mbus_serial_set_baudrate','mbus-serial.c')],['line settings applied'])
p('C22','Hexadecimal text converts to exactly the bytes it spells',
 'Converting hexadecimal text yields the bytes spelled by its successive digit pairs, ignoring white space between pairs, and stops at the first pair that is not two hexadecimal digits or when the destination is full. It never writes beyond the destination nor reads beyond the source, and clears the unused rest of the destination.',
 ['inputs'],'all texts, all buffer sizes',
 'The test program converts only well-formed recorded text.',
 [AUX],[('mbus_hex2bin','mbus-protocol-aux.c')],['return value and buffer'])
p('C23','A primary scan lists exactly the addresses that answer',
 'The primary scan programs ping every address 0 to 250 once, plus at most the requested retries while it stays silent, and list an address as a device exactly when its ping was answered by one acknowledgement and nothing else, as a collision when the answer is not a valid telegram or anything follows it, and not at all otherwise (a single valid telegram that is no acknowledgement included). What one address answered is never attributed to another, and a failure of the transport never makes an address appear as a device.',
 ['histories','fault_sequences','configurations'],'all populations of primary addresses, all reactions, retry settings, transport failures at any point',
 NOCOMM+'no program is ever run.',
 ['bin/mbus-serial-scan.c','bin/mbus-tcp-scan.c',AUX],[('main, ping_address','bin/mbus-*-scan.c'),('mbus_send_ping_frame, mbus_purge_frames','mbus-protocol-aux.c')],['standard output','telegrams sent','exit status'])
p('C24','Setting a primary address never creates a duplicate address',
 'The address-setting program sends the set-address telegram only after pinging the new address and getting no answer at all, only to the primary address given or to the one device that acknowledged the secondary address given, and never with a reserved new address. It announces success, and exits successfully, exactly when the answer to that telegram begins with an acknowledgement.',
 ['histories','fault_sequences','inputs'],'all arguments, all bus reactions at each stage',
 NOCOMM+'no program is ever run.',
 ['bin/mbus-serial-set-address.c',AUX],[('main','bin/mbus-serial-set-address.c'),('mbus_set_primary_address','mbus-protocol-aux.c')],['telegrams sent','standard output','exit status'])
p('C25','The readout programs print the data of the addressed slave or fail',
 'The data-request programs (single and multi-telegram, serial and TCP) send their requests only to the address given, after selecting it when it is a secondary address and only if exactly one device acknowledged, print exactly the XML document of the answer and exit successfully only when a decodable answer was received. In every other case they print no document and exit with failure.',
 ['histories','fault_sequences','inputs'],'all arguments, all bus reactions at each stage',
 NOCOMM+'no program is ever run.',
 ['bin/mbus-serial-request-data.c','bin/mbus-serial-request-data-multi-reply.c','bin/mbus-tcp-request-data.c','bin/mbus-tcp-request-data-multi-reply.c'],[('main','bin/mbus-*-request-data*.c')],['telegrams sent','standard output','exit status'])
p('C26','Decoded data can be re-encoded without loss',
 'Encoding previously decoded reply data (error, fixed, or variable without idle fillers and without NUL in plain-text units) into a telegram reproduces the original data bytes, and decoding that again yields the same data. Encoding an integer (up to four bytes) or a BCD number that fits and decoding the bytes gives the number back.',
 ['inputs'],'all decodable payloads, all integers and BCD numbers that fit their width',
 'Nothing in the tests re-encodes data.',
 [PC],[('mbus_frame_internal_pack','mbus-protocol.c'),('mbus_data_int_encode, mbus_data_bcd_encode','mbus-protocol.c')],['frame data bytes','decoded numbers'])
p('C27','The command programs carry out exactly their command and report its true outcome',
 'The secondary scan, secondary select, baud rate switch, application reset and raw send programs connect to the device or gateway given at the speed or port given, send exactly the telegrams of their command to the address given (after selecting it when it is a secondary address and only if exactly one device acknowledged), and announce success and exit successfully exactly when the device acknowledged or answered as the command requires. A command line that is not of the documented form does nothing; invalid arguments, a refused connection and every other reaction lead to exit with failure and no announcement.',
 ['histories','fault_sequences','inputs'],'all arguments, all bus reactions at each stage, all failures of the transport',
 NOCOMM+'no program is ever run.',
 ['bin/mbus-serial-select-secondary.c','bin/mbus-tcp-select-secondary.c','bin/mbus-serial-scan-secondary.c','bin/mbus-tcp-scan-secondary.c','bin/mbus-serial-switch-baudrate.c','bin/mbus-tcp-application-reset.c','bin/mbus-tcp-raw-send.c'],[('main','bin/mbus-*.c')],['telegrams sent','standard output','exit status'])
p('C28','Manufacturers, products, media and errors are named as published',
 'The manufacturer text of a header consists of the three letters its two bytes encode, and the code computed from any text that starts with three letters of either case is the one that decodes to them in upper case, while every other text yields no code. The product name depends only on manufacturer, version, medium and leading identification digits and is the one the published list assigns to them, empty for a device that is not listed. Every medium and application error code yields its published name, and any other code a text that says so and shows the code.',
 ['inputs'],'all headers, all codes, all texts',
 'The tests show the names of the devices captured in them, not that no other device gets a wrong one.',
 [PC],[('mbus_data_product_name, mbus_data_variable_medium_lookup, mbus_data_error_lookup','mbus-protocol.c'),('mbus_manufacturer_id, mbus_data_manufacturer_encode, mbus_decode_manufacturer','mbus-protocol.c')],['names and codes returned'])
p('C29','Exhausted memory leads to failure, never to wrong or lost results',
 'Whenever a request of the library for memory is refused, the call that made it either fails as documented or completes exactly as if memory had been available; only a record that cannot be converted for it may appear as an unknown record does. It never reports incomplete or wrong data as success, never takes a device for absent, never crashes and loses no memory, and the connection and all later calls work as before. A program either does what it does with memory or exits with failure and without a document.',
 ['fault_sequences','inputs','histories'],'every request for memory refused, alone or together with all later ones, in decoding, readout, search, connection handling and the programs',
 'In the tests memory is always available.',
 [PC,AUX,'mbus/mbus-tcp.c','mbus/mbus-serial.c'],[('allocation checks and clean-up paths','mbus-protocol.c, mbus-protocol-aux.c')],['return values','decoded data','telegrams sent','live allocations','exit status'])
p('C30','Handles are independent of each other',
 'Several handles may be used in one process, their calls in any order: what a call on one handle does, transmits, consumes, reports and returns is exactly what it would do if the other handles did not exist. No call opens, closes, reads, writes or configures the line of another handle, changes its options, line speed or callbacks, or makes it report to the callbacks of another. Only the timeout for TCP connections to come is common to all of them.',
 ['histories','schedules','inputs'],'all interleavings of the calls of two or three handles of both transports, with every operation and reaction of their lines',
 'No test opens even one handle.',
 [AUX,TCP,SER],[('mbus_handle','mbus-protocol-aux.h'),('mbus_tcp_connect','mbus-tcp.c'),('mbus_serial_connect, mbus_serial_set_baudrate','mbus-serial.c')],['system calls per line','callbacks','return values'])
p('C31','Diagnostic dumps show exactly what was there',
 'The dump of a decoded reply shows every field of its header and, in order, every information field, extension, value size, counter and manufacturer block of its records with the values they have, and the dump of a chain shows every telegram in its encoded form up to the first one that cannot be encoded, which is reported as failure. A traffic dump shows the date and time, the direction, the number of bytes and every byte. With the dump callbacks registered, or a program run with its debug option, what is dumped is exactly the sequence of telegrams sent and received, and otherwise nothing is.',
 ['inputs','histories'],'all decoded data, all chains of telegrams, all byte strings and times, all histories of a bus',
 'The tests print no decoded data and no traffic.',
 [PC,AUX,'bin/*.c'],[('mbus_frame_print, mbus_frame_data_print, mbus_hex_dump','mbus-protocol.c'),('mbus_dump_send_event, mbus_dump_recv_event','mbus-protocol-aux.c')],['standard output of the dump functions','standard error during a session'])
p('C32','Calls that lack what they work on fail and touch nothing',
 'A call of the library that is given no handle, telegram, decoded data, record, address, text or place for its result where it cannot do without fails as documented (a negative number, no object, an empty text; functions that release or append do nothing), without sending, receiving or printing anything, telling a callback, changing anything it was given or keeping memory, and the handle works on afterwards. Texts made of received bytes (hexadecimal and XML) never exceed the buffer given, always end in it, and consist of the first whole elements, as many as fit.',
 ['inputs','configurations'],'all calls of the interface, all subsets of the things they need, all buffer sizes, all byte strings',
 'The tests call the parser with complete objects and the library with its own sufficient buffers only.',
 [PC,AUX,TCP,SER],[('every public function','mbus-protocol.h, mbus-protocol-aux.h'),('mbus_data_bin_decode, mbus_data_raw_decode, mbus_str_xml_encode','mbus-protocol.c')],['return values','bytes sent and received','the objects given'])
p('C33','Telegrams and values carry the moment at which they were received',
 'Every telegram received carries the date and time at which its last byte arrived: each telegram of a readout its own, also when an echo is discarded first, attempts are repeated, or the object had been used for an earlier telegram. The XML document shows with every record of a variable reply the moment its telegram was received, to the second and in UTC whatever the time zone, for every date up to the year 9999, and none when the moment is unknown. The readout programs show the moments at which the answers they print arrived.',
 ['inputs','histories','configurations'],'all moments, all chains of telegrams, all histories of a bus with and without echo, a time zone other than UTC',
 'The telegrams of the tests come from files and carry no time.',
 [PC,AUX],[('mbus_recv_frame','mbus-protocol-aux.c'),('mbus_data_variable_parse, mbus_data_variable_record_xml','mbus-protocol.c')],['timestamp of the telegrams','Timestamp elements'])
p('C34','A connection goes to the place its handle was made for',
 'Every connection of a handle opens exactly the device, for reading and writing, or the host and port that were named when the handle was created, whatever the name and for every port from 0 to 65535, also after disconnecting, failed attempts and changes of options, and no matter what became of the memory that held the name. The addresses of a host are tried one after the other, each of its own kind, as stream connections, until one accepts; connecting succeeds exactly when one does.',
 ['inputs','histories','fault_sequences'],'all names and ports, all lives of handles made for different places, all failures of resolution, sockets and connections',
 'No test creates a handle.',
 [AUX,TCP,SER],[('mbus_context_serial, mbus_context_tcp','mbus-protocol-aux.c'),('mbus_tcp_connect','mbus-tcp.c'),('mbus_serial_connect','mbus-serial.c')],['devices opened','names resolved','addresses connected to','return values'])
p('C35','A refusal names what is wrong with what was refused',
 'When the functions that parse or verify a telegram, decode its data, or translate a secondary address refuse what they are given, or connecting or receiving over TCP fails, the error text afterwards is a new one that names a defect that is really there (the wrong start, stop, length, control code or checksum, the missing or excess bytes and the part of the record they belong to, the wrong direction or kind of data, silence, a closed or failed connection, the gateway that could not be reached), and the offending values quoted in it are the true ones. It is never empty, nor left from an earlier refusal. The text always ends within its memory, also when a caller sets a longer one, of which at least the first 255 characters are kept, and resetting it removes the complaint.',
 ['inputs','histories'],'all byte strings up to a telegram and beyond, all combinations of damage, all data, address texts, endings of a connection, texts of any length',
 'The tests look at what is accepted and never at the reason given for a refusal.',
 [PC,TCP],[('mbus_error_str, mbus_error_str_set, mbus_error_reset','mbus-protocol.c'),('mbus_frame_verify, mbus_parse, mbus_frame_data_parse, mbus_data_variable_parse','mbus-protocol.c'),('mbus_frame_get_secondary_address, mbus_frame_select_secondary_pack','mbus-protocol.c'),('mbus_tcp_connect, mbus_tcp_recv_frame','mbus-tcp.c')],['mbus_error_str after a refusal','return values'])
p('C36','Objects held side by side are independent of each other and of history',
 'Telegrams, decoded replies, normalized records and documents that a caller holds are independent: for every history of making, filling again, rendering and releasing several of them in any order, each shows at every moment exactly what it was last filled with, whatever was made, refused, rendered or released before or in between, and however alike they are. What is made of another object stays valid after that one is released or filled again. When all are released, no memory is kept.',
 ['inputs','histories'],'all orders of making, refilling, refusing, rendering and releasing telegrams, chains, decoded replies, normalized records and documents of any content',
 'The tests decode one telegram per process and end.',
 [PC,AUX],[('mbus_frame_new, mbus_frame_free, mbus_parse','mbus-protocol.c'),('mbus_frame_data_parse, mbus_data_record_new, mbus_data_record_free','mbus-protocol.c'),('mbus_frame_xml, mbus_frame_data_xml','mbus-protocol.c'),('mbus_parse_variable_record, mbus_record_free','mbus-protocol-aux.c')],['every field and text of every object held, after every step','memory held at the end'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P:
    pass
    s=x['statement']; 
    import re
    n=len(re.findall(r'\.(?:\s|$)',s)); print(x['id'],n,len(x['title']))
