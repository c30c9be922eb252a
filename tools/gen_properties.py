#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run by hand after an edit)."""
import json, os
AUX="mbus/mbus-protocol-aux.c"; PRO="mbus/mbus-protocol.c"; SER="mbus/mbus-serial.c"; TCP="mbus/mbus-tcp.c"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),
      why_tests_cant=why,anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
NOTR="The repository's tests only feed stored frames to the parser and compare XML; none opens a transport, "

p("C01","Received frames do not depend on how their bytes arrive",
"Over TCP and over a serial line, any sequence of valid M-Bus frames (acknowledge, short, control, and long frames of every payload length from 1 to 252 bytes) is returned by successive receive calls exactly as sent, one frame per call, in order and byte for byte. This holds however the bytes are split or merged across reads, however often a TCP read is interrupted by a signal, and for any pause between bytes shorter than the response window. No receive consumes a byte that belongs to the following frame.",
["schedules","inputs","fault_sequences"],"every sequence of valid frames, every segmentation and timing of their bytes below the response window, every placement of EINTR on TCP",
NOTR+"so no segmentation, pause or interruption is ever exercised.",
[TCP,SER,PRO],[("read exactly the bytes the parser still asks for","mbus_tcp_recv_frame / mbus_serial_recv_frame"),("incremental frame parser","mbus_parse")],
observe=["frames returned by mbus_recv_frame"])

p("C02","A damaged frame is never delivered as data",
"A frame whose start bytes, length pair, checksum or stop byte no longer verify after transmission is never reported as successfully received, and none of its content ever becomes part of a readout that reports success. Every telegram in a successful readout is byte for byte one that the addressed meter sent during that readout. This holds also after earlier damaged attempts, stray acknowledge bytes, truncation, or noise before or behind a frame.",
["fault_sequences","inputs","histories"],"every corruption, truncation or noise pattern that leaves no valid frame at the damaged place, in every order with good exchanges",
NOTR+"and the stored error frames are single frames, so the history of an exchange (damaged, then repeated, then acknowledged) is never reached.",
[PRO,AUX,TCP,SER],[("checksum/length/stop verification","mbus_frame_verify, mbus_parse"),("only data responses are parsed as data","mbus_frame_data_parse"),("retry after an invalid response","mbus_sendrecv_request")],
observe=["return value and frame of mbus_recv_frame","reply chain of mbus_sendrecv_request"])

p("C03","Every operation returns in bounded time once the line is quiet",
"Once the line falls silent, or the connection is closed, reset or hung up, every library operation (receive, purge, ping, readout, select, probe, secondary scan) returns after a bounded number of response windows fixed by its retry setting and, for a scan, by the number of addresses it probes, and after a bounded number of I/O calls. No pattern of partial, damaged or interrupted traffic before that point makes an operation wait or spin for ever.",
["schedules","fault_sequences","histories"],"every traffic prefix and every instant at which the line goes quiet, closes or fails",
NOTR+"so no timeout, hang-up or silence occurs in any test.",
[SER,TCP,AUX],[("three empty reads end a serial receive","mbus_serial_recv_frame"),("socket receive timeout and end-of-stream","mbus_tcp_recv_frame"),("purge ends at the first silence or failure","mbus_purge_frames"),("bounded retries","mbus_sendrecv_request, mbus_probe_secondary_address")])

p("C04","The verdict of a receive tells what happened on the line",
"A receive reports success exactly when one complete valid frame arrived; timeout when nothing arrived within the response window; reset when the TCP peer closed the connection before a frame was complete; invalid when bytes arrived that form no frame or a frame that stopped short; and error when the device or socket failed or is not open.",
["schedules","fault_sequences","inputs"],"every arrival pattern, closing point, and read failure",
NOTR+"so none of the five receive verdicts is produced by a test.",
[SER,TCP,AUX],[("result code of a receive","mbus_tcp_recv_frame, mbus_serial_recv_frame, mbus_recv_frame")],
observe=["return value of mbus_recv_frame"])

p("C05","A multi-telegram readout is complete, in order, and exactly once",
"After a link reset, a readout of a meter whose data spans several telegrams either reports failure or returns exactly the telegrams the meter holds, in order, none missing, repeated or altered, whatever frames were lost, damaged, duplicated or delivered late on the way (late by less than the purge can absorb). A frame limit of k returns exactly the first k telegrams (or all, if fewer) and a limit of 0 means no limit. On success every telegram but the last one taken announces more records, and without a limit the last one does not. An application error of the meter ends a readout: handed out alone if it is the first answer, as a failure if data came before it.",
["fault_sequences","schedules","histories"],"every number of telegrams, frame limit, retry budget and every sequence of lost, damaged, duplicated or delayed frames in either direction",
NOTR+"so the frame-count-bit protocol between master and meter is never run; the only multi-telegram test input is a stored single frame.",
[AUX,PRO],[("frame count bit toggles once per new telegram and is kept on repeats","mbus_sendrecv_request"),("more-records-follow detection","mbus_data_variable_parse"),("late replies are purged after each success","mbus_purge_frames")],
state=[("frame count bit","distinguishes a repeated request from a request for the next telegram","request control field")],
observe=["reply chain and return value of mbus_sendrecv_request"])

p("C06","Readout retries exactly up to the configured budget",
"With a data-retry setting of n (0 to 9; default 3; other values are rejected and leave the setting unchanged), a readout succeeds whenever each telegram needs at most n repeats because requests or replies were lost or damaged, the count starting afresh for every telegram. If the meter never answers, the readout reports failure after exactly n+1 transmissions of the same request. A transport failure ends the readout with failure at once, without further transmissions.",
["fault_sequences","configurations"],"every retry setting and every placement of up to n, or more than n, consecutive failures per telegram",
NOTR+"so no retry is ever taken.",
[AUX],[("retry counter reset on success","mbus_sendrecv_request"),("option range check","mbus_context_set_option")],
observe=["requests on the line, return value"])

p("C07","A secondary-address scan finds every meter exactly once",
"A scan over an address mask (any digits of the identification number open, also all or none; manufacturer, version and medium each open or given) reports every meter that matches the mask and whose identification number (eight decimal digits) is unique on the bus, each exactly once and with its true address, and never an address that no meter has. This holds for any population, also when answers collide, and when per probed mask no more selections are lost than the search-retry setting allows. If the transport fails during the scan, the scan reports failure instead of a shorter list. A scan or scan tool given an invalid mask, no handle or a transport that cannot be used fails, transmits nothing and reports nothing.",
["inputs","schedules","fault_sequences","configurations"],"every population of meters with distinct decimal identification numbers, every mask, every way colliding answers merge, every loss within the search-retry budget, every point of transport failure",
NOTR+"so no bus with more than zero devices exists in any test.",
[AUX,PRO,"bin/mbus-serial-scan-secondary.c","bin/mbus-tcp-scan-secondary.c"],[("digit-wise search descending on collision","mbus_scan_2nd_address_range"),("probe = select, request, purge","mbus_probe_secondary_address"),("selection frame with wildcards","mbus_frame_select_secondary_pack")],
observe=["found callback, standard output, return value"])

p("C08","Select and probe verdicts match the meters on the bus",
"Selecting or probing a secondary address mask on an undisturbed bus answers nothing when no meter matches, single when exactly one matches, and collision when more than one answers; a single probe returns the complete address of that meter and leaves exactly it selected. An answer of single is never given with an address other than that of a matching meter, and a transport failure or an invalid mask is answered as error, never as nothing found. Reading a meter by secondary address succeeds, and with data from it, only when it is the one meter that matches; reading the only meter that answers a primary address succeeds with its telegram, an address nobody answers fails. Missing or invalid arguments are answered as error with nothing transmitted.",
["inputs","fault_sequences","schedules"],"every population, mask, collision outcome and transport failure point",
NOTR+"so selection of a meter is never observed.",
[AUX,PRO],[("classification of the answer to a selection","mbus_select_secondary_address"),("address taken from the response header","mbus_frame_get_secondary_address"),("read by address","mbus_read_slave")])

p("C09","File descriptors are conserved",
"The library closes only descriptors that it opened itself, each at most once, and after a failed connect, a disconnect, or any sequence of connects, failures and disconnects it leaves none of its own open. Descriptors of the surrounding program are never closed, read or written, also when a handle is disconnected without or after a failed connect. Operations on a handle that is not connected fail without touching any descriptor.",
["histories","fault_sequences"],"every sequence of context creation, connect (failing at resolution, socket, each connect attempt, open), operations and disconnect, with foreign descriptors reusing the same numbers",
NOTR+"so no descriptor is ever opened in a test.",
[TCP,SER,AUX],[("descriptor stored in the handle","mbus_context_serial, mbus_context_tcp"),("close on failure and on disconnect","mbus_tcp_connect, mbus_tcp_disconnect, mbus_serial_disconnect")])

p("C10","Memory is conserved, also when allocations fail",
"After any operation, and after the caller released what the operation handed out, all memory the library allocated is released exactly once. When any single allocation or sequence of allocations fails, the operation leaves nothing behind and never crashes, and a readout or conversion to XML reports failure or is unaffected: it never delivers truncated or altered data as success (normalized XML may show a record as empty).",
["fault_sequences","histories"],"every allocation failing, in every operation, on top of every traffic and transport fault",
"Tests run without allocation failures and do not check for leaks.",
[AUX,PRO,TCP,SER],[("cleanup paths","mbus_data_variable_parse, mbus_frame_xml, mbus_sendrecv_request, mbus_parse_variable_record, mbus_scan_2nd_address_range")])

p("C11","Hostile traffic cannot corrupt memory or crash the master",
"Whatever bytes arrive on the line, in whatever order and timing, receiving them, reading out, selecting, probing, scanning, printing, decoding the records and producing plain or normalized XML from any accepted frame or chain of frames never accesses memory outside live objects, never uses uninitialised or freed memory, and never crashes or aborts.",
["inputs","fault_sequences","histories"],"every byte stream and every chain of telegrams a faulty, malicious or colliding set of devices can produce",
"Tests use a fixed set of stored frames; a chain of several telegrams, extreme record shapes and streams of noise are not among them.",
[PRO,AUX,TCP,SER],[("bounds checks in the record parser","mbus_data_variable_parse"),("growing XML buffers","mbus_frame_xml, mbus_data_variable_xml, mbus_data_variable_xml_normalized")])

p("C12","A converter that echoes what the master sends changes nothing",
"With the default setting, readouts, probes and scans through a converter that echoes every transmitted frame back to the master give the same results as through one that does not. The echo setting does what it says: with it off the first frame is returned whatever its direction, with the master-to-slave setting one leading master frame is skipped and slave frames never are, and with the slave-to-master setting one leading slave frame is skipped and master frames never are.",
["configurations","schedules","fault_sequences"],"every operation, with and without echo, echo timing and segmentation, every setting",
NOTR+"so the echo handling is never executed.",
[AUX,PRO],[("skip one frame of the configured direction","mbus_recv_frame"),("direction of a frame","mbus_frame_direction")])

p("C13","The serial line is set up so that every conforming meter is heard",
"After connecting, the serial line is at 2400 baud with 8 data bits, even parity, one stop bit, receiver on, and no input, output or line processing, so every byte value passes unchanged; setting a baud rate switches both directions to exactly that rate, for exactly the rates 300, 600, 1200, 2400, 4800, 9600, 19200 and 38400. At every one of these rates an answer that starts at the latest moment the standard permits (330 bit times plus 50 ms after the request left the line), to a request of any length, is received. An unsupported rate or a failing device call is reported as failure.",
["configurations","schedules","fault_sequences"],"every supported and unsupported rate, every legal response delay, every request length, every failing terminal call",
NOTR+"so line settings and response delays are never exercised.",
[SER],[("terminal attributes","mbus_serial_connect"),("rate and per-rate timeout","mbus_serial_set_baudrate"),("drain after writing","mbus_serial_send_frame")])

p("C14","The configured TCP timeout is honoured",
"Every TCP connection waits for an answer as long as the timeout that was configured when it was opened (4 seconds unless set; fractions count): an answer arriving before then is received, and silence is reported as timeout no earlier and at most marginally later, as is a peer that stops accepting data, which makes the send fail. Negative timeouts are rejected and change nothing; a later change does not affect connections already open. A connection to which the timeout cannot be applied is refused.",
["configurations","schedules"],"every timeout value, answer time around it, and order of configuration and connects",
NOTR+"so no timeout passes in any test.",
[TCP],[("socket send and receive timeouts","mbus_tcp_connect"),("setter","mbus_tcp_set_timeout_set")])

p("C15","Every request operation transmits exactly its frame",
"Every request operation (ping, request, select, user data, application reset, baud-rate switch, address change; a frame made by the caller or given as text to the raw-send tool) with valid arguments puts exactly the frame the M-Bus standard defines for it on the line, once, and reports success only if the whole frame was handed to the transport. Invalid arguments, and a transport that accepts only part of the frame or fails, are reported as failure; with invalid arguments, or where the raw-send tool cannot read the whole text, nothing is transmitted.",
["inputs","fault_sequences"],"every operation and argument, every short or failed write, every point at which the text becomes unreadable",
NOTR+"so no transmitted byte is ever checked.",
[AUX,PRO,TCP,SER],[("frame construction","mbus_send_* functions"),("packing and checksum","mbus_frame_pack"),("write result check","mbus_tcp_send_frame, mbus_serial_send_frame")])

p("C16","Traffic callbacks show exactly the traffic",
"If registered, the send callback is called once for every frame handed completely to the transport, and not for a failed send, with exactly its bytes, in order. The receive callback is called once for every frame received, and for every invalid piece of input, with exactly the bytes taken from the line for it. Both are tagged with the right transport kind, and registering no callback changes no behaviour.",
["schedules","fault_sequences"],"every traffic history and segmentation on both transports",
NOTR+"so the callbacks never fire.",
[TCP,SER,AUX],[("event calls","mbus_tcp_send_frame, mbus_tcp_recv_frame, mbus_serial_send_frame, mbus_serial_recv_frame")])

p("C17","Masters in one process do not disturb each other",
"Several handles in one process, each with its own bus, whose operations interleave at any point where one of them waits for its line, each obtain the results, and put on their line the requests, that they would alone. Closing or failing one of them, or changing its options, does not affect another.",
["schedules","fault_sequences"],"every interleaving of two or three masters at their blocking points, each under its own faults",
"Tests are single-threaded and use no handles.",
[AUX,TCP,SER,PRO],[("all exchange state in the handle or on the stack","mbus_handle, mbus_sendrecv_request")])

p("C18","A meter's registers arrive with their exact values",
"For a meter whose registers use the standard data fields (8 to 64 bit integers, 2 to 12 digit BCD including negative values, 32-bit reals, text, dates and points in time) and the standard units (primary, extended by FD or FB, or given in plain text, with any correction factors; energy, volume, mass, durations, power, volume and mass flow, temperatures and difference, pressure, voltage, current, currency, dates, identification and dimensionless numbers), the normalized records of a successful readout list exactly these registers, in order, with each value in the base unit (Wh, J, m^3, kg, s, W, J/h, m^3/h, kg/h, degrees, bar) and with its function, storage number, tariff and subunit. Under any loss, damage or segmentation the readout yields exactly that, or reports failure.",
["inputs","fault_sequences"],"every register set over these encodings, spread over one or several telegrams, under every transport fault",
"Tests compare XML of a few dozen stored frames from real devices; they sample few encodings and no transport.",
[AUX,PRO],[("value decoding","mbus_variable_value_decode"),("unit normalization","mbus_vib_unit_normalize"),("storage, tariff, subunit","mbus_data_record_storage_number, mbus_data_record_tariff, mbus_data_record_device")])

p("C19","Frames carry the time of their receipt",
"Every frame returned by a receive or readout carries the wall-clock time at which it was received, and the records shown as XML carry that time in UTC. Wall-clock steps forwards or backwards, before or during an exchange, change these stamps only: never the waiting times, the retries or the data.",
["schedules","fault_sequences"],"every clock step at every point of an exchange",
NOTR+"so no frame is ever stamped.",
[AUX,PRO],[("time taken after the receive","mbus_recv_frame"),("stamp copied to records and printed","mbus_data_variable_parse, mbus_data_variable_record_xml")])

p("C20","The primary-address scan tools list exactly the meters present",
"The serial and TCP primary-address scan tools list every address from 0 to 250 at which a meter answers, each once and in order, name those where several answers arrive or merge into an invalid one as collisions, and list no address at which nothing answers, whatever the response delays and segmentation. A lost answer is only recovered by the configured retries, and a transport that cannot be opened, or fails, ends the tool with a failure status.",
["inputs","schedules","fault_sequences"],"every set of occupied addresses, collision, delay, loss and failure point",
NOTR+"and no command line tool other than the parser is run.",
["bin/mbus-serial-scan.c","bin/mbus-tcp-scan.c",AUX],[("ping each address and classify the answer","main, ping_address")])

p("C21","The readout tools print the meter's data or fail",
"The readout tools (serial and TCP, primary or secondary address), called with valid arguments, print one XML document and exit with success, or print none and exit with failure. The single-request tools print exactly one telegram (or application error) that the addressed meter sent in answer; the multi-reply tools print all telegrams of the addressed meter in order, up to the frame limit. No loss, damage, duplication, failing transport or state left by an earlier interrupted readout (provided a link reset gets through) makes them exit with success and incomplete, mixed or foreign data.",
["fault_sequences","schedules","inputs"],"every population, telegram count, address form and fault sequence",
NOTR+"and no command line tool other than the parser is run.",
["bin/mbus-serial-request-data.c","bin/mbus-tcp-request-data.c","bin/mbus-serial-request-data-multi-reply.c","bin/mbus-tcp-request-data-multi-reply.c",AUX],[("exchange and exit status","main")])

p("C22","The configuration tools claim success only for what happened",
"The set-address tool reports success only if the meter confirmed the change, and refuses to change an address to one that already answers, or to an invalid one, without transmitting the change. The baud-rate and application-reset tools report success only if a meter acknowledged the request. The select tools print an address only for the one meter that is then selected, under any loss, damage or transport failure.",
["fault_sequences","inputs"],"every population, arguments and fault sequence",
NOTR+"and no command line tool other than the parser is run.",
["bin/mbus-serial-set-address.c","bin/mbus-serial-switch-baudrate.c","bin/mbus-tcp-application-reset.c","bin/mbus-serial-select-secondary.c","bin/mbus-tcp-select-secondary.c"],[("acknowledge check","main")])

p("C23","A restarted master recovers from a crash at any point",
"If the master process dies at any point of a readout, selection or scan, a new master that connects, resets the link and repeats the operation obtains the complete and correct result, whatever state (frame count, selection, partly read telegrams, undelivered answers) the earlier run left in meters and line.",
["crash_points","histories","schedules"],"every crash point (each I/O call) of every operation, with any undelivered traffic left on the line",
"No test runs the master against a meter that keeps state, let alone kills it.",
[AUX,SER,TCP],[("link reset and purge before a readout","mbus_send_ping_frame, mbus_purge_frames"),("no persistent master state","mbus_handle")])

p("C24","Purging leaves nothing behind for the next exchange",
"When a purge returns, everything that had arrived, or was arriving with gaps shorter than the response window, has been discarded, valid frames and noise alike, so that the next exchange sees only what arrives later. A purge answers true exactly if it discarded a frame or invalid input (a frame the echo setting skips does not count), and a ping with purge leaves no part of its answers to be taken for the answer to the next request.",
["schedules","fault_sequences","inputs"],"every mix of stale frames, damaged frames, noise and answers, with any gaps below the response window",
NOTR+"so nothing is ever purged.",
[AUX,TCP,SER],[("receive until silence","mbus_purge_frames"),("ping with purge","mbus_send_ping_frame")])

p("C25","The printed document shows a meter's registers as they are",
"The XML document of a successful readout (one or several telegrams) names the meter that was read (identification number, manufacturer, version, medium, access number, status, signature) and lists exactly its registers, in order, numbered from 0 and, for several telegrams, with the telegram each belongs to. Each is shown with its function, storage number, tariff and subunit, the value as the meter sent it (integers and BCD digit for digit, reals, text, dates and points in time), and a unit text whose quantity and factor are those of the register. Under any loss, damage or segmentation the readout yields exactly that, or reports failure.",
["inputs","fault_sequences"],"every register set over these encodings and units, spread over one or several telegrams, under every transport fault",
"Tests compare XML of a few dozen stored single frames; they sample few encodings, no chain of telegrams and no transport.",
[PRO],[("value text","mbus_data_record_decode"),("unit text","mbus_data_record_unit, mbus_vib_unit_lookup"),("document of a chain","mbus_frame_xml")],
observe=["text returned by mbus_frame_xml"])

p("C26","Fixed-data meters and application errors are reported exactly",
"Reading a meter that answers with the fixed data structure yields, or reports failure, under any loss, damage or segmentation: its identification number, medium, access number and status, and both counters, each marked actual or stored, with the value it holds (BCD or binary by its status) and the unit of its code; the normalized counter has the value in the base unit (Wh, J, W, J/h, m^3, m^3/h, degrees). A meter that answers with an application error is shown as that error, with no data.",
["inputs","fault_sequences"],"every status, medium, unit code and counter value, every application error, under every transport fault",
"No stored test frame uses most units of fixed data and no test has a transport.",
[PRO,AUX],[("fixed data","mbus_data_fixed_parse, mbus_data_fixed_xml, mbus_data_fixed_unit"),("normalized counter","mbus_parse_fixed_record, mbus_fixed_normalize"),("application errors","mbus_data_error_lookup, mbus_data_error_xml")],
observe=["records, documents and output of the readout tools"])

p("C27","Whatever a meter holds, its document is well-formed and complete",
"For a meter that holds any record bytes (any type, length, extension, text with any bytes, manufacturer data, any header), every document made from a successful readout, by the library or by the readout tools, is well-formed XML and lists every record of every telegram once, in order, numbered from 0, with its function, and text and manufacturer data shown as they are (control characters as spaces). A readout whose telegrams are well-formed succeeds, and one whose telegram ends inside a record fails rather than showing part of it.",
["inputs","fault_sequences"],"every content of one or several telegrams, under every transport fault",
"Tests compare XML of stored single frames of real devices, which hold no markup, no malformed chains and few records.",
[PRO,AUX],[("records of a telegram","mbus_data_variable_parse"),("escaping","mbus_str_xml_encode"),("growing document","mbus_frame_xml, mbus_data_variable_xml, mbus_data_variable_xml_normalized")],
observe=["documents of the library and of the readout tools"])

p("C28","A handle that connects again behaves like a new one",
"Whatever happened to earlier connections of a handle (failed connects, readouts cut off, a transport that broke, frames half received or sent, a closed or still open connection), every further connect to a usable device or gateway succeeds and the connection works as a first one would with the options then set: a serial line is set up from scratch at 2400 baud, a TCP connection has the timeout now configured, retries of data requests and of selections number exactly what is set (options survive connects and can be changed at any moment, refused values change nothing), the echo setting and the registered callbacks stay in force, and readouts and probes give the meters' data.",
["histories","fault_sequences","configurations"],"every history of connects, failures, options and operations on one handle",
NOTR+"so no handle is ever connected, let alone twice.",
[AUX,SER,TCP],[("connect and disconnect","mbus_connect, mbus_disconnect"),("line set up from scratch","mbus_serial_connect"),("options","mbus_context_set_option")])

p("C29","Connecting succeeds exactly if the named device or host can be reached",
"Connecting opens exactly the device, or looks up exactly the host and port, given when the handle (or the tool) was created, whatever the caller did to its text since, and succeeds if and only if the device opens as a terminal whose settings can be applied, or one of the host's addresses (IPv4 or IPv6, refusing, slow, or of a kind the host has no sockets for before it) accepts the connection; all traffic then goes to the first address that does and to nobody else. Otherwise it fails, exchanges no data, leaves nothing open and the handle unusable, and a tool exits with failure without printing a result.",
["fault_sequences","configurations","inputs"],"every name, every set of addresses in any order, every way and combination in which opening, resolving and connecting fail",
NOTR+"so no device or host is ever opened.",
[TCP,SER,AUX],[("walk over the addresses of a host","mbus_tcp_connect"),("device and settings","mbus_serial_connect"),("names kept by the handle","mbus_context_serial, mbus_context_tcp")])

p("C30","A scan announces every mask it probes and every device it finds",
"If registered, the progress callback is called before every probe of a secondary scan with exactly the mask that is then selected (and no other selection is made until the next call), and the found callback once for every probe answered by a single device, after it answered and with exactly the frame it sent; then nothing is printed. Without a found callback every device found is printed once, with its address and the mask that found it. Which callbacks are registered, and a found callback that decodes the frame or reads the device, change neither what is found nor, the latter apart, what is transmitted.",
["schedules","fault_sequences","inputs"],"every population, mask, collision, disturbance and failure point, every combination of callbacks",
NOTR+"so no scan ever runs.",
[AUX],[("progress and default report","mbus_scan_2nd_address_range"),("found event","mbus_probe_secondary_address")],
observe=["callbacks, standard output, bytes sent"])

p("C31","The debugging output shows exactly the traffic",
"With debugging on, a tool writes one line for every frame it sends and for every frame or invalid piece of input it receives, in order, with the direction, the UTC time, and exactly the bytes that crossed the line, and dumps of frames show exactly the bytes of those frames, whatever their length, and of every telegram of a readout. Debugging changes nothing else: the same traffic, with and without it, leads to the same requests, the same result and the same exit status. The same holds for a program that registers the library's dump functions itself.",
["inputs","schedules","fault_sequences"],"every traffic history on both transports, every tool and frame kind",
NOTR+"so no traffic is ever traced; frames are dumped in no test.",
[PRO,AUX,SER,TCP],[("trace of the traffic","mbus_dump_send_event, mbus_dump_recv_event"),("dump of a frame","mbus_frame_print"),("debug switch","-d of the tools, mbus_register_send_event, mbus_register_recv_event")],
observe=["standard output and standard error of the tools, exit status, bytes sent"])

p("C32","A tool does exactly what its command line says",
"Every tool, given any command line its manual permits (any of its options, in the manual's order, with any permitted values, and its arguments), opens only the named device or connects only to the named host and port, sets the serial line to the named rate (9600 when none is named) before it transmits, and transmits only frames that serve its purpose for the named meter: the named primary address or mask, the named new address, target rate, reset subcode or frame (from the named file, else from standard input); a named number of retries or frame limit (16 when none is named) is what takes effect, and the traffic is traced only with -d. On an undisturbed bus with that meter it succeeds; if no meter or more than one answers to the named mask, it transmits nothing but the selection and fails. With too few or too many arguments a tool explains its usage and opens nothing; with an unknown option in front or a port, rate, retry count, mask or new address out of range it transmits nothing, reports nothing and does not claim success.",
["inputs","configurations","fault_sequences"],"every tool, every combination of options and arguments, permitted or not, several devices, hosts and ports with like meters, every disturbance of the line",
"The repository's tests start none of these tools; their documentation promises each of these forms.",
["bin/libmbus.pod","bin/mbus-serial-request-data.c","bin/mbus-serial-request-data-multi-reply.c","bin/mbus-serial-scan.c","bin/mbus-serial-scan-secondary.c","bin/mbus-serial-select-secondary.c","bin/mbus-serial-set-address.c","bin/mbus-serial-switch-baudrate.c","bin/mbus-tcp-request-data.c","bin/mbus-tcp-request-data-multi-reply.c","bin/mbus-tcp-scan.c","bin/mbus-tcp-scan-secondary.c","bin/mbus-tcp-select-secondary.c","bin/mbus-tcp-application-reset.c","bin/mbus-tcp-raw-send.c"],[("reading of the command line","main of each tool"),("manual","bin/libmbus.pod")],
observe=["devices opened and hosts resolved, line settings, bytes sent, standard output and error, exit status"])
p("C33","What the library prints of received data is what the meter sent",
"For every telegram handed out by a readout, whatever records, fixed data or application error it carries and whatever happened on the line, printing its decoded data (mbus_frame_data_print and the functions it calls) shows exactly what the meter sent: identification, manufacturer, version, medium, access number, status and signature, and for each record in turn its DIF with extension, storage bit, function and data field, its data length, every DIFE and VIFE and the VIF with their parts, or the manufacturer's own data byte by byte and whether more records follow; for fixed data the medium and both counters with their units, in the format the status names; for an application error its code. Nothing is added, left out or repeated, and the count of records and the mark that more follow kept with the data say what the telegram holds. Printing a second time shows the same, and neither the data nor the frame nor the document made from it changes by being printed.",
["inputs","fault_sequences"],"every record structure, fixed data and application error x every disturbance of the line",
"The repository's tests never call the print functions.",
[PRO],[("printing","mbus_frame_data_print, mbus_data_variable_print, mbus_data_variable_header_print, mbus_data_fixed_print, mbus_data_error_print")],
observe=["standard output of the print functions"])
p("C34","A tool whose output cannot be written does not claim success",
"For the tools whose result is what they print (request-data, request-data-multi-reply, scan, scan-secondary and select-secondary, serial and TCP): if standard output does not take everything the tool prints - because the disk is full from the start, becomes full at any byte, or is full for a while only - the tool says so on standard error and exits with a failure status; exit status 0 means that the whole output was taken. The lack of room changes nothing else: what is transmitted on the line is the same as with working output or ends earlier, what is printed is the same up to the point where it is lost, and where there is room for everything exit status and output are those of a run with working output.",
["inputs","fault_sequences"],"every point and duration of the lack of room x every operation, population and disturbance of the line",
"The repository's tests always read the output through a working pipe.",
["bin/mbus-serial-request-data.c","bin/mbus-serial-request-data-multi-reply.c","bin/mbus-serial-scan.c","bin/mbus-serial-scan-secondary.c","bin/mbus-serial-select-secondary.c","bin/mbus-tcp-request-data.c","bin/mbus-tcp-request-data-multi-reply.c","bin/mbus-tcp-scan.c","bin/mbus-tcp-scan-secondary.c","bin/mbus-tcp-select-secondary.c",AUX],[("end of each tool","main of each tool"),("scan output","mbus_scan_2nd_address_range")],
observe=["standard output and error, exit status, bytes sent"])

PF="pure function of its argument: no schedule, clock, fault, I/O or other party for a simulation to vary"
NA=[
("N01","Value encoders and decoders agree for every value","Encoding any value in range as BCD or integer of a given size and decoding it again yields the value, and the float, date and time decoders return the encoded quantity for every bit pattern.",["mbus/mbus-protocol.c"],[("codec helpers","mbus_data_bcd_*, mbus_data_int_*, mbus_data_float_decode, mbus_data_tm_decode")]),
("N02","Packing a frame and parsing it again yields the frame","For every frame structure with consistent fields, the packed bytes parse completely and yield an equal frame, and two different frames never pack to the same bytes.",["mbus/mbus-protocol.c"],[("pack and parse","mbus_frame_pack, mbus_parse")]),
("N03","XML output is well-formed for every decoded frame","Every XML document produced from decoded data is well-formed ISO-8859-1, and every text taken from the meter appears in it escaped and decodable to the original text.",["mbus/mbus-protocol.c","mbus/mbus-protocol-aux.c"],[("escaping","mbus_str_xml_encode")]),
("N04","Code tables are total and correct","Every medium, unit, product, function and error code maps to the text the standard or the vendor assigns to it, and unknown codes map to a neutral text rather than to nothing.",["mbus/mbus-protocol.c"],[("lookup tables","mbus_data_product_name, mbus_data_variable_medium_lookup, mbus_vib_unit_lookup")]),
("N05","Secondary address text and bytes correspond","Exactly the strings of 16 hexadecimal digits are accepted as secondary addresses, and the text produced for a meter's header, parsed back, selects that header.",["mbus/mbus-protocol.c"],[("address text","mbus_is_secondary_address, mbus_frame_get_secondary_address")]),
("N06","Hexadecimal input conversion is exact","Converting hexadecimal text with any white space yields exactly the bytes written, stops at the first invalid character, and never writes beyond the given size.",["mbus/mbus-protocol-aux.c"],[("conversion","mbus_hex2bin")]),
("N07","Manufacturer codes round-trip","Every three-letter manufacturer code converts to its two-byte form and back to the same letters.",["mbus/mbus-protocol.c"],[("conversion","mbus_data_manufacturer_encode, mbus_decode_manufacturer, mbus_manufacturer_id")]),
]
for id,t,s,f,m in NA:
    p(id,t,s,["inputs"],"every input value","Tests sample a few stored frames; the statement is over all inputs. Not claimed here: "+PF+".",f,m)

if __name__=="__main__":
    out=os.path.join(os.path.dirname(__file__),"..","properties.jsonl")
    with open(out,"w") as fh:
        for x in P:
            assert len(x["title"])<=80,x["title"]
            fh.write(json.dumps(x)+"\n")
    print(len(P))
