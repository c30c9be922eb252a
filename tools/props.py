"""What each check covers (for the manifest and the evidence)."""
LIB = ["mbus/mbus-protocol.c", "mbus/mbus-protocol-aux.c", "mbus/mbus-serial.c", "mbus/mbus-tcp.c", "mbus/mbus.c"]
STUBS = [
    "operating system: descriptors, serial line discipline (termios, VMIN/VTIME, rate and parity mismatch), sockets with timeouts, name resolution, clocks, heap accounting, standard output and exit",
    "M-Bus meters and bus: link layer with frame count bit, selection, telegram cursor, collisions, response timing",
]
MEASURE = "hash of the history reduced to its shape: kinds of frames on the bus, sizes of reads, faults fired, task switches and verdicts, without byte values and times; counted once per different value and only for runs in which at least one fault fired"
ASSUMPTIONS = [
    "libc calls behave as the simulator models them (POSIX read/write/termios/socket semantics on Linux)",
    "code between two operating system calls takes no simulated time",
]
PROPS = {}


def P(id, note, assumptions=(), real=(), **kw):
    PROPS[id] = dict(note=note, assumptions=list(assumptions), real=LIB + list(real), **kw)


P("C01", "Seeded search over frame sequences, segmentations, pauses, short reads and EINTR on both transports; every returned frame is compared with what was sent. Pauses reach to just under the response window of the line.", meters=False)
P("C04", "Seeded search over inputs and endings of one receive; the verdict is compared with an independent reference parser. Leniency: which of several true verdicts wins when bad bytes and the end of the connection coincide.", meters=False)
P("C02", "Seeded search over single frames and whole readouts on a line that damages, truncates, duplicates and delays; nothing damaged is ever reported as received, nothing foreign is part of a readout.", meters=True)
P("C03", "Seeded search over arbitrary and hostile traffic for every receiving operation; each call must return within a bound on bytes, requests and simulated time computed from the line settings, memory must not grow beyond the input.")
P("C05", "Seeded search over lossy multi-telegram readouts with frame limits; the result is compared with the telegrams the simulated meter holds. A reply delivered so late that the purge before cannot absorb it is not generated.", assumptions=["at most one answer is delivered late at a time (the frame count bit cannot tell more apart)"])
P("C06", "Seeded search over loss patterns and retry settings of every exchange; success and failure are compared with the number of losses in the pattern.")
P("C07", "Seeded search over meter populations, masks, collision shapes, losses within the retry setting, and failing transports, for the library scan and both secondary-scan tools; the reported addresses are compared with the population.", real=["bin/mbus-serial-scan-secondary.c", "bin/mbus-tcp-scan-secondary.c"])
P("C08", "Seeded search over populations and masks; verdicts and the meters left selected are compared with the number of meters that match.")
P("C24", "Seeded search over traffic left on the line, its pauses and its validity; what is left after a purge and the answer the next exchange sees are compared with the simulated line.")

P("C09", "Seeded search over histories of connects, failures at every stage of a connect, disconnects and operations on several handles amid descriptors of the surrounding program; every system call on a descriptor is checked for ownership and the descriptors held are counted after each step.")
P("C10", "Seeded search over failing allocations (single ones and sequences) in readouts, scans, connects and conversions; each run is executed twice, with and without the failing allocations, and compared. Heap accounting of every block the library takes.")
P("C11", "Seeded search over hostile traffic, decoded and printed by everything the library offers, under the address sanitizer and array bound checks; uninitialised data is found by running the same history again with other fill patterns for heap and locals and comparing all output.")

P("C12", "Seeded search over operations on a line that echoes what is sent (all, or only once the library was told so), with and without losses and damage; results and requests are compared with the same history on a line without echo.")
P("C13", "Seeded search over rates, histories of connects and rate changes, and failures of the line settings; the line parameters the driver holds at every byte are compared with those of the bus, and an exchange at the right rate succeeds while one at a wrong rate does not.")
P("C14", "Seeded search over silence, answers at every point of the window, endless traffic and stalls; the time each receiving and each whole operation takes is compared with bounds computed from the line settings. Timeouts of at least 1 ms.", assumptions=["reads are not interrupted by signals (a signal restarts the wait)"])
P("C15", "Seeded search over operations, arguments and short or failing writes; the transmitted bytes are compared with an independent construction of the frame.", real=["bin/mbus-tcp-raw-send.c"])
P("C16", "Seeded search over traffic on both transports; the callback record is compared with the bytes that crossed the simulated line, and the history with the same one without callbacks.")
P("C17", "Seeded search over interleavings of 2 to 4 masters; each master's results, scan events and transmitted bytes are compared with those of the same story executed alone. Times and the last-error text are not compared. The TCP timeout (one per process) is set once before.", assumptions=["switches happen at calls into the operating system, not between two instructions"])
P("C18", "Seeded search over registers (functions, storage, tariff, subunit, integers, BCD, reals, text, dates, every primary and extended unit, units in plain text, correction factors) in one or several telegrams read over a faulty line; records and normalized XML are compared with the registers the simulated meter holds. Text whose XML form exceeds 768 bytes is not generated.", assumptions=["at most one answer is delivered late at a time (the frame count bit cannot tell more apart)"])
P("C19", "Seeded search over histories executed twice, with a steady wall clock and with one that is set forwards and backwards whenever the library waits; stamps are compared with the simulated clock at the receipt, everything else with the steady execution.")

P("C20", "Seeded search over sets of occupied primary addresses, response delays, collisions (arriving in sequence or merged), losses within and beyond the retries, and failures at every stage of opening and using the transport; the output of both scan tools is compared with the occupied addresses.", real=["bin/mbus-serial-scan.c", "bin/mbus-tcp-scan.c"])
P("C21", "Seeded search over populations, telegram counts, address forms, frame limits, options, state left by an interrupted readout, and faults, for the four readout tools; exit status and the XML document are compared with the telegrams the addressed meter holds. A link reset of another link than the addressed one is not taken as one; stray answers of other meters are generated only where a link reset precedes.", real=["bin/mbus-serial-request-data.c", "bin/mbus-tcp-request-data.c", "bin/mbus-serial-request-data-multi-reply.c", "bin/mbus-tcp-request-data-multi-reply.c"])
P("C22", "Seeded search over populations, arguments and faults for the set-address, baud-rate, application-reset and select tools; exit status and output are compared with what the simulated meters did. Stray acknowledges (which no master can tell from a true one) are not generated.", real=["bin/mbus-serial-set-address.c", "bin/mbus-serial-switch-baudrate.c", "bin/mbus-tcp-application-reset.c", "bin/mbus-serial-select-secondary.c", "bin/mbus-tcp-select-secondary.c"])
P("C23", "Seeded search over operations of a first master, the input/output call at which it dies, what is left on the line, and the operation of its successor, with real tools and library; only meters and line survive; the successor's result is compared with the meters.", real=["bin/mbus-serial-request-data-multi-reply.c", "bin/mbus-tcp-request-data-multi-reply.c", "bin/mbus-serial-scan-secondary.c", "bin/mbus-tcp-scan-secondary.c", "bin/mbus-serial-request-data.c", "bin/mbus-serial-select-secondary.c", "bin/mbus-serial-set-address.c"])
P("C25", "Seeded search over the registers of C18 in one or several telegrams read over a faulty line; the plain document is compared with the registers the simulated meter holds. Correction factors are not part of the plain unit text and are not judged there; units in plain text behind FC are not judged.", assumptions=["at most one answer is delivered late at a time (the frame count bit cannot tell more apart)"])
P("C26", "Seeded search over fixed-data meters (units, media, status, counters) and application errors read over a faulty line by the library and the readout tools; records, documents and error texts are compared with what the simulated meter holds and sent.", real=["bin/mbus-serial-request-data.c", "bin/mbus-tcp-request-data.c", "bin/mbus-serial-request-data-multi-reply.c", "bin/mbus-tcp-request-data-multi-reply.c"])
P("C27", "Seeded search over arbitrary record bytes read over a faulty line by the library and the readout tools; documents are read by a strict XML reader and compared with an independent walk over the records. Telegrams with reserved data codes or plain-text units of 128 and more bytes are judged for well-formedness only; text whose escaped form exceeds 700 bytes may be cut.", real=["bin/mbus-serial-request-data.c", "bin/mbus-tcp-request-data.c", "bin/mbus-serial-request-data-multi-reply.c", "bin/mbus-tcp-request-data-multi-reply.c"])
P("C31", "Seeded search over traffic of the tools with and without debugging, and of a program that registers the dump functions, on disturbed lines; every trace line and frame dump is compared with the bytes and the time of the simulated line, the rest with the same history without debugging.", real=["bin/mbus-serial-request-data.c", "bin/mbus-tcp-request-data.c", "bin/mbus-serial-request-data-multi-reply.c", "bin/mbus-tcp-request-data-multi-reply.c", "bin/mbus-serial-scan.c", "bin/mbus-tcp-scan.c", "bin/mbus-serial-scan-secondary.c", "bin/mbus-serial-set-address.c", "bin/mbus-tcp-application-reset.c", "bin/mbus-tcp-raw-send.c"])
P("C28", "Seeded search over histories of one handle: failed and good connects, options, timeouts and callbacks set at any moment, operations under faults and broken transports between; every connection is exercised (settings, waiting time, echo, retries by counting, callbacks, data) and compared with what the options in force demand.")
P("C29", "Seeded search over device and host names, sets of addresses with refusals, delays and missing address families, missing and unusable devices, for the library and eleven tools; verdict, names asked for and the destination of all traffic are compared with the simulated devices and hosts.", real=["bin/mbus-serial-request-data.c", "bin/mbus-tcp-request-data.c", "bin/mbus-serial-request-data-multi-reply.c", "bin/mbus-tcp-request-data-multi-reply.c", "bin/mbus-serial-scan.c", "bin/mbus-tcp-scan.c", "bin/mbus-serial-select-secondary.c", "bin/mbus-tcp-select-secondary.c", "bin/mbus-tcp-application-reset.c", "bin/mbus-serial-set-address.c", "bin/mbus-serial-switch-baudrate.c"])
P("C30", "Seeded search over scans with every combination of callbacks on quiet, lossy, disturbed and failing lines; the order and content of announcements, selections, requests and finds is compared with the frames on the simulated bus, and the whole with the same history under other callbacks.")
P("C32", "Seeded search over the command lines of all fourteen tools, permitted and not, with several devices or hosts that carry like meters, on good, disturbed and failing lines; what is opened, set, transmitted, traced and reported is compared with what the command line names.", real=["bin/*.c (all fourteen tools)"])
P("C33", "Seeded search over readouts of meters with arbitrary records, fixed data and application errors on disturbed lines; every telegram handed out is printed and the text compared, name by name, with what an independent reader finds in the bytes the meter sent.")
P("C34", "Seeded search over the byte from which and the time until which standard output takes nothing, for readouts, scans and selections of ten tools on quiet and disturbed lines; every run is compared with the same history with working output.", real=["bin/mbus-serial-request-data.c", "bin/mbus-tcp-request-data.c", "bin/mbus-serial-request-data-multi-reply.c", "bin/mbus-tcp-request-data-multi-reply.c", "bin/mbus-serial-scan.c", "bin/mbus-tcp-scan.c", "bin/mbus-serial-scan-secondary.c", "bin/mbus-tcp-scan-secondary.c", "bin/mbus-serial-select-secondary.c", "bin/mbus-tcp-select-secondary.c"])
