#!/usr/bin/env python3
"""Writes properties.jsonl (the source of the wording of every property)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe or ["SerialPort trait calls", "public API results"], hook_needed=hook)))

RXST = [("read buffer", "bytes received and not yet consumed, plus the count of bytes handed out by the previous call", "src/bus/mod.rs: Bus.read_buffer/read_len/used_bytes")]

p("C01", "Every transmitted message is one well-formed protocol packet",
  "Whatever a client or a device is asked to send, the bytes it writes to the serial port are exactly one Dynamixel 2.0 packet: FF FF FD 00, the requested packet ID, the little-endian length of what follows, the instruction, the byte-stuffed parameters and the CRC-16 (polynomial 0x8005, initial value 0, little-endian) over everything before it. Status packets carry instruction 0x55 and the requested error byte before the parameters. A message whose length does not fit in the 16-bit length field is refused with an error and nothing is written.",
  ["inputs"], "all packet IDs, instruction IDs, error bytes and parameter sequences, for clients and devices, and all histories of earlier messages through the same write buffer",
  "The tests contain one CRC vector and otherwise only round trips between this library and itself; a CRC table entry, a length or a leftover in the reused buffer that is wrong on both sides is invisible to them.",
  ["src/bus/mod.rs", "src/checksum.rs", "src/bus/endian.rs", "src/client.rs", "src/device.rs"],
  [("packet encoder", "src/bus/mod.rs: Bus::write_packet, write_status"), ("CRC table", "src/checksum.rs: calculate_checksum")])

p("C02", "Byte stuffing is transparent and keeps headers out of packet bodies",
  "For every instruction ID and every parameter sequence, the body on the line contains FF FF FD only when directly followed by the stuffing byte FD, so a body can never contain a packet header. The receiving client or device gets back exactly the original bytes, however often and wherever FF, FD and 00 bytes occur.",
  ["inputs"], "all instruction IDs and parameter byte sequences, in particular all sequences over {FF, FD, 00, other}",
  "The unit tests try eight hand-picked sequences; runs of three or more FF before FD, patterns overlapping the end, and combinations of several patterns are not sampled.",
  ["src/bus/bytestuff.rs", "src/bus/mod.rs"],
  [("stuffing", "src/bus/bytestuff.rs: stuffing_required, stuff_inplace"), ("unstuffing", "src/bus/bytestuff.rs: unstuff_inplace")])

p("C03", "Only intact packets are delivered, with exactly the bytes on the line",
  "A packet is handed to the caller only if all its bytes were received and its CRC matches; its ID, instruction, error byte and parameters are then exactly the unstuffed bytes from the line. A complete message with a wrong CRC yields an invalid-checksum error holding the received and the computed value, is discarded as a whole, and no part of it is ever delivered. A status packet without an error byte yields an invalid-parameter-count error.",
  ["inputs", "fault_sequences"], "all received byte streams, including every corruption of valid packets, on clients and devices",
  "The tests never deliver a corrupted packet; an accepted bad CRC or a truncated payload cannot show.",
  ["src/bus/mod.rs", "src/bus/packet.rs", "src/checksum.rs"],
  [("CRC check and consumption", "src/bus/mod.rs: Bus::read_packet_deadline")], RXST)

p("C04", "Reception does not depend on how the port splits the byte stream",
  "The sequence of packets and errors returned depends only on the bytes received, not on how the serial port groups them into reads: packets arriving one byte at a time, split anywhere, or several in one read are all delivered, in order, exactly once. A packet already received completely is returned without asking the port for more bytes, and bytes of an incomplete packet survive a timed-out read and are used by the next one.",
  ["schedules", "inputs"], "all byte streams and all ways to split them over successive port reads, with any number of timeouts in between",
  "The mock port always delivers whole buffers; only whole-packet reads are exercised.",
  ["src/bus/mod.rs"],
  [("read loop", "src/bus/mod.rs: Bus::read_packet_deadline"), ("consumption", "src/bus/mod.rs: remove_garbage, consume_read_bytes")], RXST)

p("C05", "Garbage and unusable headers never cost a following valid packet",
  "Bytes that do not start a packet header are skipped, wherever they appear and even if they look like the start of a header, and the next valid packet after them is delivered. A header announcing more bytes than the read buffer can hold yields a buffer-full error, one announcing fewer bytes than a packet can have yields an invalid-message error; in both cases only the beginning of that header is discarded and packets after it are delivered, even one that cuts the header short.",
  ["inputs", "fault_sequences"], "all noise before, between and after packets, including truncated headers and headers with arbitrary length fields",
  "One test feeds one oversized header; noise, partial headers and undersized lengths are never fed.",
  ["src/bus/mod.rs"],
  [("header search", "src/bus/mod.rs: find_header, remove_garbage"), ("length checks", "src/bus/mod.rs: Bus::read_packet_deadline")], RXST)

p("C06", "No byte stream and no port failure can panic or hang the library",
  "Whatever bytes arrive and whatever errors the serial port reports, every operation of a client or device, including dropping an unfinished multi-motor operation, returns a value or an error without panicking, and comes to an end once the port times out or fails. The library never asks the port to read into an empty buffer.",
  ["inputs", "fault_sequences"], "all received byte sequences, buffer sizes (write buffer at least 10 bytes) and sequences of port errors, for every operation",
  "Tests use well-formed traffic between two copies of this library and a port that never fails.",
  ["src/bus/mod.rs", "src/device.rs", "src/instructions/ping.rs", "src/instructions/sync_read.rs", "src/instructions/bulk_read.rs"],
  [("bounds checks", "src/bus/mod.rs: read_packet_deadline, write_packet"), ("drain on drop", "src/instructions/*: Drop impls")], RXST)

p("C07", "Every wait for a message has one fixed, correctly computed deadline",
  "Waiting for one message uses a single deadline fixed when the wait starts (after the request has been written): noise, partial packets and skipped packets do not extend it. The timeout is the one given by the caller, or for automatic timeouts the time to transfer the expected reply at the current baud rate (10 bits per byte, rounded up to a nanosecond) plus 34 ms, and for each reply of a scan 253 times the transfer time of a 14-byte reply plus 34 ms.",
  ["schedules", "inputs"], "all baud rates, expected reply sizes, caller timeouts, and all timings of partial or irrelevant input",
  "Tests run in real time with a mock that answers at once; neither the length nor the renewal of a deadline is observed, and the scan timeout not at all.",
  ["src/client.rs", "src/bus/mod.rs", "src/device.rs", "src/instructions/ping.rs"],
  [("automatic timeout", "src/client.rs: read_status_response; src/bus/mod.rs: message_transfer_time"), ("scan timeout", "src/instructions/ping.rs: Scan::next_response"), ("device loop", "src/device.rs: read_raw_instruction_timeout")],
  [("deadline", "instant passed to every port read of one wait", "argument of SerialPort::read")])

p("C08", "Input received before a request is never taken as its reply",
  "Before writing a message the library drops everything it has buffered and has the port discard its input, in that order relative to the write, so bytes received before a message was written can never contribute to a result returned after it. If the discard fails, nothing is written.",
  ["schedules", "histories"], "all leftovers of earlier exchanges, in the library's buffer (used, unread or partial packets) and in the port, before every kind of request, for clients and devices",
  "The mock's discard does nothing and no test leaves stale data behind.",
  ["src/bus/mod.rs"], [("discard before write", "src/bus/mod.rs: Bus::write_packet")], RXST)

p("C09", "A unicast request succeeds only on a matching, error-free reply",
  "Ping, read, write, registered write, action, reboot, clear, factory reset and raw single transfers addressed to one motor succeed only if the next packet received is a status packet from that motor with error number zero and (except for raw transfers) the expected number of parameters; the result then carries that motor's ID, its alert bit and exactly its parameters. Otherwise the call fails with an error naming a real discrepancy (motor error, packet ID, instruction or parameter count); the alert bit alone is never an error.",
  ["inputs", "fault_sequences"], "all replies: any ID, instruction, error byte and parameter list, for every unicast method",
  "Tests only see the correct reply of the mock; a reply from another motor, with an error, an alert or another size never occurs.",
  ["src/client.rs", "src/instructions/mod.rs", "src/instructions/read.rs", "src/instructions/ping.rs", "src/response.rs", "src/error.rs", "src/bus/data.rs"],
  [("reply checks", "src/client.rs: transfer_single, read_status_response_timeout; src/instructions/mod.rs: read_response_if_not_broadcast"), ("error check", "src/error.rs: MotorError::check")])

p("C10", "Every client method sends the instruction the protocol prescribes",
  "Every method of the client sends exactly one packet whose target ID, instruction and parameters are those the Dynamixel 2.0 protocol prescribes for that method and its arguments: addresses, lengths and values little-endian, one complete record per motor in the order given, the full encoded size of typed values, and the fixed parameter sequences of clear (0x01 'DXL\"' for the revolution counter, 0x02 'ERCL' for errors) and factory reset (0xFF, 0x01, 0x02).",
  ["inputs"], "all methods and all argument values: IDs, addresses, counts, data, value types, and motor lists of any length",
  "Tests send a handful of argument values with one-byte typed writes; sync and bulk writes, clear and factory reset are never sent by any test.",
  ["src/instructions/*.rs", "src/client.rs", "src/bus/endian.rs"],
  [("parameter encoders", "src/instructions/*.rs"), ("typed values", "src/bus/data.rs")])

p("C11", "A device decodes every instruction exactly, and skips other devices' replies",
  "For every valid instruction packet the device reports the packet ID, the instruction and exactly its operands; unknown instructions are passed through with all parameters, and missing operands (for read and factory reset: any other number of operands) yield an invalid-parameter-count error. The owned and the borrowed form of the same packet are equal, and status packets on the bus are skipped without ending or restarting the wait.",
  ["inputs"], "all packet IDs, instruction IDs and parameter lists, and any mix of instruction and status packets in the stream",
  "The mock device handles some instructions and ignores the decoded details; owned instructions are never read by a test.",
  ["src/device.rs", "src/bus/packet.rs"],
  [("decoding", "src/device.rs: TryFrom<InstructionPacket> for Instruction"), ("status skipping", "src/device.rs: read_raw_instruction_timeout")])

p("C12", "Broadcast requests do not wait for a reply",
  "A request sent to the broadcast ID 0xFE by a method that supports broadcasting (write, registered write, action, reboot, clear, factory reset, sync and bulk write, and the broadcast variants) returns as soon as it is written, without reading from the port, and reports ID 0xFE without alert where it returns a response. The same methods with any other ID wait for exactly one reply.",
  ["inputs"], "all broadcast-capable methods, all IDs, with and without input pending at the port",
  "No test broadcasts anything but a ping.",
  ["src/instructions/mod.rs", "src/instructions/*.rs"],
  [("broadcast shortcut", "src/instructions/mod.rs: read_response_if_not_broadcast")])

p("C13", "Sync and bulk reads give one attributed result per motor, in order",
  "A sync read or bulk read yields exactly one result per requested motor in the order requested and then ends, with the number of outstanding replies reported correctly throughout. A result is a success only if the packet received for that position is an error-free status packet from that motor with exactly the requested number of parameter bytes, which are returned unchanged with that motor's ID and alert bit; a lost, corrupted or foreign reply makes that position an error.",
  ["inputs", "fault_sequences"], "all motor lists, counts, value types and all sequences of replies (good, missing, corrupt, out of order, wrong size, error)",
  "The sync and bulk read tests are expected to panic with the mock, so nothing about their results is checked.",
  ["src/instructions/sync_read.rs", "src/instructions/bulk_read.rs"],
  [("per-motor position", "src/instructions/sync_read.rs: pop_motor_id, next_response"), ("per-motor position", "src/instructions/bulk_read.rs: pop_bulk_read_data, next_response")],
  [("index", "number of motors whose reply was already asked for", "SyncRead/SyncReadBytes/BulkReadBytes.index")])

p("C14", "Dropping an unfinished multi-motor read drains exactly its pending replies",
  "When a sync read, bulk read or scan is dropped at any point, the library waits for each reply still outstanding and for no others (for a scan: until a wait times out, for at most 253 waits), with the same timeout as reading it normally, so that after replies that arrive in time the client is immediately usable. The drain always ends, also when the port keeps failing.",
  ["histories", "fault_sequences"], "all numbers of results taken before the drop, all reply sequences during the drain, all port failures",
  "No test drops an unfinished operation.",
  ["src/instructions/sync_read.rs", "src/instructions/bulk_read.rs", "src/instructions/ping.rs"],
  [("drain on drop", "Drop for SyncRead, SyncReadBytes, BulkReadBytes, Scan")])

p("C15", "A scan reports every reply until the bus stays silent",
  "A scan broadcasts one ping and then yields one item per packet received: the sender's ID, alert bit, model number (little-endian) and firmware version of every proper ping reply, and an error for a packet that is not one. It ends exactly when a full reply timeout passes without a packet; other failures are reported as error items and do not end it.",
  ["inputs", "schedules", "fault_sequences"], "all numbers of motors, reply contents, arrival times and corruptions",
  "One test scans two ideal mock motors and only counts the items.",
  ["src/instructions/ping.rs"], [("scan iterator", "src/instructions/ping.rs: Scan::scan_next, next_response")])

p("C16", "A write buffer of any size either carries the message or refuses it",
  "With a write buffer of any size from 10 bytes, a message is sent if and only if the complete stuffed packet, including header and CRC, fits in the buffer; otherwise the call fails with a buffer-too-small error that states the needed and the available size, writes nothing, and leaves the client or device usable.",
  ["inputs", "configurations"], "all buffer sizes, message lengths and stuffing amounts around the limit, for clients and devices",
  "Write buffers in tests are 128 bytes and messages are tiny.",
  ["src/bus/mod.rs", "src/bus/bytestuff.rs", "src/error.rs"],
  [("capacity checks", "src/bus/mod.rs: write_status, write_packet; src/bus/bytestuff.rs: stuff_inplace")])

p("C17", "A read buffer of any size receives every message that fits",
  "A message is received if and only if its stuffed length fits the read buffer, up to and including an exact fit, regardless of what was received before it; a longer one, or a buffer under 10 bytes, yields a buffer-full error with the needed and the available size. Nothing is ever stored beyond the buffer.",
  ["inputs", "configurations", "histories"], "all read buffer sizes, message lengths and preceding traffic (garbage, other packets, partial packets)",
  "Read buffers in tests are 128 bytes and hold one small packet at a time.",
  ["src/bus/mod.rs"],
  [("capacity check", "src/bus/mod.rs: read_packet_deadline"), ("compaction", "src/bus/mod.rs: consume_read_bytes")], RXST)

p("C18", "Values are encoded and decoded exactly, and decoded elements dropped once",
  "For every integer type and (nested) array of them, encoding writes exactly the declared encoded size in little-endian element order and fails without writing beyond the buffer if it does not fit; decoding accepts exactly that many bytes and is the inverse. Decoding any other number of bytes gives an error, and every element value created while decoding an array is dropped exactly once, also when a later element fails.",
  ["inputs"], "all values, types and buffer lengths, and all positions at which the decoding of an element fails",
  "No test touches the value codec except through two numeric types.",
  ["src/bus/data.rs"],
  [("codec", "src/bus/data.rs: impl Data for numbers and arrays"), ("partial array ownership", "src/bus/data.rs: ArrayInitializer")],
  observe=["bus::Data trait methods"])

p("C19", "The known baud rate is always the one last accepted by the port",
  "A client or device starts with the baud rate its port reports, construction fails if the port cannot tell, and a later change takes effect if and only if the port accepts it; a refused change leaves the old rate. The reported baud rate and every automatic timeout follow the rate in effect.",
  ["histories", "fault_sequences"], "all sequences of baud rate changes with arbitrary failures, interleaved with transfers",
  "No test changes the baud rate.",
  ["src/bus/mod.rs", "src/client.rs", "src/device.rs"],
  [("baud rate state", "src/bus/mod.rs: Bus::set_baud_rate, with_buffers")],
  [("baud_rate", "rate used for timeouts", "src/bus/mod.rs: Bus.baud_rate")])

p("C20", "Port failures surface unchanged, stop the operation and leave it usable",
  "If discarding input, writing or reading fails at the port, the operation stops there without touching the port again and returns the port's own error tagged with the step that failed (discard, write or read). The client or device stays usable: later operations behave normally, and input received before a failed read is kept for the next read.",
  ["fault_sequences"], "a failure of any port call at any point of every operation, followed by further operations",
  "The mock port never fails.",
  ["src/bus/mod.rs", "src/error.rs", "src/client.rs"],
  [("error mapping", "src/bus/mod.rs: write_packet, read_packet_deadline; src/error.rs: From impls")])

p("C21", "Forbidden requests are rejected before anything reaches the bus",
  "A bulk read or bulk write naming the same motor twice, a sync write with data of the wrong length for a motor, and a bulk write with more than 65535 bytes for one motor are refused by the documented panic with not a single byte written, and the client works normally afterwards. Requests that are not forbidden are never refused this way.",
  ["inputs"], "all motor lists with duplicates at any two positions, and all data lengths at any position",
  "No test issues an invalid request.",
  ["src/instructions/bulk_read.rs", "src/instructions/bulk_write.rs", "src/instructions/sync_write.rs"],
  [("argument checks", "bulk_read.rs: write_bulk_read_instruction; bulk_write.rs: bulk_write; sync_write.rs: sync_write_bytes")])

p("C22", "A static buffer is handed out at most once, also under concurrency",
  "Each occurrence of the static buffer macro hands out its zero-initialised buffer of the requested size to exactly one evaluation, whichever threads evaluate it in whatever interleaving; every other evaluation panics. Different occurrences never share memory.",
  ["schedules"], "all interleavings of any number of threads evaluating the same or different occurrences",
  "The tests evaluate the macro in one thread only.",
  ["src/bus/mod.rs"], [("one-shot flag", "src/bus/mod.rs: static_buffer!")],
  [("USED", "whether the occurrence was evaluated", "src/bus/mod.rs: static_buffer!")], observe=["result or panic of each evaluation", "atomic operations of the macro"])

p("C23", "The command line tool sends exactly the instruction asked for",
  "For every command (ping, reboot, read, write and their 8, 16 and 32 bit forms) the command line tool opens the given port at the given baud rate and sends exactly the packet for that command, motor, address, value or data, accepting 'broadcast' or 254 as the broadcast address for all but the read commands. It exits with status 0 if and only if the motor's reply was accepted and prints the value read; it prints the model and firmware of a motor that was pinged, the ID, model and firmware of every motor found by a scan, and says that there is an alert if and only if a reply has the alert bit set; reads with a broadcast address are refused without sending. The shell completion script is the same on standard output and in a file, it replaces a file that exists, and the exit status tells if it could be written.",
  ["inputs"], "all commands, motor IDs, addresses, values and replies",
  "There is no test of the command line tool.",
  ["dynamixel2-cli/src/bin/dynamixel2/main.rs", "dynamixel2-cli/src/bin/dynamixel2/options.rs"],
  [("command dispatch", "dynamixel2-cli/src/bin/dynamixel2/main.rs: do_main"), ("motor ID parsing", "dynamixel2-cli/src/bin/dynamixel2/options.rs: MotorId")],
  observe=["bytes on a pseudo-terminal", "exit status and log output"])

p("C24", "On a real serial port, reads honour the deadline and keep byte order",
  "Through the built-in serial2 support, a read returns available bytes in order without loss, and otherwise reports a timeout, no more than a millisecond before the deadline; a read whose deadline has passed reports a timeout at once without waiting. Discarding input removes exactly what has been received so far, exactly timeouts are classified as timeouts, and baud rate changes reach the port. A client or device opened by path uses that port at that baud rate, and has room for messages of 128 bytes in each direction unless it is given buffers of its own.",
  ["schedules", "histories"], "all sequences of arrivals, reads with past or future deadlines, discards, writes and baud rate changes",
  "The serial2 adapter is not exercised by any test that runs without hardware.",
  ["src/serial_port/serial2.rs", "src/client.rs", "src/device.rs"], [("adapter", "src/serial_port/serial2.rs: impl SerialPort for serial2::SerialPort")],
  observe=["SerialPort trait calls on a pseudo-terminal pair"])

p("C25", "Behaviour is the same for every buffer type, feature set and log setting",
  "Using heap or static buffers, building with or without the std, alloc and serial2 features, enabling trace logging, and building with or without optimisation does not change any byte written, any deadline or any result, for any input. The library compiles with every one of these feature sets.",
  ["configurations", "inputs"], "all supported feature sets and both buffer kinds, over arbitrary traffic including malformed input",
  "CI only builds the feature sets; tests run with default features and, in most cases, one buffer kind.",
  ["src/lib.rs", "src/log.rs", "src/bus/mod.rs", "src/client.rs", "src/device.rs", "Cargo.toml"],
  [("logging macros", "src/log.rs"), ("feature gates", "src/*.rs")])

p("C26", "Client and device agree end to end on a shared, multi-drop bus",
  "With clients and devices of this library on one bus that carries every message to every other participant in arbitrary fragments, each device executes exactly the sequence of requests the client issued to it, with the same operands, and each request that succeeds at the client returns exactly what the addressed device answered to that very request. This holds for all request kinds and values, with other devices' replies on the bus and after lost or corrupted messages, provided no reply arrives later than the wait for it.",
  ["histories", "schedules", "fault_sequences"], "all sequences of requests, device answers, fragmentations, interleavings and losses or corruptions",
  "The integration tests run a few ideal requests in real time; the multi-reply ones are marked as expected failures of the mock.",
  ["src/client.rs", "src/device.rs", "src/bus/mod.rs", "src/instructions/*.rs"],
  [("both protocol sides", "src/client.rs, src/device.rs, src/instructions/*.rs")])

p("C27", "Errors keep their cause and values, and say them",
  "An error passed on as an error of a more general type (message, read, write or transfer error, directly or step by step) keeps its kind and its values. Its text contains these values as numbers (the expected and the actual one not mixed up) and, for a failure of the port, the port's own message, and the failed steps (discarding, writing, reading) have different texts. The public check functions report an error exactly when the compared values disagree (for packet IDs optionally ignoring broadcast, for motor errors ignoring the alert bit), holding both values; the error number and alert bit of a motor error are the low 7 bits and the high bit of its raw value.",
  ["inputs"], "all values of every kind of error and all ways to convert it",
  "The tests only look at the debug output of a few errors, if an operation fails.",
  ["src/error.rs"], [("conversions, texts and checks", "src/error.rs")], observe=["public API of the error types"])

p("C28", "With the log feature, everything sent, received and skipped is logged",
  "With the 'log' feature enabled, every instruction or reply that a client or device has sent and every intact packet that it has received as an instruction or reply to act on (including replies that report a motor error or come from the wrong motor) has been logged at trace level by the time the operation returns, as the bytes of the message as they were on the bus (from the header to the last parameter; the checksum may be left out). Noise that was skipped has been logged at trace level too, in order and as the bytes that were skipped.",
  ["inputs", "histories"], "all operations, values, replies, fragmentations and noise",
  "The tests do not look at the log.",
  ["src/bus/mod.rs", "src/log.rs", "src/lib.rs"], [("log statements", "src/bus/mod.rs: write_instruction, read_packet_deadline")],
  observe=["records of the log crate"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
