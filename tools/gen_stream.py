HAL = "harness plays HAL, timer and application"
SIMN = "Both ends run the real code on a simulated line in virtual time. "
FR = ["include/embc/stream/framer.h", "include/embc/stream/framer_util.h", "src/stream/framer.c"]
prop("C22", "Frames follow the documented format exactly",
     "Every frame the framer builds or sends (data and acknowledgement, any id, port, message id, port definition and payload of 0 to 240 bytes, through every way of sending) is byte for byte the documented encoding of those fields, and validation accepts a byte string exactly when it is such an encoding. Data frames carry consecutive ids modulo 16 and the payload given by the caller; invalid sends are refused without effect.",
     [I], "all field values, payloads and byte strings given to validate",
     "The tests build a few frames with the code under test and compare them with themselves.", FR,
     [("construct_frame, construct_ack, validate", "src/stream/framer.c"), ("send paths", "src/stream/framer.c")], ["bytes handed to the HAL, return codes"],
     "property-based testing against an independent frame encoder and decoder", NOTE)
prop("C23", "Damaged frames are never taken for good ones",
     "A data frame damaged by any error its checksums detect (up to 3 flipped bits or a short burst in the header; up to 4 flipped bits or a 32-bit burst behind it; lost bytes) is never delivered and never acknowledged as received. If the header is intact, the damage is reported by one negative acknowledgement with the frame's identity, and the intact retransmission is delivered exactly.",
     [F, I], "all frames and all errors in the detectable classes",
     "The tests damage one fixed byte of one fixed frame.", FR, [("receive state machine, header and frame CRC", "src/stream/framer.c")],
     ["port callbacks, acknowledgements sent"], "fault-injecting property-based testing (generated error patterns)", NOTE)
prop("C24", "Every frame in a byte stream is found, whatever surrounds it",
     "For every received byte stream, cut into any chunks, the framer reports exactly the frames a reference scanner of the documented format finds: valid frames between garbage, repeated start bytes, truncated, damaged or forged frames are all found, once, in order and with their exact bytes, as soon as they are complete, and nothing else is reported.",
     [I], "all byte streams and chunkings",
     "The tests feed single frames, one with a little leading garbage.", FR, [("resynchronization after a bad frame", "src/stream/framer.c")],
     ["receive hook"], "property-based testing against a reference scanner, coverage-guided stream mutation", NOTE)
prop("C25", "The link delivers every message exactly once, in order, intact",
     "Two connected framers deliver every message either sends to the other's port callback exactly once, in the order sent and with its exact port, ids and payload, and complete it with status 0, whatever transmissions and acknowledgements the line loses, damages, cuts or doubles within the retry limit, and however HAL completion, timer and callbacks interleave.",
     [H, F], "all message sequences in both directions and all fault sequences within the retry limit, all timings",
     "The tests script single faults on a few messages with one endpoint and a mock peer.", FR,
     [("transmit window, acknowledgement mask, receive window, retransmission", "src/stream/framer.c")], ["port callbacks, completion callbacks"],
     "stateful property-based testing of two real endpoints over a fault-injecting simulated line", NOTE + SIMN + "Known finding: rx-timeout-gap.", state=())
prop("C26", "Every send completes exactly once and truthfully",
     "Whatever the line does, including outages longer than all retries, every send is completed exactly once, and the successful ones in the order sent. Status 0 is reported only if an intact copy arrived, and then the message was delivered exactly once; an error status is reported only after all retries were made.",
     [H, F], "all message sequences and all line behaviours, including outages in one or both directions",
     "The tests let one frame run out of retries.", FR, [("retry limit, completion, window shift", "src/stream/framer.c")], ["completion callbacks, port callbacks"],
     "stateful property-based testing of two real endpoints over a fault-injecting simulated line", NOTE + SIMN + "Known finding: wrap-after-outage.")
prop("C27", "The framer survives any input and every buffer has one owner",
     "Whatever bytes arrive and however HAL completion, timer, sends, resync and callbacks interleave, the framer does not crash, assert or loop; it never touches a buffer the HAL or application owns, never frees or completes twice, and keeps at most one timer. Every send is completed at most once and every buffer is back in its pool after finalize.",
     [I, H], "all received byte streams (with valid checksums too) and all interleavings of API calls and HAL events",
     "The tests use a well-behaved mock peer; no test sends forged acknowledgements or calls back in odd orders.", FR,
     [("acknowledgement handling, buffer hand-over", "src/stream/framer.c")], ["crashes, fatal reports, buffer accesses and ownership, HAL calls"],
     "stateful fuzzing of one endpoint against an ownership model (poisoned buffers, hostile peer)", NOTE)
prop("C28", "The link recovers by itself once the line is clean",
     "After any disturbance (loss, damage, cut or doubled frames, silence in one or both directions, for any time), once the line is clean again everything in progress completes within its bounded retry time, and from then on messages are delivered in order, once, intact, with one transmission each and status 0, without any outside action.",
     [F, H], "all disturbance histories followed by a clean line",
     "The tests never run a link beyond one disturbance.", FR, [("window resynchronization, timeouts", "src/stream/framer.c")], ["deliveries, completions, transmissions after recovery"],
     "stateful property-based testing of two real endpoints over a fault-injecting simulated line (bounded liveness)", NOTE + SIMN)
prop("C29", "Pings and status requests are answered truthfully",
     "Every ping is answered exactly once, in order, with its message id and payload; every status request with the peer's counters at a moment between request and answer; ordinary traffic is not affected. At all times the status counters equal the number of bytes, frames, errors, retransmissions and acknowledgements that really occurred.",
     [H, F], "all mixtures of pings, status requests and messages over a lossy line",
     "The tests send one ping and one status request on a clean line.", FR, [("port 0 handling, status structure", "src/stream/framer.c")], ["port 0 callbacks, status structure"],
     "stateful property-based testing of two real endpoints, counters against counted line events", NOTE + SIMN)
prop("C37", "Resync aborts what is in progress and leaves a working link",
     "A resync at any moment completes every message its caller has in progress exactly once with the aborted status; messages either side sends afterwards are delivered exactly once, in order, intact and completed with status 0, messages in flight at that moment are delivered at most once, in order, and not after the resync has reached the peer.",
     [H, F], "all moments of resync in all message histories over a lossy line",
     "The tests resync an idle framer and one with a single pending frame.", FR, [("resync request and its handling", "src/stream/framer.c")], ["completions and deliveries before and after a resync"],
     "stateful property-based testing of two real endpoints over a fault-injecting simulated line", NOTE + SIMN)
prop("C42", "Acknowledgements name exactly what arrived and are believed for exactly that",
     "Every intact data frame gets one acknowledgement with its id, port and message id, whose mask names that frame, the frames of the receive window received before it, and none that was not received; each acknowledged frame is delivered once, in order, at once when nothing is missing and otherwise by the receive timeout. On the sending side an acknowledgement completes exactly the frames it names (in order); a frame is transmitted again only if it was refused, timed out or passed over (at once in the first and last case), and given up only after all retries.",
     [H, F, I], "all sequences of data frames a peer can send (skipped, late, repeated, damaged ids, resyncs) and all acknowledgements (any id, mask, status and length)",
     "The tests script a few acknowledgements and check the mask of two of them.", FR, [("rx_hook_fn, acknowledgement mask", "src/stream/framer.c"), ("tx_confirmed, handle_ack", "src/stream/framer.c")],
     ["acknowledgements sent, deliveries, completions, retransmissions"], "stateful property-based testing of one endpoint against reference models of receive and transmit window", NOTE)
prop("C30", "Asynchronous streams transfer files exactly with flow control",
     "A stream source sends exactly the configured bytes, in order, never more than a write request allows (buffer size, maximum transfer unit, one write per request) and only while open, then closes once; the done callback reports the outcome once, and success only if every write succeeded. A stream sink answers every request once, asks for data only when it has a destination, stores exactly what fits and reports an overflow. Joined directly or through queues they transfer any file that fits exactly.",
     [H], "all schedules of write requests, immediate and deferred responses, aborts, failures and file sequences",
     "The tests send one 13-byte string with immediate responses.",
     ["include/embc/stream/async.h", "include/embc/stream/async_source.h", "include/embc/stream/async_sink.h", "src/stream/async.c", "src/stream/async_source.c", "src/stream/async_sink.c"],
     [("producer and consumer send()", "src/stream/async_source.c, src/stream/async_sink.c")], ["transactions on both sides, done and write callbacks, destination bytes"], MB, NOTE)
