#!/usr/bin/env python3
"""Writes properties.jsonl (the single place where the property texts are edited)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

p("C01","A receiving client gets exactly the demodulation of its sample stream",
 "Every byte sent to an accepted receive client after the response is the demodulation, with the parameters of its own request, of the contiguous samples its source delivered since the client was attached: in order, with nothing lost, duplicated, reordered, altered or mixed in from another client. The result does not depend on how the network or the read buffers split the samples, nor on thread scheduling, as long as the client keeps reading fast enough. Once the source pauses, everything that can be demodulated from the samples received so far reaches the client.",
 ["schedules","inputs","histories","configurations"],
 "all thread interleavings, all TCP segmentations and read-buffer sizes, all request parameters the server accepts, all finite sample streams, any number of concurrent clients",
 "the tests feed one recorded file in fixed chunks with real threads; nothing varies the chunk boundaries, the join time, the number of clients or the interleaving",
 ["src/dsp_worker.c","src/sdr_worker.c","src/queue.c","src/sdr/sdr_server_client.c","src/sdr/plutosdr.c","src/tcp_utils.c","src/tcp_server.c","src/dsp/fsk_demod.c","src/dsp/fir_filter.c","src/dsp/clock_recovery_mm.c","src/dsp/quadrature_demod.c","src/dsp/dc_blocker.c"],
 [("one reader thread fans buffers out to per-client queues","src/sdr_worker.c:sdr_worker_callback"),("per-client queue and demodulation thread","src/dsp_worker.c:dsp_worker_callback"),("history kept between buffers","src/dsp/*.c")],
 ["bytes the client reads from its socket","bytes the sample source put on the wire"])
p("C02","A slow client loses only whole buffers and slows nobody else",
 "When a live-source client falls behind, the samples processed for it are still an ordered subsequence of whole received buffers, each used at most once and never torn or mixed; no buffer is discarded unless as many buffers as the configured queue holds are outstanding for that client. A client that stops reading never delays the reading of the source or the streams of other clients.",
 ["schedules","histories","configurations","fault_sequences"],
 "all paces at which clients read (including stalls of any length), all queue and buffer sizes, all interleavings of the reader, the demodulation threads and the clients",
 "queue tests run put/take from fixed code on one or two threads; no test has a slow client or two clients of different speed",
 ["src/queue.c","src/dsp_worker.c","src/sdr_worker.c"],
 [("bounded queue that overwrites its newest entry when full","src/queue.c:queue_put"),("buffer being processed is detached from the queue","src/queue.c:take_buffer_for_processing")],
 ["the client's sample recording and its socket stream","progress of the upstream socket","streams of the other clients"])
p("C03","File reception processes every sample of the file exactly once",
 "A client receiving from a file gets the demodulation of the whole file from its first to its last sample, in order and each sample exactly once, shifted by the requested frequency offset. No speed of the client, no scheduling and no buffer or queue size makes it lose or repeat a sample. Any number of file clients can run at the same time without influencing each other.",
 ["schedules","inputs","configurations","histories"],
 "all file lengths, offsets, buffer and queue sizes, all client speeds and interleavings, including a reader far faster than the client",
 "one test reads one recorded file with a fixed buffer size and a fast client; the first samples race with client registration and no test checks that",
 ["src/sdr/file_source.c","src/sdr_worker.c","src/queue.c","src/dsp_worker.c","src/dsp/sig_source.c","src/tcp_server.c"],
 [("blocking queue for file sources","src/queue.c:queue_put"),("reader starts with a registered consumer","src/sdr_worker.c"),("continuous phase of the shift","src/dsp/sig_source.c")],
 ["client socket stream, sample recording, demodulated recording"])
p("C04","Recordings contain exactly what was processed for that client",
 "The sample recording a receive client asked for holds exactly the samples processed for that client, the demodulated recording exactly the bytes demodulated from them (and, when both destinations are chosen, exactly the bytes sent on its socket), and a transmit recording exactly the samples given to the device, in order. After the session ends the recordings are complete, and at every earlier instant what is on disk is a prefix of that. Every session writes only its own files, named after the identifier the server returned to it.",
 ["schedules","crash_points","histories","configurations"],
 "all ways and moments a session ends (shutdown message, half close, close, reset, upstream end, server stop), all destinations, all instants at which the disk is looked at",
 "tests read back one recording after a polite shutdown of a single client",
 ["src/dsp_worker.c","src/tcp_server.c","src/queue.c"],
 [("files written by the demodulation thread and closed after it is joined","src/dsp_worker.c:dsp_worker_destroy"),("transmit dump next to the device write","src/tcp_server.c:handle_tx_data")],
 ["contents of the recording files at arbitrary instants and after the session","socket stream","samples reaching the transmit device"])
p("C05","Acknowledged transmit data is transmitted exactly once, in order",
 "The samples reaching the transmit device are the phase-continuous modulation, with the parameters of the request and shifted by the requested offset, of the concatenated payloads of the transmit messages in the order received, independent of how the bytes were split into messages, network segments or internal buffers. Each transmit message gets exactly one response, in order: success only if all of it was transmitted, failure otherwise; after a failed message the session goes on with the next one. Nothing that was not sent in a transmit message is ever transmitted. (A message whose bytes do not arrive within the read timeout counts as truncated: it gets a failure response and what follows it is unspecified.)",
 ["schedules","inputs","histories","fault_sequences"],
 "all payload splits, message sizes up to and beyond the limit, pipelining, segmentations, truncated, malformed and unknown messages in between, device failures at any write",
 "tests send one or two messages of fixed size and check the file size or the first samples",
 ["src/tcp_server.c","src/api_utils.c","src/tcp_utils.c","src/dsp/gfsk_mod.c","src/dsp/interp_fir_filter.c","src/dsp/frequency_modulator.c","src/dsp/sig_source.c","src/sdr/file_source.c","src/sdr/plutosdr.c"],
 [("split into device buffers","src/tcp_server.c:handle_tx_data"),("modulator state kept across calls","src/dsp/frequency_modulator.c, src/dsp/interp_fir_filter.c"),("message framing","src/api_utils.c")],
 ["samples pushed to the (simulated) device or written to the output file","responses read by the client"])
p("C06","The transmitter (and a local receiver) has one owner at a time and is released",
 "At any moment at most one client owns the transmit device, and at most one owns a local (PlutoSDR) receiver; everybody else asking meanwhile is refused with the code for 'in use', without disturbing the owner. The device is given back whatever way its owner leaves or fails, including a request that failed half way: a request made after that, and after the device has been shut down, is accepted within bounded time.",
 ["schedules","histories","fault_sequences"],
 "all interleavings of competing requests, departures and failures; all ways of leaving",
 "one test checks a second transmit client while the first is connected; the release path and races are untested",
 ["src/tcp_server.c","src/sdr/plutosdr.c","src/linked_list.c"],
 [("ownership flags recomputed from the list of live workers","src/tcp_server.c:cleanup_terminated_threads"),("check and set under the server mutex","src/tcp_server.c:tcp_server_init_tx_device, tcp_server_init_rx_device")],
 ["responses to competing requests","device open/close history"])
p("C07","Clients of the same signal share one upstream connection, and only those",
 "Receive clients that ask for the same centre frequency, sampling rate and offset at the same time are served from one upstream connection, and a client with any different value gets its own, opened with exactly its parameters. A client joining or leaving (in any order and manner, including the one that caused the connection) neither interrupts, delays nor alters the stream of those that stay. The upstream connection is shut down politely and closed when, and only when, its last client has left or it ended itself.",
 ["schedules","histories","configurations"],
 "all join and leave orders of up to several clients over a few parameter sets, all interleavings of joining with leaving and with stream data",
 "one test has two clients sharing a connection and leaving one after the other",
 ["src/tcp_server.c","src/sdr_worker.c","src/sdr/sdr_server_client.c","src/linked_list.c"],
 [("search for a live worker with the same parameters","src/sdr_worker.c:sdr_worker_find_closest"),("reader destroyed with its last consumer","src/sdr_worker.c:sdr_worker_remove_dsp_worker")],
 ["connections, requests and shutdowns seen by the upstream server","streams of the clients"])
p("C08","One client's misbehaviour never harms the server or other clients",
 "Whatever bytes a client sends, however slowly, and however it disconnects, the server neither crashes nor hangs: other clients keep their sessions and get the same streams and answers as without it, and new clients are still accepted and answered, each offender delaying them by no more than a small multiple of the configured read timeout.",
 ["inputs","schedules","histories","fault_sequences"],
 "all byte strings and truncations, all stalls, resets and half closes at any byte, all request values, any number of such clients next to well-behaved ones",
 "tests send a handful of invalid requests, one at a time, on an otherwise idle server",
 ["src/tcp_server.c","src/api_utils.c","src/tcp_utils.c","src/dsp_worker.c","src/sdr_worker.c","src/dsp/*.c"],
 [("request validation","src/tcp_server.c:validate_rx_request, validate_tx_request"),("read timeout on client sockets","src/tcp_server.c:acceptor_worker"),("one thread per client","src/tcp_server.c:tcp_worker_callback")],
 ["process health, responses and streams of the other clients, latency of new requests"])
p("C09","Every request gets exactly one correct response",
 "A ping, receive or transmit request, or any other first message, gets exactly one well-formed response with the status and reason its content and the server's state call for, regardless of how its bytes are fragmented; a refused connection is then closed, and on an accepted one the response precedes everything else. Accepted clients get identifiers that are never reused during a run of the server. Messages that need no answer get none.",
 ["inputs","schedules","histories","configurations"],
 "all requests (valid, each field missing or invalid, malformed, oversized), all fragmentations, all interleavings with other clients' requests and sessions",
 "tests send each request in one piece to an idle server; the response can race with the stream and with an early departure",
 ["src/tcp_server.c","src/api_utils.c","src/tcp_utils.c","api.proto","src/api.h"],
 [("dispatch by message type","src/tcp_server.c:acceptor_worker"),("response encoding","src/api_utils.c:api_utils_write_response"),("request decoding","src/api_utils.c")],
 ["bytes read by each client"])
p("C10","Everything a session used is released when it ends",
 "After a session or a refused request has ended and the server has handled a later request, the threads, descriptors, files, memory, devices and upstream connections it used are all released, each exactly once, so the server can serve any number of sessions; when the server stops nothing is left. No descriptor, file, buffer or device is used after it was released.",
 ["histories","schedules","fault_sequences"],
 "all sequences of sessions and refusals, all ways of ending them, all interleavings of their ends with each other and with new requests",
 "tests never count resources; a leaked descriptor or thread is invisible to them",
 ["src/tcp_server.c","src/sdr_worker.c","src/dsp_worker.c","src/api_utils.c","src/sdr/*.c","src/queue.c","src/linked_list.c","src/dsp/*.c"],
 [("destructors and joins","src/tcp_server.c:tcp_worker_destroy, src/sdr_worker.c:sdr_worker_destroy, src/dsp_worker.c:dsp_worker_destroy")],
 ["allocator, descriptor table, thread table, file table and device mock of the simulator"])
p("C11","A stop request terminates the server cleanly at any moment",
 "Whenever a stop signal arrives (during start-up, while accepting, reading a request, opening a device, streaming or transmitting, or while other sessions end, once or repeatedly), the process terminates within bounded time provided connected peers read or disconnect and devices return. Before it does, every session is ended, its recordings are complete, upstream connections and devices are closed, and all threads have finished; the process never crashes on the way.",
 ["schedules","crash_points","histories"],
 "the stop request at every scheduling point of every simulated history, with any number of sessions in any state",
 "tests stop the server at the end of each test, when it is idle, and never send a signal",
 ["src/main.c","src/tcp_server.c","src/sdr_worker.c","src/dsp_worker.c","src/sdr/file_source.c","src/sdr/sdr_server_client.c","src/sdr/plutosdr.c","src/queue.c"],
 [("signal handler shuts the listening socket down","src/main.c, src/tcp_server.c:tcp_server_destroy"),("acceptor destroys all workers and joins them","src/tcp_server.c:acceptor_worker")],
 ["exit of the process main function, thread table, files, device and connection history"])
p("C12","A failing system call, allocation or disk harms only the request that hit it",
 "When memory allocation, thread creation, a socket call, a file operation or the radio library fails, or is interrupted or completes partially, the process survives; the request or session during which it happened either is unaffected, or is refused or ended with its resources released. Other sessions are unaffected, data already acknowledged or recorded stays correct, and once the failures stop new requests are served again.",
 ["fault_sequences","schedules","histories"],
 "each failure kind at each call, singly and in short sequences, under all interleavings",
 "tests inject a few failures through the radio mock only; no other call ever fails in them",
 ["src/tcp_server.c","src/sdr_worker.c","src/dsp_worker.c","src/queue.c","src/api_utils.c","src/tcp_utils.c","src/sdr/*.c","src/dsp/*.c","src/linked_list.c"],
 [("error paths of every constructor","src/**"),("disk-full handling ends the session","src/dsp_worker.c:dsp_worker_callback"),("retry of interrupted calls","src/tcp_utils.c")],
 ["process health, responses, streams, recordings, resource tables"])
p("C13","Doppler correction follows sample position, not chunking or the clock",
 "The frequency shift applied to a received or transmitted sample is the satellite's Doppler shift (plus, for transmission, the constant offset, and with opposite sign for transmission) at the start time plus the sample's position divided by the sampling rate, up to the drift within one buffer and 1 Hz of rounding, and its phase is continuous. The start time is the requested one or, if none was given, the wall clock when the first sample is processed. The correction does not depend on buffer boundaries (beyond that lag), scheduling, pauses between messages, or later jumps of the clock.",
 ["inputs","schedules","histories","fault_sequences"],
 "all splits of the sample stream, all pauses and clock jumps, several satellites, stations, rates and start times",
 "the test processes one file with one chunk size and a fixed start time",
 ["src/dsp/doppler.c","src/dsp/sig_source.c","src/dsp_worker.c","src/tcp_server.c","src/sgpsdp/sgp_time.c"],
 [("shift recomputed every second of samples and interpolated","src/dsp/doppler.c:doppler_process"),("lazy start time","src/dsp/doppler.c:doppler_process")],
 ["instantaneous frequency of transmitted samples","demodulated stream of a receive client"])
p("C14","The buffer queue is a linearizable bounded FIFO",
 "Under any number of concurrent callers' interleavings, the queue between reader and processor hands out the buffers put into it in order, each at most once and unmodified until it is given back. A full queue replaces only its newest waiting buffer when non-blocking (or refuses the new one if none is waiting), and makes the writer wait when blocking, losing nothing. An interrupt wakes every waiter, after it the waiting buffers can still be taken, then the reader is told that the end was reached.",
 ["schedules","histories","configurations"],
 "all interleavings of put, take, give back and interrupt for all queue sizes, buffer sizes and lengths, both modes",
 "the unit tests call it sequentially, except for one fixed two-thread case",
 ["src/queue.c"],
 [("mutex and condition variable, free/filled/detached lists","src/queue.c")],
 ["return values and buffer contents of the queue operations under the simulated scheduler"])
p("C15","Upstream failures are detected, lose no received sample, and are recoverable",
 "If the upstream sample server refuses, rejects, answers malformed, stalls or disconnects at any byte, the affected request is refused or the affected clients first get the demodulation of all complete samples received and are then disconnected; no other client is affected. A pause of any length, also in the middle of a sample or longer than the read timeout, neither loses, repeats nor misaligns samples. A later request connects anew and is served as soon as the upstream server is back.",
 ["fault_sequences","schedules","inputs","histories"],
 "upstream failure at every byte of the handshake and of the stream, all pauses and segmentations, restarts, several clients sharing the failed connection",
 "tests cover a missing upstream server and one rejected request; nothing disconnects or pauses mid-stream",
 ["src/sdr/sdr_server_client.c","src/sdr_worker.c","src/dsp_worker.c","src/tcp_server.c","src/tcp_utils.c"],
 [("partial reads","src/tcp_utils.c:tcp_utils_read_data_partially"),("end of stream ends the sessions","src/sdr_worker.c:sdr_worker_callback")],
 ["responses, streams and disconnects seen by clients; connections seen by the upstream server"])
p("C16","The PlutoSDR is configured, used and released consistently",
 "A session using the PlutoSDR sets frequency, bandwidth, rate, gain and filters of its direction as requested before any sample flows; samples are exchanged in order and in full scale conversion, and a transmission is never interrupted by a receive session starting or ending (in particular its oscillator stays on). The library context is opened when first needed, shared by both directions, closed exactly once when the last session ends, also after failed set-ups, and no library object is used after it was destroyed or concurrently with its destruction.",
 ["schedules","histories","fault_sequences","configurations"],
 "all orders and interleavings of receive and transmit sessions starting, streaming, failing at any library call and ending",
 "the mock in the tests ignores arguments and lifetimes; RX and TX never overlap in a failing or ending state",
 ["src/sdr/plutosdr.c","src/sdr/iio_lib.c","src/tcp_server.c","src/sdr_worker.c"],
 [("reference-counted global context","src/sdr/plutosdr.c:plutosdr_create, plutosdr_destroy"),("channel configuration","src/sdr/plutosdr.c:plutosdr_configure_streaming_channel")],
 ["every call into the (simulated) radio library with its arguments, thread and order"])
p("C17","What one session transmits another session receives",
 "Bytes sent through a transmit session and recorded to a file come back bit-exact, after the start-up transient and up to the known delay, when that file is received by a session with matching parameters. This holds for every payload with regular bit transitions (as scrambled data has), message split, buffer and queue size, offset applied and removed again, and while other sessions run.",
 ["inputs","configurations","schedules"],
 "all random payloads, modulation parameters with an open eye, splits, sizes and interleavings",
 "a test does it for one fixed payload in one split with one buffer size",
 ["src/tcp_server.c","src/dsp/gfsk_mod.c","src/dsp/fsk_demod.c","src/sdr/file_source.c","src/dsp_worker.c","src/sdr_worker.c"],
 [("modulator and demodulator chains","src/dsp"),("file device in both directions","src/sdr/file_source.c")],
 ["payload sent versus symbols received"])
p("C18","The server runs with exactly its configured settings or does not start",
 "Started with a readable, well-formed file whose values are valid, the server comes up and works with exactly those settings (bind address and port, read timeout, buffer and queue size, recording directory, kinds of receiver and transmitter, upstream address and port, radio gains and timeout), whatever their order, spelling, number format or comments; a setting that is absent has its default (127.0.0.1:8091, 5 s, 262144 samples, 64 buffers, $TMPDIR or /tmp, sdr-server at 127.0.0.1:8090, no transmitter, gains 0.0, 10000 ms) and an unknown one changes nothing. With a file that is missing, unreadable or malformed, or in which a setting has the wrong type or an impossible value (a read timeout, buffer or queue size that is not positive, a port that does not fit, an unknown receiver or transmitter, no IPv4 address to bind to), it ends with a failure status without ever listening; it never crashes, hangs or runs with another value instead. The same holds when resources fail while it starts: it then either serves or ends with a failure status.",
 ["configurations","fault_sequences","inputs"],
 "all configuration files, all failures of allocations, sockets, threads and the radio library during start-up",
 "tests read six sample files without starting the server and check a few of the fields",
 ["src/server_config.c","src/main.c","src/tcp_server.c","src/sdr/iio_lib.c"],
 [("option lookup with defaults and validation","src/server_config.c:server_config_create"),("start-up sequence and its clean-up","src/tcp_server.c:tcp_server_create, src/main.c:main")],
 ["exit status, address and port the process listens on, addresses it connects to, directory of its recordings, radio attributes, time after which unfinished requests are given up, drops of slow clients"])
p("C19","Filter design, arctangent and orbit propagation are numerically accurate",
 "Filter taps, the arctangent approximation, and SGP4/SDP4 positions agree with their mathematical definitions within the stated accuracy for every valid input.",
 ["inputs"],"all valid numeric inputs","tests compare a few reference vectors",
 ["src/dsp/lpf_taps.c","src/dsp/gaussian_taps.c","src/math/fast_atan2f.c","src/sgpsdp/sgp4sdp4.c"],
 [("closed-form computations","src/dsp, src/math, src/sgpsdp")],["returned values"])
with open("properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
