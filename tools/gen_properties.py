#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
                  "mechanism": [dict(name=n, where=w) for n, w in mech],
                  "observe_at": list(observe), "hook_needed": hook}})
L="bsp-server/src/lib.rs"; T="bsp-server/src/transporter.rs"; M="bsp-server/src/message.rs"
I="bsp-server/src/io_thread.rs"; R="bsp-server/src/request.rs"; N="bsp-server/src/notification.rs"; S="bsp-server/src/response.rs"
NOIO="The existing tests (de)serialise a dozen literal messages; no test opens a connection, starts an I/O thread, or reads or writes a frame."

prop("C01","Received messages are delivered exactly once, in order and unaltered",
 "Every complete, well-formed message the peer sends up to and including its exit notification is handed to the application exactly once, in the order sent, with the same kind (request, response, notification), method, id (numeric and string ids stay distinct) and params, result or error. This holds over stdio and TCP however the transport splits, delays or interrupts the bytes, whatever other framing headers or JSON layout (key order, whitespace, escapes, absent params) the peer uses, and however slowly or from however many threads the application receives.",
 ["inputs","schedules","fault_sequences"],"all message sequences x all splittings, delays and interruptions of the byte stream x all schedules of reader and receiving threads",
 NOIO,[T,M,R,N,S,"bsp-server/src/request/id.rs","bsp-types/src"],
 [("reader thread: read frame, hand over on a rendezvous channel",T),("header parsing and exact-length body read",M),("message classification and typed decoding",R)],
 [("reader channel","messages read but not yet received",T)],["Connection::receiver"])
prop("C02","Sent messages become whole frames, in order, exactly once",
 "Every message for which a send reported success is written to the transport as exactly one frame: a Content-Length header giving the byte length of a JSON-RPC 2.0 body that carries that message's kind, method, id and params, result or error. Frames are never interleaved, torn, repeated or reordered with respect to other messages of the same sending thread or to messages whose sends had returned before theirs began, and nothing but such frames ever appears on the transport. This holds for any number of sending threads and however slowly, partially or interruptedly the transport accepts bytes.",
 ["inputs","schedules","fault_sequences"],"all message contents x all interleavings of sending threads x all partial, slow and interrupted writes",
 NOIO,[T,M,L,R,N,S],[("single writer thread behind a rendezvous channel",T),("length computed on the encoded body, write_all",M)],
 [("writer channel","messages accepted but not yet written",T)],["bytes on stdout / the socket"])
prop("C03","No message is held back waiting for later traffic",
 "Once the last byte of a frame has arrived, the message becomes available to the application without any further byte arriving, even if the input then stays silent, stays open or goes on with an incomplete frame. Once a send has reported success, its complete frame reaches the transport without any further send, receive, close or exit, as long as the transport accepts bytes.",
 ["schedules","inputs","histories"],"all message sizes and histories x all schedules, observed at every quiescent point (nothing left runnable) rather than at the end of the session",
 NOIO+" Buffering bugs are invisible to a test that closes the stream before looking.",[T,M],
 [("read_exact of exactly the announced length",M),("flush after each message",M)],[],["quiescent points"])
prop("C04","The handshake answers early requests and completes in order",
 "While waiting for the initialize request the server answers every other request with exactly one error response carrying that request's id and code -32002, in order, and drops notifications other than exit. It then calls the application's handler exactly once with the client's initialize params, sends the handler's result once under the initialize request's id, and reports success with those params only after the client's initialized notification has arrived; messages after that notification are left for the application.",
 ["inputs","schedules","histories"],"all sequences of messages before initialize, all ids and params, all delays and schedules, over stdio, TCP and in-memory connections",
 NOIO+" No test calls the handshake.",[L,S],[("initialize_start / initialize_finish",L)],[],["Connection::initialize","frames on the transport"])
prop("C05","A handshake that cannot complete fails with an error",
 "If the connection ends, an exit notification comes before the handshake is complete, the input becomes unreadable, or something other than the initialized notification follows the initialize result, then initialization returns an error: it never reports success, panics, or stays blocked. It reports success only if the client really sent both the initialize request and the initialized notification.",
 ["fault_sequences","crash_points","schedules"],"all points of the handshake at which the peer can disappear, reset, send something else or stop accepting output x all schedules",
 NOIO+" No test fails a handshake.",[L,T],[("error returns in initialize_start / initialize_finish",L)],[],["Connection::initialize result"])
prop("C06","Shutdown is answered once and waits at most 30 s for exit",
 "As long as the transport accepts output, handling a shutdown request sends exactly one success response with a null result under that request's id and then reports success exactly when the next message received, within 30 seconds, is the exit notification. If another message comes, the input ends, or 30 seconds pass without one, it returns an error without waiting longer. For any other request it returns false, sends nothing and receives nothing.",
 ["schedules","inputs","histories"],"all arrival times of the next message around the 30 s limit, all next messages, all schedules, jumps of the wall clock",
 NOIO+" No test handles a shutdown or controls a clock.",[L],[("recv_timeout of 30 s",L)],[],["Connection::handle_shutdown"])
prop("C07","The exit notification ends the input",
 "After delivering the peer's exit notification, the library delivers nothing further, whatever bytes follow it: the application's receiver then reports disconnection, and the reading thread ends successfully without waiting for more input or for the stream to be closed. No other message ends the input.",
 ["inputs","schedules","fault_sequences"],"all byte sequences around an exit notification (before, in the same packet, after), input left open or closed, all schedules, stdio and TCP",
 NOIO,[T],[("is_exit check after hand-over",T)],[],["Connection::receiver","IoThreads::reader"])
prop("C08","Joining drains accepted output and always terminates",
 "After the peer has sent exit or closed its side and the application has dropped its connection, waiting for the I/O threads returns in bounded time as long as the peer keeps accepting bytes. When it returns - with success or with an error about the input - both I/O threads have ended and every message whose send reported success is completely on the transport, so that the process may exit at once. It returns success when the input ended cleanly, everything received was taken and no write failed.",
 ["schedules","crash_points","fault_sequences"],"all schedules of application, reader and writer at the end of a session, process exit immediately after the wait, slow and partial writes, clean and damaged ends of input",
 NOIO+" Losing the last reply needs a particular schedule at process exit.",[I,T],[("IoThreads::join",I)],[],["IoThreads::join","bytes on the transport at that instant"])
prop("C09","Damaged input yields no invented messages and is reported",
 "If the input is cut inside a frame, has a missing or unparsable length, or a body that is not UTF-8, not JSON or not a protocol message, then every complete message before the damage is delivered, nothing is delivered from the damaged frame or after it, the application's receiver reports disconnection and waiting for the I/O threads returns an error. Input that ends between frames is a clean end and no error. A frame is never delivered as a different kind of message than it is.",
 ["fault_sequences","crash_points","inputs"],"all byte positions at which the stream can be cut, reset or corrupted, all kinds of framing damage, all schedules",
 NOIO,[M,T],[("InvalidData / UnexpectedEof errors in read_msg_text and Message::read",M),("error propagation out of the reader thread",T)],[],["Connection::receiver","IoThreads::join"])
prop("C10","A failed write loses at most one accepted message and is reported",
 "If writing to the transport fails at any byte, what was written is a prefix of the frames of the accepted messages in order, at most the message being written at that moment is lost although its send had succeeded, and every later or still blocked send reports an error and returns its message. Nothing is written after the failure, and waiting for the I/O threads returns an error.",
 ["fault_sequences","crash_points","schedules"],"all byte offsets and error kinds (broken pipe, reset, full disk, I/O error) of the failing write x all schedules of the senders",
 NOIO,[T,L],[("writer thread returns the error and drops its receiver",T)],[],["send results","bytes written","IoThreads::join"])
prop("C11","Back-pressure: the library never queues messages without bound",
 "While the application is not receiving, the library takes at most one message beyond those the application has received (plus a fixed-size read-ahead of at most 64 KiB) out of the input, however much the peer sends. While the transport is not accepting bytes, at most one message beyond those completely written is accepted from senders; further sends block until the transport makes progress.",
 ["schedules","histories","inputs"],"all stall points and durations of application and peer, all message counts and sizes, all schedules",
 NOIO,[T],[("bounded(0) rendezvous channels in both directions",T)],[],["bytes consumed from the input","completed sends"])
prop("C12","Timed and non-blocking sends are all-or-nothing and on time",
 "A non-blocking, timed or deadline send either reports success and its message is then written exactly once like any other, or reports failure, hands the unchanged message back and that message is never written. A non-blocking send does not wait, and a timed send that fails by timeout does so neither before its time limit nor noticeably after it.",
 ["schedules","histories","fault_sequences"],"all interleavings of time limits with the writer becoming free, all stalls of the peer, mixed with blocking sends from other threads",
 NOIO+" No test controls time or the writer.",[L,T],[("try_send / send_timeout / send_deadline delegate to the rendezvous channel",L)],[],["send results","frames on the transport"])
prop("C13","Input and output stall and fail independently",
 "A peer that does not read its output does not delay delivery of what it sends, and an application that does not receive does not delay output. The end or failure of one direction leaves the other working: after the input has ended or become unreadable, replies can still be sent and reach the peer, and after output has failed, input is still delivered.",
 ["schedules","fault_sequences"],"all stalls, ends and failures of one direction at any point x traffic in the other direction x all schedules",
 NOIO,[T],[("separate reader and writer threads, channels and stream handles",T)],[],["Connection::receiver","frames on the transport"])
prop("C14","Connections in one process do not affect each other",
 "When several connections (stdio, TCP, in-memory) are open in one process, every message is delivered to the connection it was sent on and to no other, and the end, failure or stall of one connection neither loses, alters nor delays messages of another.",
 ["schedules","configurations","fault_sequences"],"all mixes of connections, all interleavings of their traffic and failures",
 NOIO+" No test has two connections.",[L,T],[("no state shared between transports",T)],[],["Connection::receiver","frames on each transport"])
prop("C15","In-memory pairs are lossless FIFO links in both directions",
 "With an in-memory pair, every message sent on one end is received exactly once, unaltered and in order on the other end (each sender's messages, and messages whose sends did not overlap), the two directions are independent, and a blocking send never waits for the receiver. When one end is dropped, the other still receives everything sent before and then sees disconnection, and its sends fail and return the message.",
 ["schedules","histories"],"all interleavings of senders, receivers and drops on both ends, any number of queued messages",
 NOIO+" No test creates a pair.",[L],[("two unbounded channels, cross-wired",L)],[],["Connection::memory"])
prop("C16","Listening or connecting yields one working peer or an error",
 "Listening serves exactly one peer, the first to connect, and loses nothing that peer sent before or while the connection was accepted; connecting reaches the given address. If the address is in use, refused or unreachable, or the operating system cannot provide the sockets or descriptors needed, the call returns that error - it does not panic, hang or return an unusable connection - and interrupted system calls are retried.",
 ["fault_sequences","schedules","configurations"],"every failing system call during establishment, every order of bind, connect, accept and first bytes",
 NOIO+" No test opens a socket.",[L,T],[("TcpListener/TcpStream calls with ?, stream handles duplicated for the two threads",L)],[],["Connection::listen","Connection::connect"])
prop("C17","A conforming session runs to completion",
 "When a client performs the handshake, issues any number of requests, then shutdown and exit, and the server answers each request (from any number of threads, in any order), every request is answered exactly once under its own id, shutdown handling reports success, and on both sides the receiver ends and waiting for the I/O threads succeeds. This holds with this library on both ends of a TCP connection as well as with an independent client over stdio, under any delays and schedules that let the exit notification follow the shutdown response within its 30 s.",
 ["schedules","histories","fault_sequences"],"all conforming sessions x all latencies, splittings and interruptions x all schedules of both endpoints",
 NOIO+" No test runs a session.",[L,T,M,I],[("whole library",L)],[],["both endpoints"])
prop("C18","Peer and OS failures surface as errors, never as panics or aborts",
 "No bytes from the peer, no closing or resetting of the connection at any point, no failing read, write, accept or descriptor duplication, and no early drop of the connection by the application makes any thread panic or the process abort or exit: such events only show as returned errors or as the end of input. In particular an announced length does not by itself make the library allocate that much memory.",
 ["fault_sequences","crash_points","inputs"],"all corruptions of the byte stream, all failing system calls and disconnect points, all times at which the application drops its connection, all schedules",
 NOIO,[T,M,L,I],[("io::Result of the I/O threads, Result of the handshake",T)],[],["panics, aborts, exits"])
prop("C19","Nothing stays blocked once the peer is gone",
 "Once the peer has closed or reset both directions, every receive, send, handshake and shutdown handling that is blocked on that connection or started later returns within bounded time: receivers get what had arrived and then disconnection, and senders get an error. Once the application has dropped the connection as well, both I/O threads end and waiting for them returns.",
 ["crash_points","schedules","fault_sequences"],"all points (inside frames, inside handshake and shutdown, while threads are blocked sending or receiving) at which the peer disappears x all schedules",
 NOIO,[T,L,I],[("channel disconnection when an I/O thread ends",T)],[],["return of every call"])
prop("C20","An ended connection leaves no sockets or threads behind",
 "After the application has dropped a connection and waiting for its I/O threads has returned, and after a failed attempt to listen or connect, every socket the library opened for it is closed (so the peer sees the end of the stream and a listening address can be reused) and every thread it started has ended, whether the session ended normally or by failure.",
 ["histories","fault_sequences","schedules"],"all ways a session or its establishment can end x all schedules; repeated sessions on one address in one process",
 NOIO,[T,I,L],[("ownership of the stream handles by the I/O threads",T)],[],["open descriptors","live threads","peer's view of the stream"])
prop("C21","Memory use does not grow with the length of a session",
 "After any number of messages have been received and sent on a connection, the memory retained by the library is what it was after the first few: handling a message leaves nothing behind once the application has dropped it, whether it was delivered, answered, or refused by a timed send.",
 ["histories","inputs"],"all session lengths and message mixes, split and interrupted transfers included",
 NOIO+" Leaks need a history.",[M,R,N,T],[("per-message buffers owned by the message",M)],[],["live heap bytes at quiescent points"])
prop("C22","Typed messages have the JSON shape of the BSP specification",
 "Each protocol type serialises to and is read from the member names, nesting, optional members and numeric enum codes given by the Build Server Protocol specification.",
 ["inputs"],"all values of all protocol types",
 "The tests check a handful of literals.",["bsp-types/src",R,N],[("serde attributes","bsp-types/src")],[],["serde_json output"])
prop("C23","Constructors and accessors of the protocol types keep their values",
 "A value given to a constructor or setter of a protocol type is what the corresponding accessor returns, and other members are unaffected.",
 ["inputs"],"all values of all protocol types","No test covers the accessors.",["bsp-types/src"],[("getters and setters","bsp-types/src")],[],["accessors"])
prop("C24","Error constructors carry the JSON-RPC and BSP error codes",
 "Each named error response constructor produces a response with the given id and message, no result, and the numeric code the specification assigns to that error.",
 ["inputs"],"all ids and messages","No test constructs an error response.",[S,"bsp-server/src/error.rs"],[("ErrorCode",'bsp-server/src/error.rs')],[],["Response"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
for p in P: assert len(p["title"])<=80,(p["id"],len(p["title"]))
open(out,"w").write("".join(json.dumps(p,ensure_ascii=False)+"\n" for p in P))
print(len(P))
