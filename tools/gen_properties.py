#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe or [], hook_needed=hook)))

prop("C01", "A sender never exceeds the link credit granted by its peer",
 "On every outgoing link, the number of deliveries put on the wire never exceeds the limit (delivery-count + link-credit) most recently granted by the peer's flow frames, using serial-number arithmetic, whatever mix of concurrent, cancelled or failed sends, credit reductions and counter wrap-around occurs. The credit reported to the application equals that limit minus the deliveries already started. A send abandoned before its delivery starts consumes no credit.",
 ["schedules", "histories", "inputs"], "every interleaving of sends (concurrent, cancelled, pre-settled or not) with peer flow frames (raising, lowering to or below what is in flight, stale or absent delivery-count, initial delivery-counts up to u32::MAX) on any number of links and sessions",
 "the tests grant credit once or twice and send sequentially; none lowers credit, wraps the counter, cancels a blocked send or runs concurrent senders",
 ["src/sndlink.rs", "src/session.rs", "src/delivery.rs"],
 [("apply_flow / send loop", "src/sndlink.rs"), ("handle_flow", "src/session.rs")],
 [("link_credit, delivery_count", "credit left and transfers started", "src/sndlink.rs SenderLinkInner"), ("pending_transfers", "sends waiting for credit", "src/sndlink.rs")],
 ["transfer frames on the wire", "SenderLink::credit()"])
prop("C02", "A sender never overruns the peer's session incoming window",
 "Within a session, every outgoing transfer frame (each frame of a multi-frame delivery counts) stays below next-incoming-id + incoming-window of the latest flow or begin from the peer; a flow that omits next-incoming-id is measured from the session's initial outgoing id. Sends that do not fit wait and resume when the window reopens. The remote window reported to the application agrees with this.",
 ["schedules", "histories", "inputs"], "every sequence of peer begin/flow frames (window shrinking with transfers in flight, zero windows, absent next-incoming-id, echo) interleaved with sends of any size on several links of the session",
 "one integration test uses a session window, with a single link, single-frame messages and no shrink",
 ["src/session.rs"], [("handle_flow", "src/session.rs"), ("send_transfer", "src/session.rs")],
 [("remote_incoming_window, next_outgoing_id", "window left, next transfer id", "src/session.rs SessionInner")],
 ["transfer frames on the wire", "Session::remote_window_size()"])
prop("C03", "Outgoing deliveries are numbered, tagged and framed unambiguously",
 "Delivery-ids on a session are unique and increase in serial order, every delivery's first frame carries its id and tag on the right link, frames of one delivery follow each other on its link with no other delivery in between and 'more' set on all but the last. Tags the library makes up differ between the unsettled deliveries of a link. The id and tag handed back to the application are the ones on the wire, and sends that do not overlap in time leave in the order they were made.",
 ["schedules", "histories"], "all interleavings of sends on one or several links of one or several sessions, single- and multi-frame, with explicit or generated tags",
 "tests check only that the peer eventually receives a message; concurrency across links and multi-frame interleavings are not sampled",
 ["src/session.rs", "src/sndlink.rs", "src/delivery.rs"], [("send_transfer", "src/session.rs"), ("get_tag", "src/sndlink.rs")],
 [("next_outgoing_id", "next delivery id", "src/session.rs"), ("delivery_tag", "next generated tag", "src/sndlink.rs")],
 ["transfer frames on the wire", "Delivery::id()/tag()"])
prop("C04", "An accepted message reaches the wire whole, unaltered and within frame size",
 "For every send that succeeds, the concatenated payload of its frames is exactly the application's message, with the requested message format, settled flag and tag, sent exactly once. No outgoing frame is larger than the max-frame-size the peer announced. A send that fails or is cancelled puts either nothing or nothing partial on the wire.",
 ["inputs", "configurations", "schedules"], "every payload size around each multiple of the frame limit, every peer max-frame-size from 512 upward, every tag length, message and raw bodies, and cancellation at any await point",
 "tests use one payload below the default limits plus one large one; sizes at the boundary and small max-frame-size are never tried",
 ["src/session.rs", "src/delivery.rs", "codec/src/codec/encode.rs", "codec/src/message"], [("send_transfer chunking", "src/session.rs")],
 [("max_frame_size", "peer's limit", "src/connection.rs")], ["bytes on the wire"])
prop("C05", "Incoming messages are delivered exactly once, in order and complete",
 "Every delivery the peer completes on an established receiving link within its limits is handed to the application exactly once, in order, with the concatenation of its frames as body and its id, tag and settled flag; nothing is handed over before its last frame. A delivery the peer aborts, or that is cut short by detach, end or disconnect, is never handed over, and never corrupts later ones.",
 ["histories", "inputs", "schedules"], "every split of deliveries into frames, interleaved over links and sessions, with repeated or absent delivery-ids on continuation frames, aborts, empty frames, and any timing of the application's reads (poll, stream or non-blocking get)",
 "tests deliver a few whole messages and one split message and read them immediately",
 ["src/rcvlink.rs", "src/session.rs"], [("handle_transfer", "src/rcvlink.rs"), ("poll_recv/get_delivery/has_deliveries", "src/rcvlink.rs")],
 [("queue, partial_body", "messages not yet read, body being assembled", "src/rcvlink.rs ReceiverLinkInner")], ["recv()/get_delivery() results"])
prop("C06", "Receiver and message-size limits are enforced and signalled",
 "A delivery that arrives when the link has no credit left, or whose body exceeds the link's configured maximum message size (zero meaning unlimited), is not handed to the application: the link is detached with transfer-limit-exceeded or message-size-exceeded respectively, and no delivery within the limits is refused. A local send larger than the peer's announced maximum message size (when it announces a non-zero one) fails with a body-too-large error and puts nothing on the wire; smaller ones are not refused.",
 ["inputs", "histories", "configurations"], "all credit/size configurations and message sizes around the limit, single and multi-frame, on locally and remotely opened links",
 "two tests exercise one limit each with a single size far from the boundary",
 ["src/rcvlink.rs", "src/delivery.rs", "src/sndlink.rs", "src/session.rs"], [("handle_transfer", "src/rcvlink.rs"), ("TransferBuilder::send", "src/delivery.rs")],
 [("credit, max_message_size", "limits in force", "src/rcvlink.rs")], ["detach frames", "send() result"])
prop("C07", "A sent delivery resolves with exactly the outcome its peer reported",
 "Waiting on a sent, unsettled delivery returns the state of a peer disposition whose range (serial, inclusive, single id when no last) and role cover that delivery, and is never resolved or altered by dispositions for other deliveries, other sessions or the opposite role. It resolves whether the disposition arrives before or during the wait, including a settlement without a state, and a delivery settled by the peer is never settled again by this side.",
 ["histories", "schedules", "inputs"], "every order of sends, waits, drops and dispositions (ranges, wrapped ranges, overlapping, unsettled then settled, without state, wrong role, unknown ids)",
 "tests wait on single deliveries with a single-id disposition arriving after the wait started",
 ["src/delivery.rs", "src/session.rs"], [("settle_deliveries", "src/session.rs"), ("Delivery::wait", "src/delivery.rs")],
 [("unsettled_snd_deliveries", "deliveries awaiting outcome", "src/session.rs")], ["Delivery::wait()/remote_state()"])
prop("C08", "Every received unsettled delivery is settled exactly once with its outcome",
 "For each delivery received unsettled, at most one settling disposition leaves, with role receiver, that delivery's id on its own session and the outcome the application gave; a delivery dropped without an outcome is rejected, and one the peer sent settled or has settled itself causes none. Intermediate state updates are unsettled dispositions and never follow the settling one. A wait on a received delivery returns the sender's own dispositions of it, and only those.",
 ["histories", "schedules"], "every order of receive, settle, update, drop and peer disposition over any number of deliveries, links and sessions",
 "tests settle single deliveries through the router only",
 ["src/delivery.rs", "src/session.rs"], [("Delivery::settle/update_state/drop", "src/delivery.rs")],
 [("unsettled_rcv_deliveries", "deliveries this side must settle", "src/session.rs")], ["disposition frames"])
prop("C09", "No lost wakeups: an operation completes once its condition holds",
 "Once everything received has been processed, no operation is still blocked whose condition holds: a send with link credit and session window available, a link-ready or credit-update wait, a receive with a complete message queued or its link closed, a delivery wait whose outcome arrived, an attach, begin, detach or end whose answer arrived. This holds for every number of concurrent waiters (a link has one receive at a time) and whichever of them are cancelled.",
 ["schedules", "histories"], "every interleaving of blocking operations, cancellations, and the frames that enable them, including several frames in one read",
 "tests have at most one blocked operation at a time and never cancel one",
 ["src/sndlink.rs", "src/session.rs", "src/rcvlink.rs", "src/delivery.rs", "src/connection.rs"], [("pending_transfers queues", "src/sndlink.rs, src/session.rs"), ("reader_task waker", "src/rcvlink.rs")],
 [("pending_transfers", "blocked sends", "src/sndlink.rs, src/session.rs")], ["completion of futures at quiescence"])
prop("C10", "Detach, end, close and disconnect fail every dependent operation",
 "When a link is detached, a session ended, or the connection closed, dropped or lost, by either side, every pending operation that depends on it completes (with an error, or with end-of-stream for receives) and every later one fails at once instead of blocking; the link, session and connection report themselves closed. A call that fails because the peer detached the link gives the peer's reason (as do a send on an ended session or closed connection, and the close or end call that is answered), never the reason of another link. Messages already complete stay readable, and operations on unaffected links and sessions are not disturbed.",
 ["crash_points", "schedules", "fault_sequences"], "every point in every operation at which the link, session or connection can go away, from either side, with or without an error, including several in the same read",
 "tests check a few close paths with no operation pending",
 ["src/session.rs", "src/connection.rs", "src/sndlink.rs", "src/rcvlink.rs", "src/dispatcher.rs"], [("set_error chains", "src/connection.rs, src/session.rs"), ("remote_detached", "src/sndlink.rs, src/rcvlink.rs")],
 [("error, closed, on_close", "terminal state", "src/connection.rs, src/session.rs, src/sndlink.rs")], ["completion of futures", "is_closed()/is_opened()"])
prop("C11", "Attach and detach are answered exactly once and end a link's traffic",
 "Every attach the peer sends is answered by exactly one attach of the opposite role and same name, followed by a detach carrying the error if the application refuses it; every detach of an attached link is answered by exactly one detach, and a locally initiated attach or detach is sent exactly once; the detach that ends a link closes it. After its detach nothing more is sent for that link, and attach results reported to the application match the peer's answer.",
 ["histories", "schedules"], "every order of local and remote attach/detach, simultaneous detach, detach before the attach is answered, refusal by control or publish service, immediately or later, and handle reuse",
 "tests cover single attach/detach sequences; simultaneous and early detaches and refusals with other links present are not covered",
 ["src/session.rs", "src/dispatcher.rs", "src/sndlink.rs", "src/rcvlink.rs"], [("handle_attach/handle_detach", "src/session.rs"), ("handle_control_frame", "src/dispatcher.rs")],
 [("links, remote_handles", "link table", "src/session.rs")], ["attach/detach frames", "attach()/close() results"])
prop("C12", "Links are isolated: handles and names never cross-talk",
 "A frame addressed to one link's handle affects only that link, and an operation on one link object acts only on that link's handle, even when local and remote handles differ or coincide crosswise, when handles and names are reused after detach, or when a sender and a receiver share a name. A locally opened link is completed only by the peer's attach with its name and the opposite role, and looking up a sender by name finds exactly the attached sender of that name.",
 ["histories", "inputs"], "all assignments of local and remote handles and names to several live and past links in one or more sessions",
 "tests use one link at a time with identical small handles on both sides",
 ["src/session.rs"], [("remote_handles, links_by_name", "src/session.rs")],
 [("remote_handles, links_by_name, links", "handle and name maps", "src/session.rs")], ["frames on the wire", "which object observes an event"])
prop("C13", "Sessions begin and end exactly once and do not affect each other",
 "Each begin from the peer is answered by one begin naming its channel, a local open completes with the begin that answers it, each end is answered or confirmed exactly once, and nothing is sent on a channel after its end until it begins again. Ending one session never ends, blocks or misroutes another, with local and remote channel numbers in any arrangement and channels reused.",
 ["histories", "schedules"], "every order of local and remote begin/end over several sessions with arbitrary channel numbers, simultaneous ends, late frames and late settlements on an ended session",
 "tests open one session, or end one session with equal local and remote channel numbers",
 ["src/connection.rs", "src/session.rs"], [("handle_frame", "src/connection.rs"), ("Session::end", "src/session.rs")],
 [("sessions, sessions_map", "channel tables", "src/connection.rs ConnectionInner")], ["begin/end frames", "end() and open results"])
prop("C14", "Connection close is final, answered once, and reported to the application",
 "A close from the peer is answered by exactly one close and a local close sends exactly one; nothing is sent after it and no later frame is acted upon. The connection then reports itself closed, its close waiters fire, the stored error tells the peer's reason, and the connection task finishes, also when a service fails or is busy.",
 ["histories", "crash_points"], "close from either side or both, with and without error, repeated, at any point, with other frames before and after in the same read",
 "tests close idle connections once",
 ["src/connection.rs", "src/dispatcher.rs"], [("close/close_with_error/force_close", "src/connection.rs"), ("Frame::Close handling", "src/connection.rs")],
 [("state, error", "connection state", "src/connection.rs")], ["close frames", "is_opened/get_error/on_close"])
prop("C15", "Session count stays within the channel limits of both sides",
 "The endpoint never begins a session on a channel number above the smaller of its own and the peer's announced channel-max: further local opens fail with a too-many-channels error and put nothing on the wire, and succeed again once a channel is free. A limit is never reported while a permitted channel is free.",
 ["configurations", "histories"], "every pair of channel-max values and every history of opening and ending sessions from both sides",
 "no test sets channel-max",
 ["src/connection.rs", "src/lib.rs"], [("open_session_inner", "src/connection.rs")],
 [("channel_max", "limit", "src/connection.rs")], ["begin frames", "open_session() result"])
prop("C16", "The server handshake follows the required order and never skips a step",
 "A server connection processes AMQP frames only after the protocol header, the SASL exchange when that header asked for it, and the peer's open have each been received in order, and answers each step exactly once with the announced parameters. Anything else at any step, a failing handshake service, or silence past the timeout ends the connection without reaching the application's services.",
 ["inputs", "histories", "configurations"], "every sequence of headers, SASL frames and AMQP frames, split arbitrarily over reads, with every SASL outcome and challenge usage",
 "tests perform the successful plain and SASL PLAIN paths only",
 ["src/server/service.rs", "src/server/handshake.rs", "src/server/sasl.rs"], [("handshake()", "src/server/service.rs"), ("Sasl/SaslInit/SaslResponse", "src/server/sasl.rs")],
 [], ["bytes on the wire", "services invoked"])
prop("C17", "The client becomes connected only after a complete, successful handshake",
 "A client connection is handed to the application only after the peer confirmed the protocol header, reported SASL outcome ok when SASL was requested, and sent its open; every other reply, a failed outcome, an early disconnect or silence past the timeout yields the matching error. The client sends each step once, in order, with the configured credentials and parameters, and never sends its open before authentication succeeded.",
 ["inputs", "histories", "configurations"], "every sequence of peer headers and frames with every SASL outcome, split arbitrarily over reads",
 "tests cover the successful paths and one failing SASL outcome",
 ["src/client/connector.rs", "src/client/connection.rs"], [("connect_plain_inner/connect_sasl_inner", "src/client/connector.rs")],
 [], ["bytes on the wire", "connect result"])
prop("C18", "The router dispatches to the right handler and maps outcomes faithfully",
 "A link whose target address matches a registered pattern is served by exactly one handler instance created for it with that address, any other link is refused with an error; every message on the link goes to that link's handler exactly once and in order, and the settling disposition carries the outcome the handler returned (accepted, rejected, or rejected with its error). A handler is called only while it is ready, and a handler whose readiness check fails closes its link with that error. The handler is shut down when its link or session ends.",
 ["inputs", "histories", "schedules"], "every set of patterns and addresses, every handler completion order and outcome, several links, and detach at any point",
 "tests route to one handler with immediate acceptance",
 ["src/router.rs", "src/dispatcher.rs", "src/types.rs"], [("RouterService::call", "src/router.rs"), ("service_call", "src/router.rs")],
 [("handlers", "link to handler map", "src/router.rs")], ["handler invocations", "disposition frames"])
prop("C19", "The control service sees each control event once, in order, and can refuse",
 "Each link attach, flow, detach, session end, close and disconnect reaches the control service exactly once and in the order the frames arrived, and takes effect only after the service has answered (the session-window part of a flow applies at once); answers given in order take effect in that order. A detach or close event carries the peer's error. When the connection ends the service is shut down once, after its last event. An error from the service refuses the attach or closes the affected link with that error and affects nothing else. The service is called only while it is ready; a failing readiness check closes the connection with its error.",
 ["schedules", "histories"], "every timing and result of the control service's answers relative to incoming frames and to each other",
 "tests use control services that answer immediately",
 ["src/dispatcher.rs", "src/control.rs"], [("Dispatcher::poll, handle_control_frame", "src/dispatcher.rs"), ("ControlQueue", "src/control.rs")],
 [("ctl_fut, pending", "control calls in progress", "src/dispatcher.rs")], ["control service calls", "frames on the wire"])
prop("C20", "An idle connection is kept alive within the peer's idle timeout",
 "While the connection is open and nothing else is sent, the endpoint sends an empty frame at least once within every interval equal to the idle timeout the peer announced (down to the resolution of the timers, some tens of milliseconds), however long the connection lives and whatever the peer sends, and none when the peer announced none. Keep-alive frames carry no other effect and stop when the connection closes. In the other direction, a peer that stays silent, or stuck within a frame, for longer than the limits configured on this side is let go: the control service is told the reason once, a close is sent and the connection task ends; a peer heard in time is kept.",
 ["configurations", "schedules"], "every announced idle timeout and every pattern of traffic and silence",
 "no test waits for a keep-alive frame",
 ["src/dispatcher.rs", "src/lib.rs"], [("idle_sleep in Dispatcher::poll", "src/dispatcher.rs"), ("timeout_remote_secs", "src/lib.rs")],
 [("idle_timeout", "ping interval", "src/dispatcher.rs")], ["empty frames on the wire and their times"])
prop("C21", "Frame decoding is independent of how the byte stream is chunked",
 "For every byte stream of frames, the decoder yields the same sequence of frames (or the same error at the same frame) however the bytes are split across reads, consumes exactly each frame's bytes, honours any data offset, and rejects exactly the frames whose size is below the header size, above the configured limit, whose offset is invalid or whose type does not match. Encoded frames decode back to themselves and their length field equals their size.",
 ["inputs", "schedules"], "every sequence of frames with every size, offset, type and limit and every split into reads",
 "unit tests decode a few complete frames in a single read",
 ["codec/src/io.rs", "codec/src/framing.rs"], [("AmqpCodec::decode/encode", "codec/src/io.rs"), ("ProtocolIdCodec", "codec/src/io.rs")],
 [("state", "decoder position", "codec/src/io.rs")], ["decoder results"])
prop("C22", "Values and performatives survive encoding in every legal wire form",
 "Encoding any value, list, map, array, performative or message section and decoding it gives the same value, the encoded size reported equals the bytes written, and the bytes written are a legal encoding of that value. Every legal wire form of a value (compact or wide, defaulted, omitted trailing fields) decodes to that value, and illegal or truncated forms are errors; where the standard leaves latitude (extra fields in composites, duplicate map keys, reserved descriptors, non-ASCII symbols, dates beyond the calendar, nesting deeper than 100, order of message sections) either is allowed.",
 ["inputs"], "every value of every AMQP type at and around each encoding-size boundary, nested, in every legal wire form, and every truncation of it",
 "unit tests check one or two sample values per type, mostly in one wire form",
 ["codec/src/codec/encode.rs", "codec/src/codec/decode.rs", "codec/src/types", "codec/src/protocol", "codec/src/message"], [("Encode/Decode impls", "codec/src/codec")],
 [], ["encode/decode results"])
prop("C23", "Malformed or protocol-violating input never crashes or corrupts the endpoint",
 "Whatever bytes or frames the peer sends at any point, the endpoint never panics, never hangs in unbounded work or allocation, and keeps every other guarantee towards its application: it ignores, refuses or ends the affected link, session or connection. Input the endpoint cannot parse, or frames for channels or links that do not exist where an error is required, end the connection and every pending operation with an error.",
 ["inputs", "fault_sequences"], "every malformed frame, every frame valid in itself but illegal in the current state, in every state, and every truncation or corruption of valid traffic",
 "no test sends malformed or out-of-state frames to a live connection",
 ["src/connection.rs", "src/session.rs", "src/dispatcher.rs", "codec/src/io.rs", "codec/src/codec/decode.rs"], [("handle_frame error paths", "src/connection.rs, src/session.rs"), ("Decode impls", "codec/src/codec/decode.rs")],
 [], ["panics", "connection state", "completion of futures"])
prop("C24", "A receiver's credit accounting agrees with its peer and never stalls it",
 "Each flow a receiving link sends announces a delivery-count equal to the deliveries received so far (from the peer's initial delivery-count) and, added to the announced credit, exactly the total the application has granted, which makes the credit reported to the application what remains; flows also carry the session's current transfer counters, and a flow that asks for an echo is answered by one (and one sent without need of an answer does not ask for it). Served through the router, a conforming peer is always granted further credit, so it never stalls however many messages it sends.",
 ["histories", "inputs"], "every sequence of grants by the application and deliveries by the peer, single and multi-frame, with initial delivery-counts up to wrap-around, on local and remote links",
 "tests grant credit once and receive fewer messages than granted",
 ["src/rcvlink.rs", "src/session.rs", "src/router.rs", "src/dispatcher.rs"], [("set_link_credit", "src/rcvlink.rs"), ("rcv_link_flow", "src/session.rs"), ("service_call", "src/router.rs")],
 [("credit, delivery_count", "credit left, deliveries received", "src/rcvlink.rs")], ["flow frames", "ReceiverLink::credit()"])
prop("C25", "The publish service is told of each link, delivery and detach once, in order",
 "On a server, each incoming attach of a sending peer that the control service accepted and that was not detached meanwhile is announced to the publish service exactly once, before anything else about that link; every delivery completed on a link it accepted is announced exactly once while the link is open; and when a link is detached by the peer before the service refused it, or once accepted by either side, or its session ends, this is announced exactly once and no delivery follows. When the connection ends the service is shut down once, and nothing is announced after that. The service is called only while it is ready; a failing readiness check closes the connection with its error.",
 ["schedules", "histories"], "every interleaving of attaches, deliveries, detaches from both sides and session ends with slow, failing and out-of-order answers of the control and publish services",
 "tests attach one link and wait for one message",
 ["src/dispatcher.rs", "src/session.rs", "src/rcvlink.rs", "src/types.rs"], [("Dispatcher::call/poll/handle_control_frame", "src/dispatcher.rs"), ("Message", "src/types.rs")],
 [("ctl_fut, ControlQueue", "control events waiting for an answer", "src/dispatcher.rs, src/control.rs")], ["calls of the publish service"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
