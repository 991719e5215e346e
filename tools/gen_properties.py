#!/usr/bin/env python3
"""Writes /verif/properties.jsonl.  One entry per semantic property."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files), state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
                     mechanism=[dict(name=a, where=b) for a,b in mech], observe_at=list(observe), hook_needed=hook)))

prop("P01", "Data channel messages arrive exactly once, in order and intact",
 "Whatever the network does to the packets carrying a reliable ordered data channel (loss, duplication, reordering, delay), the receiving application is handed each message sent on the channel at most once, in the order it was sent, with exactly the kind and bytes that were sent, however many fragments it took; and once the network delivers retransmissions, every message sent while the channel was open is eventually handed over.",
 ["schedules","fault_sequences","inputs"],
 "all message sequences (any sizes, text/binary, empty, multi-fragment, several channels) and all loss/duplication/reordering schedules of the packets of the association",
 "The unit tests feed the reassembly buffer in order with a handful of fragments; no test runs two endpoints over a network that loses, duplicates or reorders.",
 ["src/sctp/sctp_session.cpp","src/sctp/data_channel_receive_buffer.cpp"],
 [("stream sequence numbers on send, per-stream reassembly on receive","SctpSession::sendMessageNow, DataChannelReceiveBuffer::receive"),("duplicate TSN suppression","SctpSession::onReceiveDataChunk")],
 [("pending","fragments per SSN waiting for completion","DataChannelReceiveBuffer::mPending")],
 ["SctpSessionListener callbacks","SctpSession::send"])
prop("P02", "Data channel association is set up only by a genuine handshake",
 "Two endpoints that both start establish the data-channel association whatever packets are lost, duplicated, reordered or delayed, provided retransmissions eventually get through, re-sending handshake packets with growing delay up to a fixed number of attempts. Packets that fail the checksum, carry the wrong verification tag, are malformed, or echo a forged, altered or expired cookie have no effect, and late or repeated handshake packets never disturb an established association.",
 ["schedules","fault_sequences","histories"],
 "all interleavings, losses, duplications and corruptions of handshake packets of both endpoints, at any point of the association's life",
 "No test creates an association at all.",
 ["src/sctp/sctp_session.cpp","src/sctp/sctp_packet.cpp","src/sctp/sctp_crc32.cpp"],
 [("state machine New/CookieWait/CookieEchoed/Established, tag and CRC checks, cookie HMAC","SctpSession::onReceiveData, onReceiveInit, onReceiveCookieEcho")],
 [("mState","handshake state","SctpSession")], ["SctpSessionListener::onSctpSendPacket"])
prop("P03", "Data channel acknowledgement, retransmission and flow control are exact",
 "Every acknowledgement a receiver sends describes exactly the set of data chunks it has received so far (a cumulative point plus gap ranges, right across number wrap), a sender re-sends the oldest unacknowledged chunk unchanged every retransmission interval until it is acknowledged and never after, and chunk numbers are assigned consecutively without reuse. A message is put on the wire only when it fits the peer's advertised window together with everything still unacknowledged, or when nothing is unacknowledged; it waits in order otherwise, and goes out when acknowledgements make room; messages above the negotiated maximum size are never sent.",
 ["schedules","fault_sequences","inputs"],
 "all patterns of received, missing and duplicated chunks, all acknowledgement contents and windows a peer may send, all timings",
 "No test exercises acknowledgements, timers or windows.",
 ["src/sctp/sctp_session.cpp"],
 [("sendSack, onReceiveSack, T3 timer, pending queue","src/sctp/sctp_session.cpp")],
 [("mSentChunks","sent and not acknowledged","SctpSession"),("mPendingSend","waiting for window","SctpSession")], ["packets sent"])
prop("P04", "Data channel open and close events match the protocol, once each",
 "An endpoint reports a channel open exactly once, only after the peer confirmed the channel it proposed or proposed one itself (which it confirms), with the proposed label; it reports it closed exactly once, when the peer resets the stream or the session ends, and only if it had been reported open. Messages are sent only on open channels, received messages are reported only on the channel whose stream carried them, and channels proposed by the two sides never share a stream.",
 ["schedules","histories"],
 "all interleavings of opening, confirming, sending, resetting and ending on any number of channels from both sides, with retransmitted and duplicated requests",
 "No test drives channel negotiation.",
 ["src/sctp/sctp_session.cpp"],
 [("DCEP OPEN/ACK handling, stream reset handling","SctpSession::onReceiveDataChunk, onReceiveReconfig, destructor")],
 [("mDataChannels","label, stream, state","SctpSession")], ["SctpSessionListener callbacks"])
prop("P05", "Received frames are delivered complete, in order and at most once",
 "Frames coming out of the jitter buffer are each made of all and only the packets of one frame in sequence order, with unmodified payload, timestamp and marker; frames come out in increasing order and no packet is delivered twice. This holds for any arrival order, duplication, loss and late arrival, including sequence number and timestamp wrap and jumps.",
 ["schedules","fault_sequences","inputs"],
 "all arrival orders, losses, duplicates (including late ones), wraps and jumps of a packet stream, and all times of polling",
 "No test touches the jitter buffer.",
 ["src/jitter_buffer.cpp","src/extended_value.cpp"],
 [("slot ring indexed by extended sequence, frame assembly from start to end packet","JitterBuffer::consume, processDeque")],
 [("mMinSeq/mMaxSeq","window of buffered extended sequence numbers","JitterBuffer")], ["JitterBuffer::dequeue"])
prop("P06", "Playout is neither early nor stuck, and loss costs only the frames it hit",
 "A frame whose packets have all arrived is handed out once its media time (its timestamp's offset from the first packet that arrived, at the clock rate) plus the configured buffering delay is reached, or at once if it is complete only later or directly continues what was handed out before; never twice and never indefinitely late. The time until the next action that the buffer reports is never later than when that action becomes possible. A packet that never arrives makes playout wait no longer than the configured delay, after which only frames that miss packets are skipped and the following complete frames are still delivered.",
 ["schedules","fault_sequences"],
 "all arrival times, loss patterns and polling times, with any configured delay",
 "No test touches the jitter buffer or its timing.",
 ["src/jitter_buffer.cpp"],
 [("when_dequeue / when_abandon deadlines","JitterBuffer::consume, getTimeoutMillis, processDeque")],
 [("when_dequeue","earliest regular playout","jitter_buffer_item.h")], ["JitterBuffer::getTimeoutMillis"])
prop("P07", "Retransmission requests name exactly the missing packets",
 "For each packet missing between packets that have arrived, a retransmission request is issued once the configured delay has passed and not again, never for a packet that has arrived, was never due, or has been given up; the compressed request list sent to the peer expands to exactly the requested numbers, across sequence wrap.",
 ["schedules","fault_sequences","inputs"],
 "all arrival orders, losses and polling times; all sets of sequence numbers to request",
 "The list compression is tested on a few lists; when and for what requests are issued is not tested.",
 ["src/jitter_buffer.cpp","src/util.cpp","src/peer_candidate.cpp"],
 [("when_nack_request deadlines, nack list compression","JitterBuffer::processNack, compressNackList")], [], ["JitterBuffer::processNack","RTCP generic NACK"])
prop("P09", "Incoming secure packets are authenticated and accepted at most once",
 "A received media or control packet is passed on only if its authentication verifies under the negotiated keys for the packet's stream and position; every altered, truncated, forged or foreign packet is dropped and changes nothing for later genuine packets. Within an association a packet accepted once is never accepted again, while genuine packets that merely arrive out of order inside the replay window are accepted, in every negotiated cipher profile.",
 ["inputs","schedules","histories"],
 "all sequences of genuine, reordered, duplicated, altered and forged packets over any number of streams, across sequence number wrap",
 "Replay protection is tested on a few hand-made sequences with plain integers; the secure receive path is not tested.",
 ["src/srtp_connection.cpp","src/srtp_crypto.cpp","src/replay_protection.cpp"],
 [("authentication then replay window then rollover estimate","SrtpConnection::unprotectReceiveMedia/Control, ReplayProtection")],
 [("rolloverCount, lastSequence16","receiver's packet index estimate per stream","SrtpConnection")], ["SrtpConnection::unprotect*"])
prop("P10", "Protected packets always decrypt at the peer and never reuse a packet index",
 "Every media and control packet the sender protects is recovered byte for byte by a peer holding the mirrored keys, for any payload that is not empty, contributing sources, header extension and padding, through any number of sequence number wraps and with moderate loss and reordering around a wrap, for each negotiated cipher profile and for several streams at once. The sender never protects two different packets with the same stream, rollover count and sequence number, and control packet indexes strictly increase.",
 ["inputs","histories","configurations"],
 "all packet contents, stream lengths, loss and reordering patterns inside the replay window, cipher profiles",
 "The round trip is covered by a test that is not built here; wraps and reordering are covered nowhere.",
 ["src/srtp_connection.cpp","src/srtp_crypto.cpp","src/rtp_packet_source.cpp"],
 [("rollover count from sender, estimated by receiver","RtpPacketSource::getNextSequence, SrtpConnection::getRolloverCount")], [], ["SrtpConnection::protect*/unprotect*"])
prop("P11", "Outgoing packets are numbered consecutively and repeated faithfully on request",
 "Each stream numbers its packets consecutively, each wrap raising the rollover count by exactly one. A retransmission request is answered, for each requested packet that is among the most recently sent ones kept for its stream, by exactly that packet: its own payload, timestamp, marker and original number wrapped as a retransmission on the negotiated repair stream, or the packet itself when none is negotiated; numbers never sent or no longer kept are ignored.",
 ["histories","inputs"],
 "all send histories (any number of streams, any wrap position) and all request contents",
 "Nothing tests the send history or the answer to a retransmission request.",
 ["src/rtp_packet_source.cpp","src/send_rtp_history.cpp","src/peer_candidate.cpp","src/rtp_packet.cpp"],
 [("send history per stream, RTX generation","SendRtpHistory, PeerCandidate::onReceivedControlMessage_205, RtpPacket::generateRtx")], [], ["packets on the wire"])
prop("P12", "The pacer sends every packet exactly once, in order and on schedule",
 "Every packet handed to the pacer is put on the wire exactly once, in the order given within its stream, immediately or at its place within the given spread interval, never earlier and never held past its due time once the pacer is run. Packets of a later frame never overtake an earlier frame of the same stream, other streams are not delayed by it, and each sent packet is recorded for retransmission and in the statistics.",
 ["schedules","inputs"],
 "all interleavings of frames of several streams, packet counts, spread intervals and run times",
 "Nothing tests the pacer.",
 ["src/send_pacer.cpp"],
 [("queue ordered by due time","SendPacer::sendNow, sendPaced, run, flush")], [], ["packets on the socket","SendPacer::getTimeoutMillis"])
prop("P13", "A frame split into packets is put back together unchanged for every codec",
 "For each supported codec, splitting any encoded frame into packets and putting the packets back together on the receiving side yields the same coded units in the same order (parameter sets are kept and repeated only before key frames; units that only delimit frames or are empty are not sent; an Opus frame is always one packet). Every packet carries the header extensions asked for, and those of a video frame stay within the size limit, share the frame's timestamp, and only the last has the end mark; frame and layer flags in the payload headers are true. The packet that starts a frame is recognised as such, also from senders that use other packet forms the payload formats allow, and no other packet is. A receiver that joins in mid-stream gives out nothing that needs an earlier picture before a key frame, nothing of a frame that lost a packet is given out, and no damaged payload or frame makes either side crash, hang or read outside it.",
 ["inputs","configurations"],
 "all frames (any number, kind and size of coded units), extension and padding sizes, and protection overheads, for H264, H265, VP8, VP9, AV1 and Opus",
 "One test packetizes one H264 frame; nothing tests reassembly.",
 ["src/packetizer_h264.cpp","src/packetizer_h265.cpp","src/packetizer_vp8.cpp","src/packetizer_vp9.cpp","src/packetizer_av1.cpp","src/packetizer_opus.cpp","src/depacketizer_h264.cpp","src/depacketizer_h265.cpp","src/depacketizer_vp8.cpp","src/depacketizer_vp9.cpp","src/depacketizer_av1.cpp","src/depacketizer_opus.cpp"],
 [("fragmentation and aggregation per codec","Packetizer*::generate, Depacketizer*::extract")], [], ["RtpPacket list","extracted frames"])
prop("P14", "Media packets survive encoding, decoding and extension editing unchanged",
 "A media packet is encoded as RFC 3550 and RFC 8285 lay it out, and decoding gives back the same marker, payload type, sequence number, timestamp, stream, header extension values and payload (padding and contributing sources removed), for one-byte and two-byte header extensions with padding between values. Packets that are cut short or whose padding does not fit are rejected, and nothing outside a packet is read. Adding or replacing one value of a header extension changes that value and no other, and the original it was made from stays as it is.",
 ["inputs"],
 "all packets with any extension list, payload size and padding, and all byte strings received",
 "Tests encode and decode a few packets.",
 ["src/rtp_packet.cpp","src/rtp_extension.cpp","src/rtp_extension_builder.cpp"],
 [("generate / fromUdpPacket","src/rtp_packet.cpp")], [], ["RtpPacket::generate, fromUdpPacket"])
prop("P15", "Congestion feedback reports exactly what arrived and when",
 "Every transport-wide number that arrives is reported received in the next feedback that is due, and feedback reports a number as received only if it arrived and as lost only if it lies between numbers that arrived and did not itself arrive before the feedback was built (what arrived before the numbers jumped by hundreds may be forgotten once it has been reported). Arrival times decode to the true ones within the format's resolution of 250 us, without drift, for any pattern of loss, reordering, repetition, gaps and idle periods and across the wrap of numbers and of the reference time. Feedback messages carry consecutive counts and each is decodable on its own.",
 ["schedules","inputs","histories"],
 "all arrival patterns and times, including wraps, long gaps and idle periods",
 "Tests cover a few short patterns.",
 ["src/twcc_subscribe.cpp","src/rtp_responder_twcc.cpp"],
 [("packet history and run-length / status-vector encoding","SubscribePacketHistory::generate")], [], ["RTCP transport-wide feedback payload"])
prop("P16", "The sender reads congestion feedback exactly",
 "Every outgoing media packet carries the next transport-wide number, in the order packets are put on the wire, unique until wrap. From any well-formed feedback, in any chunk encoding, the sender takes exactly the packets it reports as received for received, with the reported arrival time, and counts as lost exactly those packets older than the newest received that no feedback has reported as received; it ignores numbers it never sent or no longer knows, and ignores malformed feedback as a whole. The loss figure it reports follows from those marks and the requests for retransmission.",
 ["inputs","histories"],
 "all well-formed and malformed feedback messages in any chunk encoding against any send history",
 "Nothing tests the sending side of congestion feedback.",
 ["src/rtp_extension_source_twcc.cpp","src/twcc_publish.cpp"],
 [("packet history keyed by transport-wide number","RtpExtensionSourceTWCC::onReceivedRtcpPacket, PublishPacketHistory")], [], ["PublishPacketHistory, connection statistics"])
prop("P17", "Only authentic connectivity messages take effect, and are answered right",
 "A connectivity check request is answered, with the sender's address and a valid integrity code and fingerprint, only if it names the local user, carries a valid integrity code under the local password and a valid fingerprint; anything else is ignored. A response is accepted only if its transaction is one that was sent, not yet answered and not too old, and its integrity code verifies under the remote password; one that is refused changes nothing. The connection's own checks name the remote user and carry valid codes.",
 ["inputs","histories"],
 "all requests and responses, genuine, altered, replayed or forged, in any order and at any time",
 "Nothing tests the connectivity agent.",
 ["src/ice_agent.cpp","src/peer_candidate.cpp","src/stun/stunmessage.cpp","src/stun/stunhmac.cpp"],
 [("transaction table, integrity and fingerprint checks","IceAgent, PeerCandidate::onReceivedStunMessage")], [], ["datagrams on the socket"])
prop("P18", "A connection is up only with the peer that owns the announced certificate",
 "The secure session is reported connected only after the connectivity check succeeded and the handshake completed with a peer whose certificate has the fingerprint announced in the session description; with any other certificate, a missing one, or no agreed media protection profile, the attempt fails and nothing is ever sent or accepted as media or data. Media is only sent under keys of that session. With the announced peer the handshake comes about even when some of its packets are lost or repeated.",
 ["fault_sequences","histories","configurations"],
 "all peers (right, wrong or unexpected certificate, hash algorithm, handshake role, lost or repeated handshake packets)",
 "Nothing tests the secure handshake.",
 ["src/peer_candidate.cpp","src/x509_certificate.cpp","src/x509_hash.cpp"],
 [("fingerprint comparison after handshake, key export","PeerCandidate::onReceivedDtlsMessage")], [], ["PeerCandidateListener callbacks"])
prop("P19", "Connection state events follow the allowed order and stop after closing",
 "The connection state reported to the application only moves along allowed steps: connecting, connected, back to connecting when connectivity is lost, and finally failed or closed, never reporting the same state twice in a row and nothing after failed or closed. Exactly one of several candidate addresses is used, the first that answers its connectivity check, and only that one is told so; while none has answered the attempt fails only when all of them have run out of time, and after close returns no further callbacks are made.",
 ["schedules","fault_sequences","histories"],
 "all orders of candidate success, failure, loss, restoration and closing, with any number of candidates",
 "Nothing tests the connection object.",
 ["src/peer_connection.cpp","src/peer_candidate.cpp"],
 [("setConnectionState, candidate list, selected candidate","PeerConnection::onCandidate*")], [], ["ConnectionStateListener"])
prop("P20", "Loss of connectivity is detected, survived and ended on time",
 "A connected session keeps sending connectivity checks when idle, reports connectivity lost when nothing arrives from the peer for the loss interval, and reports it restored as soon as something authentic arrives from the peer again; if it does not for the failure interval the session is reported failed. An initial attempt that never completes is reported failed after the connect timeout, and none of these reports is made early or twice.",
 ["schedules","fault_sequences"],
 "all timings of silence, traffic and recovery",
 "Nothing tests connection timers.",
 ["src/peer_candidate.cpp"],
 [("timeout tasks restarted on traffic","PeerCandidate::updateConnectionLostTimeout, updateKeepAliveTimeout, onReceive*Timeout")], [], ["PeerCandidateListener callbacks, datagrams"])
prop("P21", "Scheduled tasks run once, not early, in order, and never after cancellation",
 "A task runs exactly once, not before its due time, and tasks due run in the order of their due times (submission order for equal ones); re-scheduling moves it to the new time. After cancellation of a task, or after the owner scope is destroyed, it never starts, and cancelling or destroying waits for one that is running on another thread.",
 ["schedules","histories"],
 "all interleavings of submitting, re-scheduling, cancelling, destroying and running, from any threads, including from within tasks",
 "Nothing tests the schedulers.",
 ["src/scheduler.cpp"],
 [("ordered task list, cancellation, owner scope","LoopScheduler, ThreadScheduler, ScopedScheduler")], [], ["task executions"])
prop("P22", "Session descriptions announce the configuration and are read back exactly",
 "The offer announces exactly the configured media lines, codecs, retransmission, simulcast layers and data channels with distinct stream identifiers, the certificate's fingerprint and the connectivity credentials used later. From an answer the connection takes exactly the accepted media, codec parameters, payload numbers, stream identifiers, extension numbers, hosts, credentials, fingerprint, role and data channel parameters it states, and an answer that lacks what is required is rejected.",
 ["inputs","configurations"],
 "all configurations and all answers built from the supported elements, in any order, and answers with missing or unsupported parts",
 "Nothing tests session descriptions.",
 ["src/sdp_offer.cpp","src/sdp_answer.cpp","src/track_selector.cpp"],
 [("offer generator, answer parser","SdpOffer::generate, SdpAnswerParser")], [], ["SdpOffer, SdpAnswer, Track"])
prop("P23", "Reports exchanged with the peer yield the right loss, counts and round-trip time",
 "Sender reports carry the true packet and byte counts and the time correspondence of their stream; receiver reports carry the highest sequence number received with its wrap count, and the echo of the last sender report with the delay since it. Round-trip times are computed only from echoes of reports that were really sent, and equal the true round trip; frame, packet and byte totals equal what was sent or received.",
 ["histories","schedules","inputs"],
 "all report and traffic histories, loss, reordering, wrap, and echoes of unknown or old reports",
 "Nothing tests reports.",
 ["src/peer_candidate.cpp","src/track_stats.cpp","src/sender_reports_history.cpp","src/receiver_reference_time_reports_history.cpp","src/extended_value.cpp","src/rtp_time_source.cpp"],
 [("report history, statistics","TrackStats, SenderReportsHistory, ReceiverReferenceTimeReportsHistory")], [], ["RTCP packets, statistics"])
prop("P24", "Media and feedback pass between the application and the peer",
 "While the connection stands, every frame the application submits is sent to the peer in full and in order, in packets numbered one after the other and stamped by its presentation time, and nothing is sent that was not submitted, before the connection stands or otherwise; a packet the peer reports missing is sent again at once, unchanged, if it is among the last 512 of its stream, and nothing else is. Every frame that arrives complete and in time is handed to the application once, in order, with exactly the bytes that arrived; a packet missing between others is asked for once, and nothing else is asked for; a request for a key frame by the application, and the regular one, is sent for exactly the stream it is about. The same holds again after connectivity was lost and came back.",
 ["inputs","schedules","fault_sequences"],
 "all sequences of frames of any size, packet arrivals, losses, repetitions and reordering, requests of either side, and losses of connectivity in between",
 "No test runs a connection; the parts are only tested one by one.",
 ["src/peer_connection.cpp","src/peer_candidate.cpp","src/send_rtp_history.cpp","src/send_pacer.cpp","src/jitter_buffer.cpp"],
 [("frame queue, repetition of packets, requests","PeerConnection::networkThreadWorkerFunc, PeerCandidate::run, onReceivedControlMessage_NACK, sendNacks, sendPictureLossIndicator")], [], ["packets on the network, frame callbacks"])
prop("P25", "Media packets say which section, layer and number they belong to",
 "Where the extension was agreed, and only there, under the numbers agreed: packets identify the media section and the simulcast layer they were made for, and repeated packets the layer they repeat, at least while a stream is new and on every key frame, so that the peer can tell all streams apart; the allocation of the video layers sent with key frames states exactly the layers accepted by the peer, their streams, sizes, rates and bit rates as configured or last updated; and the capture time delivered with a received frame is the time and the clock offset its packets stated, or none if they stated none.",
 ["inputs","configurations","histories"],
 "all sets of layers accepted, extensions agreed, key and other frames, updates of layers, repetitions of packets, and capture times of received packets",
 "Tests do not look at the extensions of packets sent by a connection.",
 ["src/rtp_extension_source_simulcast.cpp","src/rtp_extension_builder.cpp","src/rtp_packet.cpp","src/jitter_buffer.cpp","src/peer_candidate.cpp"],
 [("layer identification, layers allocation, capture time","RtpExtensionSourceSimulcast, RtpPacket, JitterBuffer, PeerCandidate::run")], [], ["packets on the network, frame callbacks"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
