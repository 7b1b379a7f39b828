#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the statements are readable)."""
import json
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(qtext.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
                     mechanism=[dict(name=a, where=b) for a,b in mechanism],
                     observe_at=list(observe), hook_needed=hook)))

LIB="protocol/src/lib.rs"; HS="protocol/src/handshake.rs"; IO="protocol/src/io.rs"; FU="protocol/src/futures.rs"; FS="protocol/src/fschacha20poly1305.rs"
TL="traffic/src/lib.rs"; TI="traffic/src/io.rs"; TF="traffic/src/futures.rs"

prop("C01","Key agreement and session secrets follow BIP-324 exactly",
"""For every local secret key, role and network magic, and every 64-byte remote key that is not a V1 prefix (including non-canonical and degenerate
encodings), the handshake emits a public key that decodes to the local secret's point and derives exactly the session ID, garbage terminators and
per-direction keys that BIP-324 prescribes. Both roles therefore always agree with any conforming peer, and peers on different magics never agree.""",
["inputs","configurations"],"all secret keys, all 2^512 remote encodings, both roles, all magics",
"Seven fixed published vectors on one magic are replayed, and only those keys; the handshake state machine itself is only ever tested against another copy of itself, so a consistent deviation from the BIP is invisible.",
[LIB,HS],[("ElligatorSwift ECDH + HKDF expansion",LIB+" SessionKeyMaterial::from_ecdh"),("role/party selection",HS+" receive_key"),("per-direction key assignment",LIB+" CipherSession::new")],
[("session keys","session id, 4 cipher keys, 2 terminators",LIB+" SessionKeyMaterial")],["bytes on the wire","session id accessor"])

prop("C02","Packet stream is byte-exact BIP-324 for sessions of any length",
"""For every sequence of packets of any encodable length, type and associated data, on either side of every re-keying boundary and however many packets went before,
each encryption entry point emits exactly the bytes BIP-324 prescribes for that position in the stream and each decryption entry point recovers the
length, type and contents a conforming peer put there. Contents too long for the 3-byte length field are refused rather than mis-encoded.""",
["inputs","histories"],"all packet sequences: sizes 0..2^24-1, both types, any AAD, any packet index including past 2^32",
"The vectors reach packet index 1024 with empty packets and one content size each and only check outbound bytes; inbound conformance, mixed sizes and AAD over long sessions and counter limits are never observed.",
[FS,LIB],[("nonce/counter schedule and re-key every 224",FS+" nonce, rekey, crypt"),("packet layout",LIB+" OutboundCipher::encrypt, InboundCipher::decrypt*")],
[("message/chunk/block counters","position in each cipher stream",FS)],["ciphertext bytes","decrypted length, type, contents"],
"optional: guarded constructor that fast-forwards the stream position, to reach packet counts beyond 2^32")

prop("C03","Every payload is delivered exactly once, in order and unmodified",
"""Over an untampered connection, whatever mix of the synchronous, asynchronous and low-level interfaces the two peers use and however sends and receives in the two directions
interleave, the reader obtains exactly the sequence of payloads the writer sent, with contents and genuine/decoy type intact. Splitting a session into halves, or taking its parts
and continuing with the low-level ciphers, does not lose, repeat or alter anything, a received payload can be sent on as it is, and other sessions of the process make no difference.""",
["inputs","schedules","histories"],"all payload sequences, interface combinations, operation interleavings",
"One hello-world exchange per interface is tested; long mixed histories, large payloads, split/into-parts transitions and cross-interface pairs are not.",
[IO,FU,LIB],[("packet framing on read/write",IO+" ProtocolReader::read, ProtocolWriter::write"),("async equivalents",FU),("split/into_inner",IO+", "+FU+", "+LIB)],
[],["payloads returned by reads vs. payloads given to writes"])

prop("C04","Tampered session traffic is never delivered",
"""Whatever an attacker does to the bytes of an established session (flip, insert, delete, duplicate, reorder, replay, reflect or truncate), the payloads the receiver
obtains are always a prefix of those the sender sent, and everything sent wholly before the first altered byte is delivered. The first packet affected is reported as an
error, and reading on after that error never yields altered, skipped or repeated payloads.""",
["inputs","fault_sequences"],"all modifications of all session byte streams, at every position",
"No test alters session ciphertext at all.",
[LIB,FS,IO,FU],[("AEAD tag verification before delivery",FS+" decrypt"),("per-packet counter nonces",FS+" nonce"),("error propagation",IO+", "+FU+" read")],
[],["payloads and errors returned by reads"])

prop("C05","Handshake completes only on an intact, authenticated transcript",
"""A handshake completes only if the peer holds the matching secret in the opposite role on the same network and everything it sent (key, garbage, terminator, decoy packets, version packet) and the key it received
arrived unaltered and in order; any alteration yields an error and no usable session. The garbage must be authenticated by exactly the first packet after the terminator,
whether that is a decoy or the version packet, and by no later one.""",
["inputs","fault_sequences"],"all single and combined alterations of the handshake byte streams, all misbehaving keyed peers",
"Tests only run honest handshakes plus one oversize decoy; no altered transcript, wrong AAD placement, reflection or wrong-network peer is tried.",
[HS,IO,FU],[("garbage as AAD of first packet only",HS+" send_version, receive_version"),("terminator match",HS+" split_garbage"),("transcript-bound key derivation",LIB+" from_ecdh")],
[],["handshake result"])

prop("C06","Garbage is delimited exactly and bounded at 4095 bytes",
"""For every garbage string of 0 to 4095 bytes, including ones built from fragments of the terminator, the receiver ends the garbage at the first occurrence of the peer's terminator, consumes exactly garbage plus terminator,
and asks for more data until then. If no terminator is complete within 4095+16 bytes it reports that failure as soon as it has that many bytes, without reading on indefinitely; and a sender is refused more than 4095 bytes of garbage while any
shorter garbage appears on the wire unchanged right after its key.""",
["inputs"],"all garbage lengths and contents, all prefixes of the received buffer",
"Garbage of a few bytes, plus two all-zero buffers at the limit, are tested.",
[HS,IO,FU],[("bounded window search",HS+" split_garbage"),("length check on send",HS+" send_key"),("buffer growth loop",IO+", "+FU+" handshake")],
[],["garbage result, consumed byte count, wire bytes, bytes read from the transport"])

prop("C07","Outcome is independent of how the transport segments bytes",
"""For a given byte stream from the peer, the result of the handshake and of every following read is the same however the transport splits it into reads (down to one byte at a time, or everything at
once), and regardless of not-ready results and retryable interruptions. Bytes that arrive together with the handshake but belong to later packets are neither lost nor duplicated, and the synchronous and asynchronous interfaces reach the same outcome.""",
["schedules","inputs"],"all segmentations of all peer streams, all placements of pending/interrupted results",
"Tests use one segmentation (an in-memory buffer or a duplex pipe) and one leftover byte.",
[IO,FU],[("leftover chaining reader",IO+", "+FU+" ProtocolSessionReader"),("read loops",IO+", "+FU+" handshake and read")],
[("leftover bytes","over-read handshake bytes",IO+", "+FU)],["handshake result, payload sequence, raw bytes of the returned reader"])

prop("C08","Asynchronous packet reads are cancellation safe",
"""Dropping an in-progress asynchronous packet read at any suspension point, any number of times, loses and corrupts nothing: the payloads returned by the reads that do complete are exactly the
sequence the peer sent.""",
["schedules","histories"],"all suspension points, all cancellation histories, all segmentations",
"No test ever cancels a read.",
[FU],[("read state kept in the reader across awaits",FU+" DecryptState, ProtocolReader::read")],
[("partial-read state","bytes of length/packet already read",FU+" DecryptState")],["payload sequence from completed reads"])

prop("C09","Rejected cipher operations have no effect and leak nothing",
"""An encryption or decryption refused for any reason (output buffer too small, input too short, authentication failure, oversize) returns the documented error, including the exact required size, and leaves the session as it was, so the
correct operation afterwards behaves as if the refused one never happened. A buffer refused as too small is not written to, a failed decryption never leaves plaintext in the caller's buffer, and no operation writes beyond the bytes its size calculation announced.""",
["inputs","histories"],"all interleavings of refused and accepted operations, all buffer sizes and input lengths",
"Tests check a handful of error values on fresh sessions, never the state afterwards, buffer contents, or inputs below 16 bytes.",
[LIB,FS,HS],[("size validation before any state change",LIB+" encrypt, decrypt*"),("tag check before decryption and counter advance",FS+" decrypt"),("size calculators",LIB+", "+HS)],
[],["error values, buffer contents, bytes of the operations that follow"])

prop("C10","Hostile peers cannot crash, hang or exhaust the process",
"""For any bytes a remote peer may send, including ones correctly encrypted with the session keys, every handshake and read call returns a result or an error without panicking and without
looping, and the memory it allocates stays within a small multiple of the 4,000,014-byte automatic-allocation limit whatever length is announced. A packet whose header and contents exceed that limit is refused with the too-big error
by all automatically allocating interfaces, synchronous and asynchronous, while in an established session packets up to the limit are accepted.""",
["inputs","fault_sequences"],"all peer byte streams, announced lengths 0..2^24-1, before and after the handshake",
"Two fuzz targets cover two functions and are not run by the test suite; the limit is tested for one size in the handshake and one function; memory is never measured.",
[LIB,HS,IO,FU],[("size limit check",LIB+" decrypt_to_vec; "+IO+", "+FU+" handshake/read"),("minimum size check",LIB+" validate_ciphertext_size"),("garbage limit",HS+" split_garbage")],
[],["panics, step counts, allocator peak, returned errors"])

prop("C11","Only the top header bit marks decoys, reserved bits are ignored",
"""A received packet is reported as a decoy exactly when the most significant bit of its header is set, whatever the other seven bits are, in the handshake as in the session; senders only ever emit header 0x00 or 0x80. In the handshake any number of
decoys of any content is skipped and the first non-decoy packet, whatever its contents, completes it.""",
["inputs"],"all 256 header values, any number, size and order of decoys, any version contents",
"Tests only send headers 0x00 and 0x80, at most two decoys and an empty version packet.",
[LIB,HS,IO,FU],[("header decoding",LIB+" PacketType"),("decoy loop",HS+" receive_version; "+IO+", "+FU+" handshake")],
[],["reported packet types, handshake completion point, header bytes on the wire"])

prop("C12","V1 peers and closed connections are classified for fallback",
"""During a handshake, a peer whose first four bytes are this network's magic is always reported as a V1 peer once it has sent as many bytes as a key, and no other peer is; a peer that closes, resets or aborts the connection at any point yields an I/O error suggesting a V1 retry, and any other I/O error that fails the handshake yields
an I/O error of that kind suggesting to abort. This holds at every byte position of the handshake, in both roles and in both the synchronous and asynchronous interfaces.""",
["fault_sequences","inputs","crash_points"],"all failure points of a handshake x I/O error kinds x roles x interfaces; all 64-byte first messages",
"Tests cover one crafted V1 key at the lowest layer; the I/O classification is only exercised by ignored network tests.",
[IO,FU,HS],[("error kind to suggestion mapping",IO+" From<io::Error> for ProtocolError"),("magic prefix check",HS+" receive_key"),("explicit EOF error",IO+" ProtocolError::eof")],
[],["handshake error value"])

prop("C13","Success is reported only for fully written and flushed data",
"""A handshake or write returns success only if every byte of its messages was accepted by the transport in order and the transport was flushed afterwards, and a read only if the whole packet was received; a transport error, zero-length write or end of stream at
any operation is reported as an I/O error of that kind instead of being swallowed, at the latest by the next write when it hit a background decoy of a shaped connection. Short writes and not-ready results never cause bytes to be lost, repeated or reordered.""",
["fault_sequences","crash_points"],"every transport operation index x {error kinds, zero write, short write, pending, EOF}, handshake and session, sync and async, plain and shaped",
"No test injects a transport fault.",
[IO,FU,TI,TF],[("write_all + flush",IO+", "+FU+" handshake, ProtocolWriter::write"),("error propagation",IO+", "+FU+", "+TI+", "+TF)],
[],["transport operation log vs. returned results"])

prop("C14","Traffic shaping is transparent to genuine data",
"""Whatever padding and decoy strategy is configured, with decoys being generated concurrently with application writes, the peer's byte stream always parses as a valid packet sequence whose genuine packets are exactly the application's writes, each once, in
order and unmodified. Everything the shaper adds is marked as decoy, and reads through the shaped interface return the peer's packets unchanged.""",
["schedules","inputs","configurations"],"all interleavings of writes with background decoys, all strategies, payload sequences and transport speeds, sync and async",
"The traffic tests create and drop a session; no data is ever sent through a shaped connection without a bitcoind.",
[TI,TF,TL],[("writer mutex shared with the decoy thread",TI+" ShapedProtocolWriter::write, decoy_thread"),("single writer task",TF+" writer_task")],
[("writer state","cipher + transport under one lock / task",TI+", "+TF)],["peer-side decryption of everything on the wire"])

prop("C15","Shaping emits only what the configured strategies allow",
"""With padding disabled a shaped connection sends no garbage and no padding, with decoys disabled it sends no handshake decoys and no unsolicited packets, so with both disabled its traffic is exactly that of the plain protocol. With random padding the garbage is at most 4095 bytes and every
genuine packet is accompanied by exactly one adjacent decoy of 1 to 1024 bytes; with random decoys there are at most 3 handshake decoys of 1 to 1024 bytes, unsolicited decoys of 1 to 1024 bytes keep being sent while the connection is idle, at most one per check interval.""",
["configurations","histories"],"all four strategy combinations, all write histories and idle periods, all random choices",
"Unit tests call the garbage/decoy generator once with a mock RNG; nothing observes the traffic of a shaped connection.",
[TL,TI,TF],[("strategy dispatch",TL+" TrafficShaper::handshake, decoy, pad"),("periodic decoy check",TI+" decoy_thread; "+TF+" writer_task")],
[],["peer-side decryption with virtual or real timestamps"])

prop("C16","Shaped connections shut down cleanly",
"""Dropping a shaped connection (or its writer half) stops all background activity within a bounded number of check intervals: afterwards nothing more is written and the transport is released, so the peer sees the connection close. Writes already accepted are still
carried out, each write call completes with a result even if the transport fails or the background activity has ended, and the reader half stays usable. (All provided the transport's own calls return.)""",
["schedules","histories","fault_sequences"],"all drop points (idle, mid-decoy, after split, after failures), all strategies, sync and async",
"The drop tests only check that drop returns; nothing observes whether the background thread or task ended.",
[TI,TF],[("shutdown flag + join on drop",TI+" Drop for ShapedProtocolWriter, decoy_thread"),("channel closed ends the writer task",TF+" writer_task")],
[("shutdown flag / command channel","liveness of the background activity",TI+", "+TF)],["transport drop, bytes written after drop, results of writes"])

prop("C17","Traffic statistics never lose or invent bytes",
"""However many threads record reads and writes concurrently, the statistics account for every recorded byte: the write/read ratio equals total recorded writes over total recorded reads (totals below 2^64), and is absent exactly while no byte has been read. Every recorded
activity, read or write, resets the time since last activity, which before any activity counts from creation; and a shaped connection records exactly the content bytes it reads and the content and garbage bytes it writes.""",
["schedules","histories","inputs"],"all interleavings of recording threads, all byte counts, all shaped session histories",
"Single-threaded unit tests with four calls; shaped sessions are never measured.",
[TL,TI,TF],[("atomic counters",TL+" AtomicTrafficStats"),("recording at shaping points",TL+" TrafficShaper::handshake, decoy, pad; "+TI+", "+TF+" read")],
[("byte counters","totals read/written",TL+" AtomicTrafficStats")],["ratio and idle-time queries"],
"guarded accessor for the statistics object of a shaped connection")

prop("C18","Handshake bytes are fresh and look random to a passive observer",
"""Every connection uses a fresh ephemeral key, so no two handshakes share a public key, session ID or terminator, and shaping garbage is fresh random data of varying length. Nothing an observer can compute from the public bytes distinguishes the transmitted key from 64 uniformly random
bytes; in particular it is not a publicly recomputable function of the curve point it encodes.""",
["inputs","histories"],"all handshakes, both roles, both interfaces, all random choices",
"Tests never compare two handshakes nor inspect the encoding of the key.",
[HS,TL],[("key generation and ElligatorSwift encoding",HS+" Handshake::new, new_with_rng"),("garbage generation",TL+" TrafficShaper::handshake")],
[],["first bytes on the wire over many handshakes"])

prop("C19","No memory error, undefined behaviour or data race",
"""No execution of the library, for any input, schedule or cancellation point and including its background threads and native cryptography calls, performs an invalid memory access, leaks
or uses freed memory, or races on shared state.""",
["inputs","schedules"],"all executions; checked on the hostile, concurrent and cancellation workloads of the other properties",
"The tests run uninstrumented and never exercise hostile input or concurrent use.",
[LIB,HS,IO,FU,TL,TI,TF],[("safe Rust plus FFI to libsecp256k1",LIB+", "+HS),("mutex/atomics/channels",TI+", "+TF+", "+TL)],
[],["AddressSanitizer, LeakSanitizer, ThreadSanitizer, Miri reports"])

prop("C20","The two directions of a session are independent",
"""Sending and receiving on one session do not depend on each other: while one direction is stalled by its transport, waiting for the rest of a packet, has failed or ended, or its half has been dropped, reads and writes in the other
direction complete as if nothing had happened, plain and shaped, synchronous and asynchronous. A task that uses an undivided asynchronous connection and gives up waiting for a packet to send something loses nothing in either direction.""",
["schedules","fault_sequences","histories"],"all states of one direction x all operation sequences of the other x all four interfaces",
"No test uses both directions at once, fails one of them, or drops a half while the other is used.",
[IO,FU,TI,TF],[("separate ciphers and transports per half",IO+", "+FU+" into_split"),("writer state apart from the reader",TI+" WriterState; "+TF+" writer_task")],
[],["payloads read and bytes sent in the undisturbed direction"])

import os
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
    
if __name__ == "__main__":
    for p in P: assert len(p["title"])<=80, p["title"]
    print(len(P), "properties")
