"""Which contracts and which native harness decide each property."""
PROPS = {}
def P(pid, units, harness, level, technique, note, rule, bounded='', theorems=(), quick=15, thorough=240, assumptions=(), also=()):
    PROPS[pid] = dict(units=units, harness=harness, level=level, technique=technique, note=note, rule=rule, bounded=bounded, theorems=list(theorems), quick=quick, thorough=thorough, assumptions=list(assumptions), also=list(also))

YS = ("random sequences of peer frames, transport conditions and application calls on a real Session over an in-memory transport, compared step by step with an "
      "independent wire codec and reference model; non-trivial: at least one stream exists")
CH = 'futures::channel::mpsc keeps order and neither loses nor doubles messages (assumed contract of the channel ends)'
BY = 'bytes::Bytes/BytesMut operations behave as their assumed sequence contracts say'
P('C01', ['yamux'], 'yamux', 'proof', 'Verus contracts on the real frame codec, plus bounded execution',
  'decode/encode and all frame constructors proved against a wire-image specification for all inputs; chunking independence follows from decode keeping remembered header + buffer as one byte string; assumes the bytes crate contracts and that Framed feeds decode the transport bytes in order (executed, not proved)',
  'random frame sequences encoded, cut into random chunks and decoded; non-trivial: more than one frame', theorems=['FrameCodec::decode', 'FrameCodec::encode', 'lemma_prefix_unique', 'lemma_not_incomplete', 'lemma_prefix_incomplete'], assumptions=[BY])
P('C02', ['yamux'], 'yamux', 'proof', 'Verus contracts on the real frame codec, plus bounded execution',
  'for all byte strings: decode never panics, refuses exactly bad headers, never delivers a body of the wrong length; assumes the bytes crate contracts',
  'random and boundary headers against an independent parser; every case is non-trivial', theorems=['FrameCodec::decode', 'Type::try_from'], assumptions=[BY])
P('C03', ['yamux'], 'yamux', 'proof', 'Verus contracts on the real StreamHandle, plus bounded execution',
  'every StreamHandle method keeps bytes-on-wire + send_window <= initial window + received credit; poll_write exact; assumes the mpsc and bytes contracts', YS, theorems=['StreamHandle::poll_write', 'StreamHandle::handle_window_update', 'StreamHandle::recv_frames', 'StreamHandle::poll_read'], assumptions=[CH, BY])
P('C04', ['yamux'], 'yamux', 'proof', 'Verus contracts on the real StreamHandle, plus bounded execution',
  'recv_window + unread <= configured window is an invariant of every method, announcements are exact, overrun is an error; assumes the mpsc and bytes contracts', YS, theorems=['StreamHandle::send_window_update', 'StreamHandle::handle_data', 'StreamHandle::poll_read'], assumptions=[CH, BY])
P('C05', ['yamux'], 'yamux', 'proof', 'Verus contracts on the real StreamHandle, plus bounded execution',
  'poll_read hands out exactly the concatenated bodies of the frames taken from the channel, EOF only when nothing is unread; assumes the mpsc and bytes contracts', YS, theorems=['StreamHandle::poll_read', 'StreamHandle::recv_frames', 'StreamHandle::handle_data'], assumptions=[CH, BY])
P('C06', ['yamux'], 'yamux', 'proof', 'Verus contracts on the real StreamHandle, plus bounded execution',
  'state transition and emitted frames of every StreamHandle method are specified exactly; assumes the mpsc and bytes contracts', YS, theorems=['StreamHandle::get_flags', 'StreamHandle::close', 'StreamHandle::process_flags', 'StreamHandle::poll_write', 'StreamHandle::drop'], assumptions=[CH, BY])
FR = 'tokio_util Framed hands decode the transport bytes in order and start_send encodes each frame once (assumed contract, executed by the bounded part)'
P('C07', ['yamux'], 'yamux', 'proof', 'Verus contracts on the real Session, plus bounded execution',
  'create_stream/open_stream return exactly the next id of the right parity, advance it by two or fail at exhaustion; every other Session method leaves it alone; assumes the HashMap, mpsc and Framed contracts',
  'random open/accept/drop sequences, half of them starting within six ids of exhaustion; non-trivial: at least one local stream', theorems=['Session::create_stream', 'Session::open_stream', 'Session::new'], assumptions=[CH, FR])
P('C08', ['yamux'], 'yamux', 'proof', 'Verus contracts on the real Session, plus bounded execution',
  'for every stream that stays live: frames handed over + frames still waiting == earlier ones + frames received, in order, for any outcome of the other streams (distribute_to_substream loop invariant); assumes the HashMap, mpsc and Framed contracts', YS, theorems=['Session::distribute_to_substream', 'Session::recv_frames', 'Session::handle_event'], assumptions=[CH, FR])
P('C09', ['yamux'], 'yamux', 'proof', 'Verus contracts on the real Session, plus bounded execution',
  'limits are loop invariants of distribute_to_substream, every refused open request is answered by a reset for that id, go-away makes the session end and open_stream fail; assumes the HashMap, mpsc and Framed contracts', YS, theorems=['Session::distribute_to_substream', 'Session::open_stream', 'Session::handle_go_away', 'Session::poll_next'], assumptions=[CH, FR])
P('C10', ['yamux'], 'yamux', 'proof', 'Verus contracts on the real Session, plus bounded execution',
  'handle_ping adds exactly one reply with the request value to what is sent or waiting, and nothing for a reply; send_all conserves the waiting frames in order; assumes the Framed contract', YS, theorems=['Session::handle_ping', 'Session::send_all', 'Session::handle_frame', 'Session::recv_frames'], assumptions=[CH, FR])

AE = 'AEAD back ends (openssl, ring, chacha20poly1305) seal deterministically, injectively and 16 bytes longer (assumed contract; compared with an independent implementation in the bounded part)'
HS = 'the key agreement, signature and hash primitives of ring and secp256k1, and the tokio read/write helpers have assumed contracts (the bounded part executes them against an independent peer); the handshake unit takes the message codecs as injective functions, which unit codec_mol proves of the molecule form; the flatbuffers form is executed, not proved'
P('C11', ['secio'], 'secio', 'proof', 'Verus contracts on the real cipher wrappers, plus bounded execution',
  'nonce_advance is +1 on a little-endian counter for all inputs; every encrypt/decrypt of the three back ends uses the counter once and moves it by one; nonces of n < 2^96 messages are pairwise distinct; assumes the AEAD contract',
  'counter carries at every position, and runs of up to 66000 messages per cipher compared with an independent AEAD', theorems=['nonce_advance', 'OpenSSLCrypt::encrypt', 'OpenSSLCrypt::decrypt', 'RingAeadCipher::encrypt', 'WasmCrypt::encrypt', 'nonces_distinct', 'nonce_of_counter'], assumptions=[AE])
P('C12', ['secio'], 'secio', 'proof', 'Verus contracts on the real SecureStream, plus bounded execution',
  'poll_read delivers exactly the opened frames in order for every buffer size, poll_write seals each accepted chunk once, decode_buffer refuses everything that does not open; assumes AEAD and Framed contracts',
  'two real SecureStreams over an in-memory pipe with random sizes, chunking and stalls, or with tampered frames', theorems=['SecureStream::poll_read', 'SecureStream::poll_write', 'SecureStream::drain', 'SecureStream::decode_buffer', 'opens_unique'], assumptions=[AE, FR])
P('C13', ['secio', 'codec_mol'], 'secio', 'proof', 'Verus contracts on the real selection functions, plus bounded execution',
  'select_agreement/cipher/digest are proved to return the first entry of the preferred list that the other list contains and that is supported; both ends of a handshake agree and fail together when nothing is common; what one end offers is what the other decodes (molecule form); assumes the str split/compare contracts',
  'random offer lists, both orderings, and handshakes over random offers', theorems=['select_agreement', 'select_cipher', 'select_digest', 'both_ends_pick_the_same', 'picked_is_common', 'nothing_common', 'orders_are_opposite', 'propose_round'], assumptions=[HS], also=['secio-flat'])
P('C14', ['secio', 'codec_mol'], 'secio', 'proof', 'Verus contracts on the real key derivation, plus bounded execution',
  'handshake keys each direction with the half of the stretched secret that the other end mirrors; stretch_key is proved equal to the iterated HMAC; assumes the HMAC and agreement primitives',
  'handshakes with an independent peer over every agreement, cipher, digest and ordering, data both ways', theorems=['stretch_key', 'generate_stream_cipher_and_hmac', 'generate_agreement', 'agree', 'handshake', 'directions_mirror', 'stretch_unique'], assumptions=[HS, AE], also=['secio-flat'])
P('C15', ['secio', 'codec_mol'], 'secio', 'proof', 'Verus contracts on the real handshake, plus bounded execution',
  'handshake returns Ok only if the remote exchange signature verifies over both proposals and its ephemeral key, the session keys come from that ephemeral key and the complete nonce came back; Propose, Exchange and PublicKey encode and decode in the molecule form are proved inverse, refusing exactly the malformed ones without a panic; assumes the primitive contracts',
  'an independent peer that alters one thing, and two real ends with one bit changed or the transport cut', theorems=['handshake', 'sign', 'verify', 'HandshakeContext::with_remote', 'HandshakeContext::with_ephemeral', 'SecureStream::verify_nonce', 'Propose::decode', 'Exchange::decode', 'PublicKey::decode', 'propose_round', 'exchange_round', 'pk_round'], assumptions=[HS, AE], also=['secio-flat'])
P('C16', ['secio'], 'secio', 'proof', 'Verus contracts on the real PeerId, plus bounded execution',
  'from_bytes accepts exactly the 34 byte sha2-256 multihashes for all byte strings and returns them unchanged, from_public_key/from_seed/random produce that form, from_str accepts exactly the base58 texts of such ids and to_base58 gives the text back; assumes the varint, hash and bs58 contracts',
  'all two-byte headers, lengths 0-64, multi-byte codes, derived ids and base58 texts', theorems=['PeerId::from_bytes', 'PeerId::from_public_key', 'PeerId::from_seed', 'PeerId::is_public_key', 'PeerId::from_str', 'PeerId::to_base58', 'text_round'], assumptions=['unsigned_varint and bs58 behave as documented; sha256 is a function'])
MA = 'unsigned_varint, data_encoding, bs58 and the std address/number parsers and printers behave as their assumed contracts say (executed by the bounded part)'
P('C17', ['multiaddr'], 'multiaddr', 'proof', 'Verus contracts on the real multiaddr codec, plus bounded execution',
  'from_bytes/write_bytes of every component and of whole addresses are proved against a wire-image specification for all byte strings: what is accepted re-encodes to the same bytes, nothing panics, nothing is read past the end; assumes the varint and bytes contracts; the serde paths are executed, not proved',
  'random addresses, mutated and random bytes against an independent codec, and all byte strings of the first 256 fixed cases', theorems=['Protocol::from_bytes', 'Protocol::write_to_bytes', 'Multiaddr::try_from', 'Iter::next', 'Multiaddr::push', 'Multiaddr::pop'], assumptions=[MA, BY])
P('C18', ['multiaddr'], 'multiaddr', 'proof', 'Verus contracts on the real multiaddr text form, plus bounded execution',
  'Display and from_str of every component are proved inverse for names without a slash, and push/pop/replace change exactly the named component; assumes the contracts of the std and bs58 text conversions',
  'random addresses and address texts against an independent parser, and histories of push, pop and replace', theorems=['Protocol::from_str_peek', 'Protocol::fmt', 'Multiaddr::from_str', 'Multiaddr::fmt', 'Multiaddr::replace', 'Multiaddr::push', 'Multiaddr::pop'], assumptions=[MA, BY])
PC = 'tokio_util Framed and the yamux stream halves behave as their assumed contracts say (executed by the bounded part); the negotiation units take the message codec as a function and its inverse, which unit codec_mol proves of the molecule form; the flatbuffers form is executed, not proved'
P('C19', ['negotiate', 'session', 'codec_mol', 'meta'], 'tentacle', 'proof', 'Verus contracts on the real negotiation functions, plus bounded execution',
  'select_version is proved to return the greatest common entry for every strict total order and all sorted lists, client_select and server_select are proved to end with the same name and version or both with none, and malformed messages give an error or no agreement; server_select is proved to sort before selecting; the session is proved to open a protocol only with the name and version the negotiation ended with and to report that version; ProtocolInfo encode and decode in the molecule form, with the generated readers and builders, are proved inverse on every message below 4 GiB, refusing exactly the malformed ones; assumes the sort and framing contracts',
  'random and crafted version lists and message bytes through both real ends, and against an independent codec; non-trivial: both sides offer something', theorems=['select_version', 'client_select', 'server_select', 'best_unique', 'best_symmetric', 'both_ends_agree', 'Session::select_procedure', 'Session::open_protocol', 'Substream::proto_open', 'ProtocolInfo::encode', 'ProtocolInfo::decode', 'info_round'], assumptions=[PC], also=['tentacle-flat'])
P('C20', ['buffer', 'session', 'substream', 'service', 'handle', 'meta'], 'tentacle', 'proof', 'Verus contracts on the real buffers, plus bounded execution',
  'every method keeps passed-on + waiting == handed over, in order (per priority for PriorityBuffer, high first), whatever the channel accepts; Session and Substream are proved to put every message they take from one side exactly once, unchanged and in order into the buffer of the other side; the tasks that call protocol handles of the user are proved to give every message they take to the handle exactly once, unchanged, in order and for the session and protocol of its queue, and the service to start such a task for every queue it hands to a session; assumes the contract of the channel sender it writes to, and the VecDeque contract',
  'random histories of pushing, flushing and consuming on the real Buffer and PriorityBuffer with capacities from 0; non-trivial: the queue was full at least once', theorems=['Buffer::try_send', 'PriorityBuffer::try_send', 'Buffer::push', 'PriorityBuffer::push_high', 'PriorityBuffer::push_normal', 'Session::handle_stream_event', 'Session::handle_session_event', 'Session::close_session', 'Substream::recv_frame', 'ServiceProtocolStream::handle_event', 'ServiceProtocolStream::poll_next', 'SessionProtocolStream::handle_event', 'SessionProtocolStream::poll_next', 'Service::session_handles_open', 'Service::init_proto_handles'], assumptions=[CH, PC])
P('C21', ['channel'], 'tentacle', 'proof', 'Verus contracts on the real channel including its lock-free queue, plus bounded execution',
  'the queue is proved to hold exactly the pushed values in order over an explicit heap; send, receive, clone, close and drop keep the message count, the parked senders and the open flag consistent, which gives order, priority, capacity and closing for all single-threaded histories, through the Sink and quick-send interfaces as well; concurrency is dropped by the extraction (atomics become plain cells, one heap, one world)',
  'random single-threaded histories of send, receive, clone, close and drop against a reference model; non-trivial: something was received', theorems=['Queue::push', 'Queue::pop', 'BoundedSenderInner::do_send_b', 'BoundedSenderInner::try_send', 'Receiver::next_message', 'Receiver::close', 'UnboundedReceiver::next_message', 'capacity'], assumptions=['concurrent interleavings of senders and receiver are not covered: atomics and locks are treated as plain cells', 'Box/raw pointer operations of the queue behave as reads and writes of a heap with distinct addresses'])
P('C22', ['substream', 'service', 'session'], 'tentacle', 'proof', 'Verus contracts on the real protocol stream, plus bounded execution',
  'every method of Substream and SubstreamWritePart keeps on-wire + waiting == accepted in order within each priority, takes a message off the pending count exactly when it is handed to the framed transport, and Service adds exactly its size when it queues one; assumes the Framed, channel and bytes contracts; Session is proved to put each message once, whole and with its priority on the stream of its protocol and on no other, and the queue of that stream is the one read by the end started for this protocol',
  'a real protocol stream over a real stream multiplexer that stalls, a whole service against a peer that reads slowly, and the service queueing messages; non-trivial: more than three messages', theorems=['Substream::send_data', 'Substream::send_inner', 'Substream::poll_next', 'SubstreamWritePart::send_data', 'SubstreamWritePart::poll_next', 'SessionContext::incr_pending_data_size', 'SessionContext::decr_pending_data_size', 'SessionController::push_message', 'Session::handle_session_event', 'Session::open_protocol', 'Session::distribute_to_substream'], assumptions=[CH, BY, PC])
P('C23', ['substream', 'session'], 'tentacle', 'proof', 'Verus contracts on the real reader, plus bounded execution',
  'PatchedReadPart::poll_read is proved to hand out the read-ahead bytes first, in order and exactly once, for every read size; Session::open_protocol is proved to start the reading end, in both forms, on exactly the bytes the negotiated stream has not read yet; the Framed and split contracts are assumed and executed on a whole service for all four receiver kinds and both directions',
  'read-ahead of random length with random read sizes, and a whole service whose peer sends application frames in the same segment as the negotiation; non-trivial: something was read ahead', theorems=['PatchedReadPart::poll_read', 'PatchedReadPart::new', 'Session::open_protocol', 'Session::select_procedure', 'SubstreamReadPart::poll_next'], assumptions=[BY, PC])
SV = 'user callbacks, the session tasks and the runtime are outside the contracts: events reach the service only through its own tasks, and the asynchronous pushes run in place'
P('C24', ['service'], 'tentacle', 'proof', 'Verus contracts on the real Service, plus bounded execution',
  'session_open is proved to add a session only under a fresh id, only below the limit, only for a key no open session has and that matches the dialled peer id, and to leave every other session alone; generate_next_session is proved fresh across wrap-around; all other methods never add a session; the listener is proved to give every established inbound connection its own listen address; assumes the map and channel contracts',
  'random histories of connects and closes on a real Service, limits 0-5, ids forced to wrap; non-trivial: something was opened', theorems=['Service::session_open', 'Service::generate_next_session', 'Service::reached_max_connection_limit', 'Service::session_close', 'Service::poll_next'], assumptions=[SV, CH])
P('C25', ['service', 'meta'], 'tentacle', 'proof', 'Verus contracts on the real Service, plus bounded execution',
  'handle_message is proved to queue the message once per mention of an open session, with the named protocol, priority and content, and to leave every other session as it was, for all session maps and target lists; the table of outgoing transformations is proved to hold the one of each protocol; assumes the map and channel contracts and that a session over its buffer limit is cut off',
  'random open sessions and targets on a real Service, and a whole service against a peer that reads the wire; non-trivial: a session is open', theorems=['Service::handle_message', 'Service::distribute_to_session', 'SessionController::push_message'], assumptions=[SV, CH])
P('C26', ['multiaddr'], 'tentacle', 'proof', 'Verus contracts on the real conversion functions, plus bounded execution',
  'the four conversions and find_type are proved against component lists for all addresses, and is_reachable is proved false on every listed range; assumes the std accessors of IpAddr and the iterator adaptors',
  'random socket addresses, component sequences and range edges against an independent table; every case is non-trivial', theorems=['multiaddr_to_socketaddr', 'socketaddr_to_multiaddr', 'extract_peer_id', 'find_type', 'is_reachable'], assumptions=[MA])
P('C27', ['service'], 'tentacle', 'proof', 'Verus contracts on the real Service and State, plus bounded execution',
  'State is proved to count exactly and never below zero, and each Service method is proved to move the count by the number of attempts it starts minus the number it ends; is_shutdown is exact; assumes fewer than 2^64 attempts and that each attempt reports its end once',
  'random histories of dials, listens, failures and shutdown on a real Service, partly over loopback sockets; non-trivial: an attempt was started', theorems=['State::increase', 'State::decrease', 'State::is_shutdown', 'Service::dial_inner', 'Service::listen_inner', 'Service::handle_session_event', 'Service::handle_service_task'], assumptions=[SV])
TM = 'runtime::timeout(d, f) gives Elapsed exactly when f did not finish within d, and delay_for(d) completes after d (assumed contracts of the tokio timer; the bounded part executes it on a virtual clock)'
P('C31', ['session', 'service'], 'tentacle', 'proof', 'Verus contracts on the real Session, Listener and Service, plus bounded execution on a virtual clock',
  'HandshakeContext::handshake and Listener::handshake are proved to bound the handshake by the configured time, to report exactly those that finished in time as established and to end the others; Service reports an outbound one as a dialer error; Session::new is proved to start one check at the configured time, which reports and closes the session exactly when no stream is open; select_procedure opens a protocol only when the negotiation finished in time and reports the others; assumes the contracts of the timer of the runtime',
  'whole services on a virtual clock against a peer that is silent, stalls in the negotiation, or acts just before or just after the configured time', theorems=['Session::new', 'Session::select_procedure', 'Session::handle_stream_event', 'Session::poll_next', 'HandshakeContext::handshake', 'Listener::handshake', 'Service::handshake', 'Service::session_open', 'Service::handle_session_event'], assumptions=[TM, SV])
WL = 'the websocket library hands out and sends whole messages in order, and the sockets and queues wake the task that polled them last when they go from pending to ready (assumed contracts; executed by the bounded part)'
P('C33', ['ws'], 'tentacle', 'proof', 'Verus contracts on the real websocket stream, plus bounded execution',
  'every read is proved to hand out the bytes of the binary messages received, in order and exactly once, for every read size and whatever other messages come between; every write to send exactly the bytes it reports as accepted, and none after a shutdown; a read or write that returns pending to have been woken or registered; assumes the contract of the websocket library',
  'whole services that exchange messages with a websocket client that cuts its data into random messages with pings, pongs, texts and empty messages between them; non-trivial: messages went both ways', theorems=['WsStream::poll_read', 'WsStream::drain', 'WsStream::poll_write', 'WsStream::poll_flush', 'WsStream::poll_shutdown', 'WsStream::respond_ping'], assumptions=[WL])
P('C34', ['ws'], 'tentacle', 'proof', 'Verus contracts on the real listeners, plus bounded execution',
  'the TCP and the websocket listener are proved, whenever they return pending, to have been woken or to be registered for the next connection and for the next finished upgrade, to end or fail only when accepting itself fails, and to hand on each accepted connection once and under its own address; assumes the socket and queue contracts',
  'whole services on both kinds of address, with clients that reset, close, stay silent or send nonsense before one that behaves; non-trivial: a client that behaves had to be accepted', theorems=['MultiIncoming::poll_next', 'WebsocketListener::poll_next', 'WebsocketListener::poll_pending', 'WebsocketListener::new'], assumptions=[WL, SV])
