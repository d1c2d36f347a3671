""" The one table behind properties.jsonl and MANIFEST.json. """
S = 'src/siotls/'
PROPS = []
NOT_APPLICABLE = []

BASE_NOTE = ('Exhaustive within the enumerated bounds on the real code, executed in process; '
             'trusts the reference in mc/ref.py (written from the RFCs), pyca/cryptography and '
             'CPython. ')


def P(id, title, statement, over, quantifier, why, files, mechanism, technique, note,
      observe=(), state=()):
    PROPS.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=quantifier), why_tests_cant=why,
        anchors=dict(files=[S + f for f in files],
                     mechanism=[dict(name=n, where=S + w) for n, w in mechanism],
                     **({'state': [dict(name=n, meaning=m, where=S + w) for n, m, w in state]} if state else {}),
                     **({'observe_at': list(observe)} if observe else {}),
                     hook_needed=None),
        technique=technique, note=BASE_NOTE + note))


PUB = ('TLSConnection.receive_data / data_to_send / data_to_read', 'bytes on the wire')

P('C01', 'A server only completes the handshake along the TLS 1.3 message order',
  'Whatever sequence of records a client sends, a server connection only becomes connected after '
  'receiving exactly the messages TLS 1.3 prescribes, in the prescribed order, under the '
  'prescribed keys. Any other message, repeated, missing, reordered, unprotected or protected '
  'with the keys of another stage, fails the connection with a fatal alert and is never '
  'processed. Compatibility change_cipher_spec records and user_canceled warnings never change '
  'the outcome.',
  ['histories', 'inputs'],
  'every event of a 60+ letter alphabet (each handshake type, content type, alert, at each '
  'protection level) in every stage of the handshake with and without HelloRetryRequest, after '
  'every insertion of up to 1 (quick) or 2 (thorough) harmless events anywhere before',
  'The tests run a handful of complete handshakes against OpenSSL and call states one by one; '
  'they never send an illegal message in a live handshake.',
  ['connection.py', 'states/__init__.py', 'states/server/wait_client_hello.py',
   'states/server/wait_finished.py', 'transcript.py'],
  [('state classes', 'states/server'), ('transcript order', 'transcript.py'),
   ('dispatch', 'connection.py:receive_data')],
  'explicit-state product of a protocol automaton and the implementation, every event in every state',
  'Bound: two cipher/group/key configurations (six when thorough), one illegal event per run.',
  PUB, [('state', 'current handshake state', 'connection.py')])

P('C02', 'A client only completes the handshake along the TLS 1.3 message order',
  'Whatever sequence of records a server sends, a client connection only becomes connected after '
  'receiving exactly the messages TLS 1.3 prescribes (server hello, encrypted extensions, '
  'certificate, certificate verify, finished, after at most one hello retry), in that order, '
  'under the prescribed keys. Any other message, skipped, repeated, reordered, unprotected or '
  'under the keys of another stage, fails the connection with a fatal alert and is never '
  'processed. Compatibility change_cipher_spec records and user_canceled warnings never change '
  'the outcome.',
  ['histories', 'inputs'],
  'every event of a 60+ letter alphabet in every stage of the handshake with and without '
  'HelloRetryRequest, after every insertion of up to 1 (quick) or 2 (thorough) harmless events '
  'anywhere before',
  'The tests run a few complete handshakes; none skips the certificate verify, repeats a message '
  'or sends one in clear.',
  ['connection.py', 'states/__init__.py', 'states/client', 'transcript.py'],
  [('state classes', 'states/client'), ('transcript order', 'transcript.py'),
   ('dispatch', 'connection.py:receive_data')],
  'explicit-state product of a protocol automaton and the implementation, every event in every state',
  'Bound: two cipher/group/key configurations (six when thorough), one illegal event per run.',
  PUB, [('state', 'current handshake state', 'connection.py')])

P('C03', 'Application data only travels over an established connection',
  'No application data is delivered to the application unless the handshake was completed and the '
  'data was protected by the peer with the application traffic keys of this very connection. No '
  'application data is sent before the connection is established nor after its sending side was '
  'closed or the connection failed: the attempt raises, and nothing is emitted. Application data '
  'is never sent in clear nor under handshake keys.',
  ['histories', 'inputs'],
  'every sequence of up to 2 (quick) or 3 (thorough) operations out of 11 (sending, receiving '
  'data in clear, under current/past/future keys, closing either end, failing) from every stage '
  'of the handshake, client and server; data glued behind the last handshake messages at every '
  'boundary',
  'The tests only send data over connections that are established and healthy.',
  ['connection.py', 'states', 'states/connected.py', 'states/closed.py'],
  [('can_send_application_data', 'states/__init__.py'), ('record protection', 'connection.py')],
  'exhaustive enumeration of operation sequences from every reachable stage against a reference model',
  'Bound: depth 2/3, two configurations.', PUB)

P('C04', 'Application data arrives complete, in order and unmodified',
  'The bytes an application reads are exactly the bytes its peer application wrote, in order, '
  'whatever their size, however writes and reads are interleaved in both directions, and whatever '
  'the cipher suite, the negotiated maximum fragment length and the padding. Every byte delivered '
  'is handed to the application exactly once. Data written before the sender closed is still '
  'delivered.',
  ['inputs', 'histories', 'configurations'],
  'every write size around and across the padding and record limits (all sizes up to twice the '
  'limit when thorough) for every cipher suite x fragment limit x role; every program of up to 3 '
  '(quick) or 4 (thorough) operations between two connections and every order of a 6 operation '
  'program',
  'The tests send one short HTTP request and response.',
  ['connection.py', 'states/connected.py'],
  [('fragmentation and padding', 'connection.py:_send_content, _encrypt'),
   ('reassembly', 'connection.py:_read_next_record')],
  'exhaustive enumeration of sizes and operation sequences against a byte-stream model',
  'Bound: sizes up to 2 records + 64 bytes, programs of depth 3/4.', PUB)

P('C05', 'Tampered, replayed, reordered or dropped records are never delivered',
  'Whatever a network attacker does to the protected records (flipping bits, truncating, '
  'extending, replaying, reordering, dropping, injecting, substituting records of the other '
  'direction, of another connection or another epoch), the application only reads a prefix of '
  'what its peer wrote. The first record which is not the next genuine one fails the connection '
  'with a fatal alert and nothing is delivered afterwards.',
  ['inputs', 'histories'],
  'every order, omission and replay script of length up to 4/5 over 3 genuine records, 14 '
  'forgeries at every position, every bit of a record header included, every truncation and '
  'extension, for every cipher suite and both roles',
  'The tests never modify a protected record.',
  ['connection.py', 'crypto/ciphers.py'],
  [('AEAD with per record nonce and header', 'crypto/ciphers.py:decrypt'),
   ('record reading', 'connection.py:_read_next_record')],
  'exhaustive enumeration of attacker scripts and single-record mutations',
  'Bound: 3 genuine records of 24 bytes, scripts of length 4/5, one mutated record.', PUB)

P('C06', 'A tampered handshake is never completed by the peer who was tampered with',
  'If a network attacker modifies, drops, duplicates, swaps or injects any part of the handshake '
  'messages exchanged by two honest peers, the peer that received the modified messages never '
  'completes the handshake believing it speaks to the other: it fails, or waits. In particular '
  'no downgrade of the offered cipher suites, groups, signature schemes, protocols or versions '
  'goes unnoticed.',
  ['inputs', 'fault_sequences'],
  'every single-bit (quick: every byte, and every bit of the hellos) modification of every record '
  'of both flights, every drop, duplication, swap and truncation of a record, and semantic '
  'downgrades of the hellos, in three handshake configurations including HelloRetryRequest',
  'The tests never put an attacker between the two peers.',
  ['transcript.py', 'crypto/ciphers.py', 'states'],
  [('transcript hash and Finished', 'transcript.py, crypto/ciphers.py:verify_finish'),
   ('CertificateVerify', 'states/client/wait_certificate_verify.py')],
  'exhaustive enumeration of single faults on the handshake between two real connections',
  'Bound: one modification per handshake, three configurations.', PUB)

P('C07', 'Peers only ever agree on parameters both of them offered',
  'Whenever a handshake completes, version, cipher suite, group, signature scheme, application '
  'protocol, certificate type and maximum fragment length are all supported by both sides, both '
  'sides report the same ones, and the server picks by its own order of preference. When there is '
  'no common parameter, the server refuses with the alert the RFC prescribes; a server answer '
  'that selects a parameter the client did not offer is refused by the client. A retry changes '
  'none of it.',
  ['configurations', 'inputs'],
  'every pair of preference lists (subsets and orders) over small domains per negotiated '
  'parameter, every offer of a puppet client to the server and every answer of a puppet server '
  'to the client',
  'The tests negotiate with one or two fixed lists and call the negotiation helpers one at a time.',
  ['states/server/wait_client_hello.py', 'states/client/wait_server_hello.py',
   'states/client/wait_encrypted_extensions.py', 'states/client/start.py', 'configuration.py'],
  [('server negotiation', 'states/server/wait_client_hello.py'),
   ('client checks', 'states/client/wait_encrypted_extensions.py')],
  'exhaustive enumeration of configurations against an independent negotiation function',
  'Bound: domains of 2-3 values per parameter, parameters varied one or two at a time.', PUB)

P('C08', 'Hello retry requests are sound on both sides',
  'A server that supports one of the offered groups without having received a share for it asks '
  'for a retry exactly once, for its preferred common group, and refuses a second client hello '
  'that no longer offers what the first one selected (group, cipher suite, signature scheme), or '
  'that still lacks the share. A client only follows a retry '
  'that selects a group it offered and for which it sent no share, answers with one share of that '
  'very group, the same random and the cookie it was given, refuses a second retry or a change of '
  'cipher suite, and both sides then agree on the keys.',
  ['inputs', 'histories', 'configurations'],
  'every server preference x client groups x client shares over 3 groups, every modification out '
  'of a fixed list of the second hello, every HelloRetryRequest a puppet server can build over '
  'groups x cookies x suites x versions, every follow-up server hello',
  'No test covers the client side of a retry, the server side is only tested with OpenSSL and '
  'one pair of groups.',
  ['states/server/wait_client_hello.py', 'states/client/wait_server_hello.py',
   'states/client/start.py', 'transcript.py'],
  [('server retry', 'states/server/wait_client_hello.py:_send_hello_retry_request'),
   ('client retry', 'states/client/wait_server_hello.py'), ('transcript', 'transcript.py')],
  'exhaustive enumeration of retry exchanges against a reference peer',
  'Bound: 3 groups (all when thorough), one deviation per exchange. A retry that only carries a '
  'cookie is out of scope: the client refuses it, which is conservative.', PUB)

P('C09', 'A client only accepts a server whose X.509 certificate it can authenticate',
  'A client with a trust store only completes the handshake when the server presented a chain to '
  'a trusted root that is within its validity, not longer than the configured depth, valid for '
  'server authentication, names the host (or IP address) the client asked for, contains no '
  'certificate of the revocation list, whose stapled or fetched certificate statuses are good, '
  'and proved possession of the certified key over this handshake with an allowed scheme. Every '
  'single failure of those makes the client fail with a fatal alert before any data is '
  'exchanged, and a chain that passes all of them is accepted.',
  ['inputs', 'configurations'],
  'the full matrix chain shape x name x validity x usage x revocation x status x proof of '
  'possession, one and two faults at a time, for six kinds of keys and all signature schemes',
  'The tests check a few certificates with OpenSSL as server; CRL, intermediates, statuses of '
  'intermediates and forged proofs of possession are never exercised.',
  ['states/client/wait_certificate.py', 'states/client/wait_certificate_verify.py',
   'crypto/ocsp.py', 'crypto/signatures.py', 'configuration.py'],
  [('chain', 'states/client/wait_certificate.py:_verify_chain'),
   ('revocation', 'states/client/wait_certificate.py:_verify_revocation'),
   ('status', 'states/client/wait_certificate.py:_verify_statuses'),
   ('possession', 'states/client/wait_certificate_verify.py')],
  'exhaustive enumeration of certificate chains and proofs against an oracle known by construction',
  'Bound: chains of up to 5 certificates; path building itself is delegated to pyca/cryptography.',
  PUB)

P('C10', 'How the network chunks the bytes never changes the outcome',
  'The behaviour of a connection (messages emitted, data delivered, negotiated parameters, '
  'failures and alerts) is a function of the bytes received, not of how they were cut into '
  'pieces: delivering them all at once, byte by byte or cut anywhere gives the same result. '
  'Handshake messages may be coalesced in one record or split over several at any byte without '
  'changing the outcome.',
  ['inputs', 'schedules'],
  'every position of one cut (and of two cuts on a grid) of every flight, every uniform chunk '
  'size up to 64, every uniform handshake fragment size and every coalescing of consecutive '
  'messages, for both roles, correct and failing flights, and application records',
  'The tests deliver whole flights, or whatever the loopback socket gives.',
  ['connection.py'],
  [('input buffering', 'connection.py:_read_next_record, _read_next_content')],
  'exhaustive enumeration of segmentations, differential against the unsegmented run',
  'Bound: two cuts, flights of one configuration per role plus HelloRetryRequest.', PUB)

P('C11', 'A failed connection tells its peer once and is dead for good',
  'When a connection fails because of what it received, it raises to its caller, emits exactly '
  'one fatal alert as the last thing it ever emits (none when the peer itself sent a fatal '
  'alert), protected with the keys in force, and is no longer connected. Afterwards no call can '
  'make it send, deliver or accept anything again, nor make it look connected or in handshake.',
  ['histories', 'inputs'],
  'every way to fail out of a list of 25+ causes in every stage of the handshake and after, both '
  'roles, followed by every sequence of up to 2 (quick) or 3 (thorough) public operations',
  'The tests stop at the first exception and never look at what the failed connection still does.',
  ['connection.py', 'states/failed.py', 'states/__init__.py', 'contents/alerts.py'],
  [('failing', 'connection.py:_fail'), ('Failed state', 'states/failed.py')],
  'exhaustive enumeration of failure causes x stages x later operation sequences',
  'Bound: depth 2/3 of operations after the failure.', PUB)

P('C12', 'Closing is orderly: each direction closes once, nothing is lost or reopened',
  'After close_notify was received nothing more is delivered, and after it was sent nothing more '
  'is sent; it is sent at most once, and the direction that is not closed keeps working. '
  'Everything received before the close remains readable. A connection closed or cut before the '
  'handshake completed is never reported connected, and no sequence of close operations, alerts, '
  'data and failures ever reopens a closed direction or fails to terminate.',
  ['histories'],
  'every sequence of up to 4 (quick) or 5 (thorough) operations out of closing either end, '
  'sending, receiving data, close_notify, warnings, errors and garbage, from every stage of the '
  'handshake and both roles, breadth first with state deduplication',
  'The tests close a healthy connection once.',
  ['connection.py', 'states/closed.py', 'states/failed.py', 'states/__init__.py'],
  [('closing', 'connection.py:close_receiving_end, close_sending_end'),
   ('Closed state', 'states/closed.py')],
  'breadth-first exploration of a closure automaton in lockstep with the implementation',
  'Bound: depth 4/5.', PUB)

P('C13', 'No nonce is ever used twice with a key, and usage limits are enforced',
  'Over the life of a connection no two records are ever protected with the same key and nonce, '
  'nor opened with a nonce other than the next one; each change of keys restarts the sequence '
  'with fresh keys. No key ever protects or opens more records than its limit: the connection '
  'refuses to go on instead.',
  ['histories', 'configurations'],
  'every operation sequence up to depth 4/5 between two peers with every AEAD call recorded, '
  'every cipher suite, handshake shape and role; sequence numbers placed at every distance around '
  'the limits',
  'The tests never look at nonces and never send more than a few records.',
  ['crypto/ciphers.py', 'connection.py'],
  [('sequence numbers', 'crypto/ciphers.py:_next_write_nonce, _next_read_nonce'),
   ('limit', 'crypto/ciphers.py:usage_limit')],
  'exhaustive enumeration of operation sequences with a monitor on every AEAD call',
  'The AEAD objects of pyca/cryptography are replaced by recording wrappers that still encrypt. '
  'Re-keying is not implemented in this version: at the limit the connection must stop.', PUB)

P('C14', 'Record size limits are respected and enforced',
  'No record emitted exceeds the limits of the RFC nor, once negotiated, the maximum fragment '
  'length; padding included. Records within the limits are accepted and records beyond them, '
  'before or after decryption, are refused with a record_overflow alert. A fragment limit that '
  'was not negotiated is neither applied to the peer nor assumed.',
  ['inputs', 'configurations'],
  'every fragment limit x cipher suite x role x size around every limit and padding boundary '
  '(all sizes for 512), sent and received, in clear, in handshake flights with long chains and '
  'as application data',
  'The tests send short messages with the default limit.',
  ['connection.py', 'states/client/start.py', 'states/server/wait_client_hello.py'],
  [('limits', 'connection.py:max_fragment_length, _max_input_length, _encrypt, _decrypt')],
  'exhaustive enumeration of record sizes around every limit against the RFC arithmetic',
  'Bound: sizes up to three records.', PUB)

P('C15', 'Malformed input always ends in a clean failure',
  'Whatever bytes a peer sends, processing them terminates and either is legal or fails the '
  'connection with a fatal alert: malformed messages are never accepted, never leave the '
  'connection waiting in a half processed state, and never cost more than time and memory '
  'proportional to their size. Every length field that lies, every truncated or over-long '
  'structure inside a message is refused with a decode error or a more specific alert.',
  ['inputs'],
  'for every handshake message and extension the connection can receive: every truncation, every '
  'one byte extension, every modification of every length field, every byte value at selected '
  'positions; every single byte substitution of the hellos; duplicated and empty extensions; '
  'records of every type x length; both roles',
  'The unit tests parse well formed messages and a few malformed ones.',
  ['serial.py', 'contents', 'connection.py'],
  [('bounded reads', 'serial.py'), ('assert_eof', 'connection.py:receive_data')],
  'exhaustive enumeration of structured mutations against a reference grammar',
  'Bound: one mutation per message. Messages of unknown kinds may fail with internal_error.', PUB)

P('C16', 'Every message survives serialization and parsing unchanged',
  'Serializing any valid message and parsing it back gives an equal message, consumes exactly its '
  'bytes, and serializing again gives the same bytes; the bytes are those the RFC prescribes. '
  'Unknown extensions, unknown code points and values reserved for future use are carried '
  'through unmodified.',
  ['inputs'],
  'every message and extension type x small domains for each field (empty, one, several items; '
  'boundary lengths; known and unknown code points), against an independent encoder',
  'The unit tests check a few captured messages in one direction.',
  ['contents', 'serial.py'],
  [('parse/serialize', 'contents'), ('SerialIO', 'serial.py')],
  'exhaustive enumeration of small message values, cross-checked with an independent encoder',
  'Bound: up to 3 items per list, boundary lengths.', ('Content.parse / serialize',))

P('C17', 'The serialization stream never reads beyond its limits',
  'Every read on the serialization stream returns exactly the bytes asked for and moves past them, '
  'or raises; it never returns bytes beyond the innermost declared limit, never moves backwards, '
  'and a limit left with unread bytes is reported. Whatever is written can be read back equal, '
  'and lengths are encoded big-endian on exactly the requested width.',
  ['histories', 'inputs'],
  'every sequence of up to 4 (quick) or 5 (thorough) operations of the stream (reads, writes, '
  'nested limits, lookahead) over small buffers against a list model',
  'The unit tests cover a handful of calls per method.',
  ['serial.py'], [('limits', 'serial.py:SerialIO')],
  'breadth-first search of operation sequences against a reference model',
  'Bound: depth 4/5, buffers up to 8 bytes.', ('SerialIO',))

P('C18', 'Both sides derive exactly the keys of the RFC',
  'For every cipher suite, group, role and handshake shape, the traffic secrets, keys, nonces and '
  'Finished values of a connection are those of the TLS 1.3 key schedule over the actual '
  'transcript and shared secret, so that any conforming peer interoperates. This includes shared '
  'secrets with leading zeros, retried hellos and messages split over several records.',
  ['configurations', 'inputs'],
  'every cipher suite x group x role x handshake shape (with and without retry, extensions, key '
  'kinds) against an independent key schedule, shared secrets with leading zero bytes, published '
  'test vectors',
  'The tests connect to OpenSSL with some of the combinations and random shared secrets only.',
  ['crypto/ciphers.py', 'crypto/hkdf.py', 'crypto/key_exchanges.py', 'transcript.py'],
  [('key schedule', 'crypto/ciphers.py:_TLSSecrets'), ('hkdf', 'crypto/hkdf.py'),
   ('transcript', 'transcript.py')],
  'exhaustive enumeration of configurations against an independent key schedule',
  'The reference is validated by RFC 8448 vectors and by OpenSSL (C27).', PUB)

P('C19', 'Secrets are only logged on request, and the log decrypts the session',
  'No secret is ever logged unless the configuration asks for it. When it does, each connection '
  'logs the secrets of the sessions in the NSS key log format, under its own client random, and '
  'they are the very secrets in use; neither secrets nor private keys (ephemeral ones included) nor '
  'application data appear in the other logs, in whole or in part.',
  ['configurations', 'histories'],
  'every cipher suite x role x handshake shape x log setting x abort point, interleaved '
  'connections',
  'The tests only check that the log option makes lines appear.',
  ['connection.py', 'crypto/ciphers.py'],
  [('key log', 'crypto/ciphers.py'), ('client random', 'states/server/wait_client_hello.py')],
  'exhaustive enumeration of configurations and abort points with a monitor on every log record',
  'Bound: handshake cut after every record.', ('logging records',))

P('C20', 'The status cache is never wrong, stale, or unbounded',
  'A status served from the cache is always one that was stored for the very same request and has '
  'not expired; a removed entry is never served again unless stored again. The cache never holds '
  'more than its capacity and evicts the entry that expires first, whatever the sequence and '
  'interleaving of requests, insertions and removals; a refused answer of the responder is '
  'never stored nor returned, and no answer is ever read beyond the size limit: it is reported as an '
  'error that the connections handle.',
  ['histories', 'schedules', 'fault_sequences'],
  'every sequence of up to 5/6 operations over 3 keys and 3 clock steps with capacities 2 and 3, '
  'against a model; every interleaving of two threads with up to 2 (thorough 3) preemptions at '
  'line granularity, one at bytecode granularity; every kind of HTTP answer',
  'The tests call each function once or twice with mocked answers.',
  ['ocsp_over_http.py'],
  [('cache', 'ocsp_over_http.py:request, cache, uncache')],
  'state-space search against a cache model, and systematic 2-thread schedules',
  'Thread switches are explored at line granularity; the clock and HTTP are stand-ins.',
  ('ocsp_over_http.request',))

P('C21', 'Only a good, current, authentic status of the right certificate is accepted',
  'A certificate status response is accepted only if it is successful, says good, is about the '
  'requested certificate of the requested issuer, is within its validity, and is signed by that '
  'issuer. Any other response, malformed ones included, is refused; a refused status makes the '
  'client refuse the server, is never stapled by the server, which goes on without, and is '
  'forgotten. The status of every certificate of the chain matters.',
  ['inputs', 'configurations'],
  'the product of response status x certificate status x subject x validity x signer x algorithm '
  'x encoding faults (every truncation, every byte), for every kind of issuer key',
  'The tests validate two captured responses.',
  ['crypto/ocsp.py', 'states/client/wait_certificate.py', 'states/server/wait_client_hello.py'],
  [('validation', 'crypto/ocsp.py:validate_ocsp')],
  'exhaustive enumeration of responses against an oracle known by construction',
  'Delegated responder certificates are refused by this version, which is conservative.', PUB)

P('C22', 'The socket wrapper loses nothing whatever the socket does',
  'Whatever the way the socket splits reads and writes, and wherever the peer closes or the '
  'socket fails, a wrapped connection delivers exactly the stream its peer wrote, sends '
  'everything that must be sent (alerts included) before anything else, and reports the end of '
  'the stream instead of blocking or spinning. It never reports data that was not received nor '
  'drops data that was.',
  ['schedules', 'fault_sequences', 'inputs'],
  'every uniform chunk size and every single cut of both directions, end of file and socket '
  'errors after every byte, both roles, with reads and writes of various sizes',
  'The tests use a loopback socket, which never splits.',
  ['wrapper.py', 'connection.py'],
  [('wrapper', 'wrapper.py:WrappedSocket')],
  'exhaustive enumeration of environment answers (short reads, EOF, errors) of a scripted socket',
  'The socket is a stand-in that follows the semantics of blocking sockets.', ('WrappedSocket',))

P('C23', 'Connections never influence each other',
  'Connections that share a configuration, in any interleaving of their operations, behave as if '
  'each was alone: the outcome, negotiated parameters, keys and data of one never depend on '
  'another, and a failing or hostile connection never affects the others nor the shared '
  'configuration. Random values and ephemeral keys are never shared between connections.',
  ['schedules', 'histories'],
  'every interleaving of the steps of two connections (honest, retried, failing), sequentially '
  'every ordered pair of connection kinds sharing a configuration',
  'The tests use one connection at a time.',
  ['connection.py', 'configuration.py', 'states/server/wait_client_hello.py', 'states'],
  [('per connection state', 'connection.py'), ('frozen configuration', 'configuration.py')],
  'exhaustive interleaving of two connections at message granularity, differential against isolation',
  'Message granularity: one connection is not meant to be shared by several threads.', PUB)

P('C24', 'An invalid key share never yields a connection',
  'A key share that is not a valid public key of its group (wrong length or format, not on the '
  'curve, low order, out of range, of another group) is always refused with a fatal alert, on '
  'both sides and after a retry as well, and no key is derived from it.',
  ['inputs'],
  'for every group: every low order and boundary value, every length fault, every format byte, '
  'single bit flips of points (all bits when thorough), shares of the other groups; both roles, '
  'with and without retry',
  'The tests try one or two corrupted shares.',
  ['crypto/key_exchanges.py', 'states/server/wait_client_hello.py',
   'states/client/wait_server_hello.py'],
  [('validation', 'crypto/key_exchanges.py:resume')],
  'exhaustive enumeration of invalid encodings per group',
  'Whether a compressed point that lies on the curve is refused is not decided.', PUB)

P('C25', 'Every alert received has the effect the RFC gives it',
  'Every alert a peer sends other than close_notify and user_canceled, known or not and whatever '
  'its claimed level, ends the connection at once, is reported to the caller with its '
  'description, and is not answered. close_notify only ends the receiving direction of an '
  'established connection, user_canceled changes nothing, and malformed alerts are refused.',
  ['inputs', 'histories'],
  'all 65536 pairs of level and description bytes (quick: all descriptions x 6 levels) in '
  'selected stages, all descriptions in every stage, every alert length, both roles, protected '
  'and in clear',
  'The tests parse two alerts.',
  ['contents/alerts.py', 'states/__init__.py', 'connection.py'],
  [('alert processing', 'states/__init__.py:process'), ('parsing', 'contents/alerts.py')],
  'exhaustive enumeration of alert values in every stage',
  'Bound: one alert per connection, sequences are covered by C12.', PUB)

P('C26', 'Raw public keys authenticate exactly the trusted keys',
  'A client configured with trusted raw public keys only completes the handshake with a server '
  'that negotiated raw public keys, presented one of them, and proved possession of it; any other '
  'key, a missing proof or a certificate type that was not negotiated fails the handshake. A '
  'client with both a trust store and trusted keys accepts each kind under its own rules only.',
  ['inputs', 'configurations'],
  'every kind of key x trusted set x presented entry (right key, other key, certificate, several '
  'or no entries) x negotiated type x proof, and every pair of client and server certificate '
  'type configurations between two connections',
  'No test makes a raw public key handshake.',
  ['states/client/wait_certificate.py', 'states/client/wait_certificate_verify.py',
   'contents/handshakes/certificate.py', 'configuration.py'],
  [('trust', 'states/client/wait_certificate.py:_process_raw_public_key')],
  'exhaustive enumeration of configurations and presented entries',
  'Bound: six kinds of keys.', PUB)

P('C27', 'Connections interoperate with OpenSSL',
  'For every combination of cipher suite, group, certificate key kind and role the library '
  'supports, a handshake with OpenSSL completes, with and without retry, and data flows both ways '
  'until both sides closed.',
  ['configurations'],
  'every cipher suite x key kind, every group x role with and without retry, every protocol list, '
  'data sizes around the limits, session tickets, close orders',
  'The tests need sockets, cover a part of the combinations and one exchange each.',
  ['connection.py', 'states', 'crypto'],
  [('whole protocol', 'connection.py')],
  'exhaustive enumeration of configurations against OpenSSL as the conformance oracle',
  'OpenSSL is driven in memory through the ssl module of CPython.', PUB)

P('C28', 'Inconsistent configurations are refused up front',
  'A configuration that can not work or that would silently be insecure (no algorithm, server '
  'without key or certificate, settings of the other side) is refused when it is built, consistent '
  'ones are accepted, and a configuration never changes afterwards, whatever the connections that '
  'use it do. Whether peers are authenticated only depends on the trust settings.',
  ['configurations'],
  'the product of presence or absence of every setting x side',
  'The tests try a few settings.',
  ['configuration.py', 'connection.py'],
  [('validation', 'configuration.py:__post_init__')],
  'exhaustive enumeration of configurations',
  'Bound: each setting absent, empty or with one or two values.', ('TLSConfiguration',))

P('C29', 'The system trust store is the one of the running system',
  'On every supported system the trusted certificates are loaded from the path that very system '
  'uses, derived systems use the one of the first known system they derive from, and an unknown '
  'system is refused instead of trusting nothing or something else.',
  ['configurations'],
  'every release id x ordered list of up to 3 parent ids over known and unknown names',
  'The tests check two releases.',
  ['trust_store.py'], [('path selection', 'trust_store.py:get_ca_certificates_path')],
  'exhaustive enumeration of release descriptions against a reference lookup',
  'Bound: up to 3 parents.', ('get_system_store',))


P('C30', 'Clients offer what they are configured for, servers answer only what was offered',
  'Every ClientHello, the one after a HelloRetryRequest included, carries exactly the extensions '
  'and values the configuration asks for: cipher suites, groups, signature algorithms and '
  'application protocols in the configured order, the server name (never for an IP address, no '
  'trailing dot, as A-label) that was asked for, a fragment limit, certificate types and a status '
  'request only when configured, the very cookie of the retry, one fresh share for the chosen '
  'group, and the same random in both hellos of one connection only. A server never answers an '
  'extension the client did not offer, nor one in a message it does not belong to; what it answers '
  'follows its own configuration, and it refuses when there is no common application protocol or '
  'certificate type.',
  ['inputs', 'configurations'],
  'every pair of values of ten dimensions of the client configuration, retries included; every '
  'subset of ten offered extensions x nine server configurations x retried or not',
  'The tests look at a few hellos of the default configuration.',
  ['states/client/start.py', 'states/server/wait_client_hello.py', 'configuration.py'],
  [('offered extensions', 'states/client/start.py:initiate_connection'),
   ('answered extensions', 'states/server/wait_client_hello.py:_negociate')],
  'exhaustive enumeration of configurations and offers on the real code, every message compared '
  'with the prediction of an independent model',
  'The order of the extensions is free. Bound: pairs (thorough: triples) of client dimensions.',
  ('TLSConfiguration', 'TLSConnection.initiate_connection'))


P('C31', 'The commands do what their options ask, whatever the other side does',
  'Unless --insecure is given, "siotls client" only sends its request to a server whose certificate '
  'is valid for --host and issued by an authority of the system; it exits with a non zero status '
  'whenever it fails, and shows the response otherwise. "siotls server" outlives every client: it '
  'answers each well behaved one completely and closes every connection, whatever the clients '
  'before it did, and never waits for one without a time limit; it does not start with missing or '
  'unreadable files. Keys are exported where --keylogfile says, and only when it is given.',
  ['histories', 'inputs', 'configurations'],
  'nine server certificates x twenty-two behaviours of a server x three names x --insecure x key '
  'log; every sequence of up to 2 (thorough: 3) clients among thirty-two behaviours; every '
  'refused option',
  'The tests never run the commands.',
  ['__main__.py', 'examples/simple_client.py', 'examples/simple_server.py', 'utils.py',
   'wrapper.py'],
  [('options', '__main__.py:main'), ('client', 'examples/simple_client.py:connect'),
   ('server', 'examples/simple_server.py:serve')],
  'exhaustive enumeration of peers and sequences of peers over the real commands, on sockets that '
  'are owned by the checker',
  'The sockets and the bundle of the system are stand-ins.', ('siotls.__main__.main',))


P('C32', 'Revocation takes effect when statuses expire, whatever happened before',
  'However many connections share one status cache, as clients or as servers, and whatever the '
  'responder answers in between, a client only completes a handshake when every certificate that '
  'names a responder has a good status that is not expired, given for that very certificate; a '
  'revoked certificate is refused at the latest when the last good status given for it expires. '
  'When a good status can be fetched the connection is accepted: an earlier failure, an '
  'unreachable, lying or garbled responder leaves no trace. A server never fails because of the '
  'responder, and staples a status only if it is a good one of its own certificate, not expired.',
  ['histories', 'fault_sequences'],
  'every history of up to 4 (thorough: 5) events among connections to three certificates (one '
  'behind an intermediate), stapled or fetched, connections served, revocations, five behaviours '
  'of the responder and two lapses of time',
  'The tests validate single answers with a mocked service, never the service and the connections '
  'together over time.',
  ['ocsp_over_http.py', 'crypto/ocsp.py', 'states/client/wait_certificate.py',
   'states/server/wait_client_hello.py'],
  [('client side', 'states/client/wait_certificate.py:_verify_statuses'),
   ('server side', 'states/server/wait_client_hello.py:_send_server_certificate'),
   ('cache', 'ocsp_over_http.py:request, cache, uncache')],
  'exhaustive enumeration of histories of the real connections over the real cache module, against '
  'a model of the statuses that were given',
  'The clock and the HTTP client are stand-ins; the serial numbers of the certificates are '
  'neighbours, or equal under two issuers.',
  ('ocsp_over_http.request', 'TLSConnection.receive_data'))


P('C33', 'Misplaced calls and reused buffers never affect a connection',
  'A public call made at the wrong moment or with a wrong argument (initiating twice, sending '
  'before being connected or after closing, rekeying, receiving nothing, objects that are not '
  'bytes, changing the configuration) raises or does nothing: nothing is emitted nor delivered, '
  'the reported status stays the same, and the connection goes on, or refuses what it must '
  'refuse, exactly as if the call had not been made. The buffers given to a connection can be '
  'reused by the application at once, and those it hands out never change afterwards.',
  ['histories', 'inputs'],
  'every sequence of 2 (thorough 3) out of 17 misplaced calls at every point of the exchange, '
  'between two messages and in the middle of one, before the start, connected, half closed, '
  'closed and failed; followed by an honest exchange, or by each of the 130 events of the '
  'alphabets of C01 and C02',
  'The tests call each method at the right moment, with bytes, once.',
  ['connection.py', 'states', 'states/__init__.py', 'configuration.py'],
  [('public methods', 'connection.py'), ('default of the states', 'states/__init__.py')],
  'exhaustive placement of misplaced calls in the handshake automaton, in lockstep with the '
  'implementation',
  'Bound: four configurations, with and without retry; calls that the RFC leaves open (data of a '
  'server before the end of the handshake) are not judged.', PUB)


def NA(id, title, statement, over, quantifier, why, files, mechanism, reason):
    NOT_APPLICABLE.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=quantifier), why_tests_cant=why,
        anchors=dict(files=[S + f for f in files],
                     mechanism=[dict(name=n, where=S + w) for n, w in mechanism],
                     hook_needed=None), reason=reason))

NA('N01', 'Secret values do not leak through timing',
   'The time taken to verify a Finished message, a signature or a record does not depend on how '
   'much of the secret-dependent value matches.',
   ['inputs'], 'every pair of secret and forged value', 'Tests do not measure time.',
   ['crypto/ciphers.py'], [('constant time comparison', 'crypto/ciphers.py:verify_finish')],
   'Timing is not part of the state space a model checker of Python executions explores: no '
   'bounded enumeration of executions decides it.')
NA('N02', 'Random values and ephemeral keys are unpredictable',
   'The randoms and ephemeral private keys of a connection are uniformly distributed and can not '
   'be predicted from earlier ones.',
   ['histories'], 'every history of connections', 'Tests cannot observe a distribution.',
   ['connection.py', 'crypto/key_exchanges.py'], [('secrets', 'connection.py')],
   'Unpredictability is a property of a probability distribution, not of any single execution; '
   'exhaustive exploration only decides that values are fresh (C23).')
