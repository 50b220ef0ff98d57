import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d['anchors']['observe_at']=observe
    P.append(d)
A='anothertls/src/'
p('C01','Honest handshakes complete under every delivery of the same bytes',
 'A handshake between this library and any conforming TLS 1.3 peer with compatible parameters (itself included, as client or server, with or without client certificates) completes with success on both sides, however the transport splits, coalesces or delays the bytes, however short the individual reads and writes are, and whenever a call is interrupted by EINTR. It also completes for every legal way the peer may frame its flight (several messages per record, one message over several records, change_cipher_spec records, record padding, certificate chains, any session id length) and for every value of keys, randoms and signatures. Both sides then hold the same traffic secrets, equal to those an independent implementation of RFC 8446 derives.',
 ['schedules','inputs','fault_sequences','configurations'],
 'all segmentations, delays, interleavings, short reads/writes and EINTRs of a lossless byte stream; all legal peer framings; all key, nonce and signature values; all three cipher suites; with/without client auth, SNI, key log',
 'There is no test of the handshake at all: the 22 tests sample fixed vectors of single primitives. Segmentation, interruption and 1-in-256 key values never occur in them.',
 [A+'net/stream.rs',A+'net/record.rs',A+'net/client/connection.rs',A+'net/server/connection.rs',A+'net/key_schedule.rs',A+'net/handshake/'],
 [('handshake read loops and record parsing',A+'net/server/connection.rs do_handshake, '+A+'net/client/connection.rs do_handshake, '+A+'net/record.rs Record::from_raw'),('key schedule',A+'net/key_schedule.rs KeySchedule::from_handshake'),('signature encoding',A+'crypto/ellipticcurve/signature.rs to_der')],
 [('ServerHsState/ClientHsState','handshake progress','net/*/connection.rs')],['return of ClientConnection::connect / ServerConnection::accept','key log file','bytes on the wire'])
p('C02','Application data arrives exactly once, in order, complete',
 'After a successful handshake over a lossless transport, the concatenation of everything one side passes to tls_write is exactly what the other side obtains from successive tls_read calls, in both directions. This holds for every sequence of write sizes (0, 1, above 16 KiB), every read-buffer size of at least one byte, every segmentation and coalescing of the stream (application data arriving together with the end of the handshake included), short reads and writes, EINTR, and every legal record framing by the peer (record sizes up to the maximum, padding, empty records). A tls_read that fails only because the read timeout of the socket ran out may be repeated and then continues exactly where it stopped.',
 ['schedules','inputs','fault_sequences'],
 'all write/read size sequences, segmentations, interleavings, EINTR/short I/O placements, record framings',
 'No test drives TlsStream; boundary sizes (64-byte blocks, 4096, 16384) and record/segment misalignment are never exercised.',
 [A+'net/stream.rs',A+'net/record.rs',A+'crypto/chacha20/',A+'crypto/aes/'],
 [('tls_read / tls_write',A+'net/stream.rs'),('record protection',A+'net/record.rs encrypt/decrypt'),('nonce sequence',A+'net/key_schedule.rs get_per_record_nonce')],
 [('TlsStream.buffer','buffered bytes','net/stream.rs'),('sequence_number','per-direction record counter','net/key_schedule.rs')],['bytes returned by tls_read'])
p('C03','Tampered record streams never deliver anything but a prefix',
 'If an attacker on the path modifies, truncates, drops, duplicates, reorders, replays or injects bytes or records of an established connection, or ends it early, then the bytes tls_read has delivered are always a prefix of what the peer wrote, and the call that meets the damage returns an error, which never passes for an orderly end (close_notify) or another alert that the peer did not send. Once a read has failed that way, no later read on that stream delivers data that follows the damage.',
 ['fault_sequences','histories','schedules'],
 'all placements and kinds of corruption (bit flips anywhere, drop, dup, swap, replay from the same or another connection or direction, reflection, injection, truncation, FIN, RST) x all segmentations',
 'Tests check one AEAD vector; no test sees a record sequence, a gap or a replay.',
 [A+'net/stream.rs',A+'net/record.rs',A+'net/key_schedule.rs'],
 [('AEAD with sequence-number nonce and header as AAD',A+'net/record.rs decrypt')],None,['return values of tls_read'])
p('C04','A client only completes with a server that proved it holds the key',
 'A client handshake succeeds only if the server proved, inside this very handshake, possession of the private key belonging to the certificate it presented, and possession of the session keys. A server that skips, repeats or reorders its Certificate, CertificateVerify or Finished, signs anything else than this transcript with the server context string, signs with another key or scheme, presents degenerate signature or key values, or sends a wrong Finished is refused.',
 ['inputs','histories','fault_sequences'],
 'all Byzantine server behaviours over message order, signature contents, certificates, key shares and Finished values, under all deliveries',
 'No test runs a handshake with a dishonest peer.',
 [A+'net/client/connection.rs',A+'net/handshake/certificate.rs',A+'crypto/ellipticcurve/ecdsa.rs',A+'net/handshake/finished.rs'],
 [('client state machine',A+'net/client/connection.rs'),('CertificateVerify check',A+'net/handshake/certificate.rs is_certificate_valid'),('Finished check',A+'net/client/connection.rs handle_server_finish')])
p('C05','With client auth on, only holders of CA-signed certificates get in',
 'When the server is configured with a client certificate CA, accept succeeds only if the client presented a certificate signed by that CA, accepted by the custom verify function if one is set, answering the request context of this handshake, and proved possession of its private key over this very handshake. Every other client (no certificate, wrong CA, altered certificate, skipped or reordered messages, replayed or foreign proof, rejected by the custom function) gets an error, and every correct client is accepted.',
 ['inputs','histories','configurations','fault_sequences'],
 'all certificates and client behaviours, honest or Byzantine, under all deliveries',
 'No test uses a client certificate in a handshake; the parser tests parse two fixed certificates.',
 [A+'net/server/connection.rs',A+'net/handshake/certificate.rs',A+'utils/x509.rs',A+'crypto/ellipticcurve/ecdsa.rs'],
 [('server state machine',A+'net/server/connection.rs handle_client_certificate, handle_client_certificate_verify, handle_client_finish'),('CA check',A+'net/handshake/certificate.rs has_signed')])
p('C06','Certificate validity follows the clock exactly',
 'At every clock value from 1970 on, a peer certificate is accepted by the validity check exactly when the current time lies between its notBefore and notAfter (inclusive, to the second), for client and server certificates alike and for every encodable date; outside that window the handshake fails with CertificateExpired. A clock set before 1970 or jumping at any moment never crashes the process and never lets an expired or not yet valid certificate in. A certificate whose validity is missing or is not two existing dates in the form of RFC 5280 never passes.',
 ['schedules','inputs','fault_sequences'],
 'all clock values, clock jumps and skews at any point, all validity windows (UTCTime and GeneralizedTime)',
 'is_valid reads the real clock; tests cannot move it, and leap-year and boundary seconds are never met.',
 [A+'utils/x509.rs',A+'net/handshake/certificate.rs'],
 [('Validity::is_valid, UtcTime::get_unix_timestamp',A+'utils/x509.rs'),('check during handshake',A+'net/handshake/certificate.rs from_hello')])
p('C07','A tampered handshake never ends with both sides in disagreement',
 'If an on-path attacker without the endpoints\' keys alters, drops, injects, duplicates, reorders, reflects or replays (also across connections) any handshake bytes, then no endpoint reports success unless the handshake messages it sent and received up to its peer\'s Finished are the ones its peer received and sent. In particular versions, cipher suite, key shares, randoms, session id, server name, certificates and requests can not be changed unnoticed.',
 ['fault_sequences','histories','schedules'],
 'all single and multiple modifications of handshake bytes and records between honest endpoints, under all deliveries',
 'Needs a man in the middle; no test has two endpoints.',
 [A+'net/client/connection.rs',A+'net/server/connection.rs',A+'net/handshake/finished.rs',A+'hash/'],
 [('transcript hash and Finished',A+'net/handshake/finished.rs get_verify_data_for_finished'),('state machines',A+'net/*/connection.rs')])
p('C08','No sequence of received bytes can crash, hang or exhaust the process',
 'Whatever bytes the peer or the network delivers, in whatever pieces and at whatever stage (before, during or after the handshake, in clear or properly encrypted, also from an authenticated peer), and wherever the connection ends, connect, accept, tls_read and tls_write return a result: they do not panic or abort, do not loop without consuming input, and use memory bounded by a small multiple of what was received.',
 ['inputs','histories','fault_sequences'],
 'all byte strings at every protocol stage, mutated and hand-built messages with valid encryption, every EOF/RST point',
 'Parsers index slices directly; tests feed only well-formed data.',
 [A+'net/',A+'utils/x509.rs',A+'utils/der.rs',A+'crypto/ellipticcurve/signature.rs'],
 [('message parsers',A+'net/extensions/*.rs, '+A+'net/handshake/*.rs, '+A+'net/*/{client,server}_hello.rs'),('certificate parser',A+'utils/x509.rs, '+A+'utils/der.rs')])
p('C09','Connections do not disturb each other or the listener',
 'Several threads may accept on one shared server and several clients may run at once: the result and data of each connection depend only on its own peer. A peer that stalls, resets, sends garbage or never sends anything delays at most the accept call that took its connection, data or secrets never cross between connections, and after any failed accept (TCP-level errors included) the next accept still serves the next client.',
 ['schedules','histories','fault_sequences'],
 'all interleavings of concurrent accepts, connects and data transfer, with hostile, stalled and resetting peers and accept errors',
 'Concurrency is never tested.',
 [A+'net/server/connection.rs',A+'net/stream.rs',A+'net/client/connection.rs'],
 [('ServerConnection::accept on &self',A+'net/server/connection.rs')],None,['results of every accept/connect, data per connection'])
p('C10','Secrets are fresh, full-entropy and never made without the system RNG',
 'With the system RNG selected, every hello random, key share, client-auth request context and signature nonce is derived from bytes newly read from it: none repeats within or across connections as long as the RNG does not repeat, and each depends on at least 256 bits of RNG output. If opening or reading the RNG fails, ends early, returns short counts or is interrupted, the operation either obtains the complete bytes or fails without sending anything that depends on missing randomness.',
 ['fault_sequences','inputs','histories'],
 'all fault placements on the RNG device (open and read errors, EOF, short reads, EINTR) and all RNG outputs, over multi-connection histories',
 'The RNG is the real /dev/urandom in tests; no fault and no correlation between draws can be produced.',
 [A+'rand/urandom.rs',A+'net/client/connection.rs',A+'net/server/server_hello.rs',A+'crypto/ellipticcurve/ecdsa.rs'],
 [('URandomRng',A+'rand/urandom.rs'),('nonce selection',A+'crypto/ellipticcurve/ecdsa.rs sign')],None,['public randoms and key shares on the wire','nonces recovered from signatures with the known private key'])
p('C11','Nothing secret appears on the wire; every record is sealed exactly once',
 'Every record an endpoint emits after its hello is protected under the right key for that phase and direction with consecutive sequence numbers from zero, so that a passive observer holding only the logged secrets can open all of them in order and no (key, nonce) pair is used twice. No run of application data, certificate or private key bytes ever appears unencrypted in the bytes sent, whatever the data sizes, schedules and errors.',
 ['histories','inputs','schedules'],
 'all data sizes, schedules, error and alert paths, three cipher suites',
 'Tests encrypt single fixed vectors that avoid block-boundary sizes and never see a sequence of records.',
 [A+'net/record.rs',A+'net/stream.rs',A+'crypto/chacha20/cipher.rs',A+'crypto/aes/gcm.rs',A+'net/key_schedule.rs'],
 [('encrypt',A+'net/record.rs'),('ChaCha20::encrypt',A+'crypto/chacha20/cipher.rs'),('sequence numbers',A+'net/key_schedule.rs')],None,['all bytes sent'])
p('C12','The key log is complete, well formed, and never harms a connection',
 'With a key log configured, after a successful handshake the file contains for that connection\'s client random one well-formed line each for the client and server handshake and application traffic secrets, with exactly the secrets in use, appended after whatever the file held before, also when many connections log to the same file at once. Failures of the log file (open, write, full disk, short or interrupted writes) never make a handshake fail or panic and never alter previously logged lines.',
 ['schedules','fault_sequences','histories'],
 'all interleavings of concurrent connections at system-call granularity and all file fault placements',
 'The key log has no test; interleaved appends need a controlled schedule.',
 [A+'utils/keylog.rs',A+'net/client/connection.rs',A+'net/server/connection.rs'],
 [('append_to_file',A+'utils/keylog.rs')],None,['key log file contents'])
p('C13','Failures are announced once, correctly, and alerts are reported',
 'When a handshake fails because of what the peer sent, the failing side sends exactly one alert, fatal, readable by the peer, whose code is the RFC 8446 number of the error its own call returns, and sends nothing after it and returns without waiting for the peer; transport errors are not answered with alerts. An alert received during the handshake or in place of data makes the pending call return the error with that RFC 8446 number, without an alert being sent back.',
 ['histories','inputs','fault_sequences'],
 'all failure points of the handshake on both roles, all alert codes at all stages, under all deliveries',
 'No test produces or receives an alert.',
 [A+'net/alert.rs',A+'net/stream.rs',A+'net/client/connection.rs',A+'net/server/connection.rs'],
 [('TlsError::as_u8/new',A+'net/alert.rs'),('write_alert',A+'net/stream.rs'),('do_handshake_with_error',A+'net/*/connection.rs')],None,['bytes sent after the failure','returned error'])
p('C14','Everything sent is well-formed TLS 1.3 in the prescribed order',
 'Every byte stream an endpoint emits parses strictly as TLS 1.3: record headers and sizes within the limits (at most 2^14 bytes of content, also for large writes and large certificates), handshake messages in the prescribed order with canonical, fully consumed encodings, ServerHello echoing the session id and choosing from the offer, Certificate and request contexts matching, strict DER signatures, correct Finished values, and change_cipher_spec only where allowed. This holds for every configuration, key value, data size and delivery.',
 ['inputs','configurations','schedules'],
 'all configurations (server names, certificate sizes, client auth), key and signature values, write sizes',
 'No test serialises a message; 1-in-128 signature values and over-long records never occur.',
 [A+'net/client/client_hello.rs',A+'net/server/server_hello.rs',A+'net/extensions/',A+'net/handshake/',A+'crypto/ellipticcurve/signature.rs',A+'net/stream.rs'],
 [('serialisers',A+'net/**'),('Signature::to_der',A+'crypto/ellipticcurve/signature.rs')],None,['all bytes sent, parsed by a strict reference parser'])
p('C15','Only offered, supported and safe parameters are ever negotiated',
 'A server completes a handshake only with a client that offered TLS 1.3 in supported_versions, a supported cipher suite and a well-formed X25519 key share, and that did not ask for a host other than the configured server name; a client completes only with a server that selected TLS 1.3, a suite from its offer, null compression, an X25519 share and its own session id. Both refuse key shares of the wrong length or that force an all-zero shared secret; whenever the peer\'s offer contains acceptable parameters, unknown or unsupported alternatives next to them (suites, groups, versions, extensions, GREASE, in any order) do not prevent the handshake.',
 ['inputs','configurations'],
 'all ClientHello offers and ServerHello selections, honest or hostile, under all deliveries',
 'Negotiation is not tested.',
 [A+'net/server/server_hello.rs',A+'net/client/client_hello.rs',A+'net/client/connection.rs',A+'net/extensions/',A+'net/key_schedule.rs'],
 [('ServerHello::from_client_hello',A+'net/server/server_hello.rs'),('ServerHello::from_raw',A+'net/server/server_hello.rs'),('KeySchedule::from_handshake',A+'net/key_schedule.rs')])
p('C16','Keys and certificates load exactly or not at all',
 'Building a client or server configuration from PEM files under any file fault (open or read errors, short reads, EINTR, a file truncated at any point or with parts that never reached the disk) either yields exactly the key and certificate in the file or refuses; it never continues with a different or partial key or certificate. A file that holds the key of another curve is refused.',
 ['fault_sequences','crash_points'],
 'all fault placements while reading and all truncation points of a half-written file',
 'Tests never read a PEM file.',
 [A+'utils/pem.rs',A+'utils/base64.rs',A+'crypto/ellipticcurve/privatekey.rs',A+'net/handshake/certificate.rs'],
 [('get_pem_content_from_file',A+'utils/pem.rs')],None,['certificate and signatures later seen on the wire'])
p('C17','Hash, MAC and cipher primitives equal their specifications on all inputs',
 'For every input the public SHA-256/384, HMAC, HKDF, AES, GCM, ChaCha20, Poly1305, X25519 and P-256 functions return the value of their specification (FIPS 180-4, RFC 2104, 5869, 7748, 8439, SP 800-38D, FIPS 186-4), for all key, nonce and message lengths they accept.',
 ['inputs'],'all inputs of pure functions',
 'Tests sample a few vectors.',
 [A+'crypto/',A+'hash/'],[('primitives',A+'crypto, '+A+'hash')])
p('C18','Base64 and DER decoding are total and exact inverses of encoding',
 'Decoding any text or byte string as Base64 or DER either fails cleanly or yields exactly the encoded value, and decoding what the library encoded returns the original.',
 ['inputs'],'all inputs of pure functions',
 'Tests sample a few strings.',
 [A+'utils/base64.rs',A+'utils/der.rs',A+'utils/bytes.rs'],[('base64::decode',A+'utils/base64.rs'),('der_parse',A+'utils/der.rs')])
p('C19','Only a permitted message sequence completes a handshake or carries data',
 "An endpoint reports a completed handshake only if what it received up to its peer's Finished is a sequence RFC 8446 permits for its role and configuration: every required handshake message exactly once, under its own type and in order, and no others; in records of the handshake content type, none empty, unprotected up to the hello and protected from then on; no message cut, or followed by further bytes in its record, where the keys change; change_cipher_spec only as an unprotected record with the single byte 1, not before the ClientHello and not between the pieces of a message; no application data; and a Finished that verifies. Every permitted sequence is accepted. After the handshake nothing behind a record of another content type (change_cipher_spec, an unprotected or an empty handshake record included) is delivered as data.",
 ['histories','inputs','schedules'],
 'all sequences of messages and records a peer holding the keys can send, in every framing and delivery',
 'No test sends a sequence other than the honest one.',
 [A+'net/client/connection.rs',A+'net/server/connection.rs',A+'net/record.rs',A+'net/handshake/',A+'net/stream.rs'],
 [('ClientConnection handshake loop',A+'net/client/connection.rs'),('ServerConnection handshake loop',A+'net/server/connection.rs'),('Record parsing and next_record',A+'net/record.rs')])
p('C20','A connection releases what it took, and only that, however it ends',
 'When connect or accept returns an error, or the stream is dropped, its socket is closed then and there (the peer sees the end), exactly once; every other descriptor opened on the way (key log, PEM files, random device) is closed too unless kept for the next connections; descriptors that are not the library\'s are never closed. Over any series of connections, however each ended (key log and accept failures included), the number of open descriptors and the memory in use do not grow.',
 ['histories','fault_sequences','schedules'],
 'all ways a connection can end, at every point, and all series of such connections',
 'Tests never look at descriptors or memory, and none ends a connection early.',
 [A+'net/stream.rs',A+'net/client/connection.rs',A+'net/server/connection.rs',A+'utils/keylog.rs',A+'utils/pem.rs',A+'rand/urandom.rs'],
 [('TlsStream',A+'net/stream.rs'),('KeyLog',A+'utils/keylog.rs')])
import sys
for d in P:
    assert len(d['title'])<=80,(d['id'],len(d['title']))
open('/verif/properties.jsonl','w').write(''.join(json.dumps(d,ensure_ascii=False)+'\n' for d in P))
