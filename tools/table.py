prop('C01', 'The handshake accepts exactly the protocol flow, from a peer that proves itself',
     'For TLS 1.2, TLS 1.3 and TLCP, as client and as server, a handshake completes only along the message flow the protocol defines for what was negotiated: every message in its place, well formed, consistent with the earlier ones, with the peer\'s certificate chain, its signature over the handshake and its Finished correct. Anything else - a message missing, repeated, out of order, truncated, extended, answering what was not offered, with wrong parameters, a wrong signature or a wrong Finished, however it is split over records - ends the handshake with a fatal alert that fits and never with an established connection. The conforming flow is accepted and answered with exactly the messages the protocol defines.',
     ['inputs', 'histories', 'schedules'], 'all message sequences, all deformations of each message at each point, all splits into records and transport reads',
     'Unit tests send a few corrupted messages at a few points; the product of states, messages and deformations is not sampled.',
     ['tls/handshake', 'tls/ccs', 'tls/record'], [('handshake state machine', 'tls/handshake/recv/src/hs_state_recv.c, tls/handshake/common/src/hs_state_recv*.c'), ('message checks', 'tls/handshake/parse/src'), ('transcript and Finished', 'tls/handshake/common/src/hs_verify.c, transcript_hash.c')],
     ['HITLS_Connect/HITLS_Accept return codes', 'transport bytes'],
     'Exhaustive exploration of the handshake model against an arbitrary peer; every transition is replayed against the library by a scripted, independent TLS implementation that verifies everything the library sends.')
prop('C02', 'Connection life cycle: close, alerts and truncation are reported as what they are',
     'On an established connection every call answers according to the history: after close_notify is received reads report an orderly close and never more data; a transport that ends without close_notify is never reported as an orderly close; after close_notify has been sent nothing more can be written; the first damaged record is answered by exactly one fatal alert, and from then on the connection is dead for reading and writing at both ends; a close_notify or fatal alert that the transport refused is sent as soon as it can be, before anything else, and exactly once; quiet shutdown sends nothing.',
     ['histories', 'schedules'], 'all interleavings of write, read, close at both ends with delivery, damage, refusing transport and end of transport',
     'Unit tests close a connection in a few fixed orders; the state machine is a product of two endpoints, the transport and pending alerts.',
     ['tls/cm/src', 'tls/alert/src', 'tls/record/src'], [('connection state', 'tls/cm/src/conn_common.c'), ('pending alert', 'tls/alert/src/alert.c')],
     ['HITLS_Read/Write/Close/Peek return codes', 'HITLS info callback', 'transport bytes'],
     'Exhaustive exploration of the two-endpoint model (one record in flight per direction), every transition replayed over the TLS 1.2, TLS 1.3 and TLCP suites; transport bytes decrypted by an independent implementation.')
prop('C03', 'A TLS stream delivers exactly the bytes written, in order, or fails closed',
     'On an established TLS 1.2, TLS 1.3 or TLCP connection, for every cipher suite and every interleaving of writes of any size, partial delivery, refusing transport, reads and peeks of any size, what one end reads is exactly a prefix of what the other wrote. Records on the wire are what the protocol defines for the negotiated keys: fragments never exceed the configured size, sequence numbers never repeat. A record that is changed, dropped, repeated, reordered, reflected, too long, wrongly padded or of a wrong type is never delivered and is answered by the alert the protocol requires.',
     ['inputs', 'histories', 'schedules'], 'all record histories, all suites, all positions of an attack in the stream',
     'The tests exchange a few messages over a perfect transport; partial writes, split records and attacks at every position and suite are not sampled.',
     ['tls/record/src', 'tls/app/src', 'tls/cm/src/conn_read.c', 'tls/cm/src/conn_write.c'], [('record protection', 'tls/record/src/rec_crypto*.c'), ('record read/write', 'tls/record/src/rec_read.c, rec_write.c')],
     ['HITLS_Write/Read/Peek', 'transport bytes', 'alerts'],
     'Exhaustive exploration of the stream model with an attacker; every transition replayed on every suite; an independent implementation decrypts everything written and itself plays a sender of unusual and malformed records; seeded long histories with boundary sizes.')
prop('C11', 'Symmetric ciphers: any way of feeding a message gives the reference result',
     'For every symmetric cipher of the library (ECB, CBC, CTR, CFB, OFB, XTS, GCM, CCM, ChaCha20, ChaCha20-Poly1305 over AES and SM4), every padding, and every way of splitting the input over updates, duplicating a context, re-initialising or re-using it, the concatenated output and the tag are the ones the algorithm defines for (key, IV, additional data, message). Authenticated decryption finishes successfully only if the tag set for exactly this message is right, wrong padding is refused, and a call that is out of order is refused without changing what the context later produces.',
     ['inputs', 'histories'], 'all call sequences on a context and its duplicate, all message/AAD splits, keys and IVs',
     'The known-answer tests use a few messages in one or two pieces; they do not sample call orders, duplicates, re-initialisation or the many split positions that select different assembly kernels.',
     ['crypto/eal/src/eal_cipher.c', 'crypto/modes/src'], [('context state checks', 'crypto/eal/src/eal_cipher.c'), ('mode implementations', 'crypto/modes/src/modes_*.c, asm_*.c')],
     ['CRYPT_EAL_CipherInit/Reinit/Update/Final/Ctrl/DupCtx'],
     'The finite model (context life cycle, lengths modulo the block, tag status) is explored exhaustively; every transition is replayed on every algorithm, plus seeded random scripts with boundary lengths. Values are judged by an independent implementation.')
prop('C12', 'Digests, XOFs and MACs depend only on the key and the bytes fed since the start',
     'For every hash, extendable-output function and MAC of the library, the value produced depends only on the key and on the bytes fed since the last initialisation or re-initialisation, not on how they were split over updates, nor on earlier use, copies or duplicates of the context, and it is the value the algorithm defines. Consecutive squeezes of an extendable-output function yield consecutive parts of one output stream. A call that is out of order or whose output buffer is too small is refused and does not change later results.',
     ['inputs', 'histories'], 'all call sequences on a context and its duplicate/copy; all splits of the message; all key lengths',
     'The tests are known-answer tests with one or two updates; histories with re-use, copies and failing calls in between are not sampled.',
     ['crypto/eal/src/eal_md.c', 'crypto/eal/src/eal_mac.c', 'crypto/sha1', 'crypto/sha2', 'crypto/sha3', 'crypto/sm3', 'crypto/md5', 'crypto/hmac', 'crypto/cmac', 'crypto/gmac', 'crypto/siphash', 'crypto/cbc_mac', 'crypto/blake2'],
     [('context state checks', 'crypto/eal/src/eal_md.c, eal_mac.c')], ['CRYPT_EAL_Md*', 'CRYPT_EAL_Mac*'],
     'Exhaustive exploration of the context model; every transition replayed on the algorithms, plus seeded random scripts around the block sizes. Values are judged by hashlib/OpenSSL/plain Python.')
prop('C04', 'DTLS application data is delivered at most once and only if authentic',
     'On an established DTLS 1.2, DTLS 1.3 or DTLCP connection (with or without connection identifiers) the network may lose, repeat, reorder, merge, alter or invent datagrams: every record the peer sent is delivered at most once, with exactly its contents, and the first copy of a record that is newer than the replay window allows or inside it and not seen is delivered; replays, altered records, records of other epochs and anything forged are dropped silently, and neither end the connection nor prevent what is authentic from being delivered.',
     ['histories', 'schedules', 'inputs'], 'all delivery histories: any distances between record numbers, any repetitions, any forgery in between',
     'The tests replay a few records; the window is a function of the whole history of delivered numbers.',
     ['tls/record/src'], [('replay window', 'tls/record/src/rec_anti_replay.c'), ('datagram records', 'tls/record/src/rec_read.c')],
     ['HITLS_Read/Write', 'datagrams', 'alerts'],
     'Exhaustive exploration of a model of the window with a small capacity, replayed with several spreads of the numbers over the real 64-bit window; wrap of the DTLS 1.3 record number; sixteen kinds of bad datagrams; long random histories; an independent implementation checks and forges the records.')
prop('C05', 'A DTLS handshake survives any loss, repetition, reordering and fragmentation',
     'A DTLS 1.2, DTLS 1.3 or DTLCP handshake (full, with cookie, mutual authentication, resumption, connection identifiers) over a network that loses, repeats, reorders and re-fragments datagrams and injects unauthenticated ones: no end fails because of it; each end answers a flight only when it has every message of it, with exactly the next flight; retransmissions repeat the same messages; an end completes only after the messages of its peer arrived; and when the network delivers again both ends complete, agree on all parameters and keys and exchange data - also when it was the last flight that was lost.',
     ['schedules', 'histories', 'crash points'], 'all delivery orders, losses and repetitions of messages, all fragmentations, timeouts at any point',
     'The tests drop or swap a few messages at chosen points; the product of orders, losses and fragment boundaries is not sampled.',
     ['tls/handshake/reass', 'tls/handshake/recv', 'tls/record/src/rec_retransmit.c', 'tls/handshake/common/src/hs_dtls_timer.c'],
     [('reassembly', 'tls/handshake/reass/src/hs_reass.c'), ('retransmission', 'tls/record/src/rec_retransmit.c'), ('last flight', 'tls/cm/src/conn_read.c RecvPostFinishPreprocess')],
     ['HITLS_Connect/Accept', 'HITLS_DtlsProcessTimeout', 'datagrams'],
     'Exhaustive exploration of the flight model (reassembly, retransmission, completion), every transition replayed between two library ends under a controlled clock; eight kinds of fragmentations; random fates of opaque datagrams for DTLS 1.3.')
prop('C06', 'Two ends agree on exactly the parameters their policies select, and nobody on the path can change the choice',
     'For every pair of configurations (protocol versions and fallback signalling, cipher suites, groups, signature schemes, server or client preference, certificates, extended master secret, encrypt-then-MAC, ALPN, server name, record size limit) the handshake of a client and a server either completes with exactly the parameters the documented selection rules give - both ends reporting the same ones, deriving the same keys and exchanging data - or fails with the alert of the end that cannot accept; it never selects something one end did not offer; and when somebody on the path edits either hello message (strips extensions, reorders lists, changes the version, the suite, the random or the downgrade sentinel) the handshake fails.',
     ['inputs'], 'all pairs of configurations, all edits of the hello messages',
     'The tests run a few combinations; the selection is a function of both whole configurations.',
     ['tls/handshake/recv', 'tls/handshake/pack', 'tls/config', 'tls/cert'],
     [('server selection', 'tls/handshake/recv/src/recv_client_hello.c'), ('client checks', 'tls/handshake/recv/src/recv_server_hello.c'),
      ('signature selection', 'tls/cert/cert_adapt'), ('version selection', 'tls/config/src/config.c')],
     ['HITLS_Connect/Accept', 'HITLS_Get*', 'wire', 'alerts', 'exporter'],
     'A TLA+ definition of the selection for arbitrary configuration pairs; all pairs over small alphabets per aspect and random pairs varying in everything at once run between two library ends, and TLC decides whether each outcome is the one the definition gives; an attacker on the path edits the hellos.')
prop('C10', 'A certificate chain verifies exactly when a sound path leads to a trusted certificate',
     'For any collection of certificates, trusted set, verification time, flags (partial chain, time check off, revocation of the device or of all), maximum depth, purpose and security strength, set and changed in any order on a store context: verifying a list of certificates succeeds only if issuers found by name, key identifier and key type - in the trusted set first - lead from the first certificate to a trusted self-issued one (or, with the partial chain flag, to any trusted one) and on that path every signature verifies under the issuer key with matching inner and outer algorithm, every certificate is inside its validity (both ends included), issuers are version 3 CAs with certificate signing allowed and path lengths that count only the intermediates that are not self-issued, there are no unknown critical extensions, key usage and extended key usage of the leaf fit the purpose, key and hash strength reach the demanded bits, the depth is not exceeded and, where revocation is on, a current list of the issuer, validly signed by a key allowed to sign lists, does not name the certificate. If such a path is the only one the verification succeeds; if it fails, the error is one of the reasons that apply.',
     ['inputs', 'histories'], 'all certificate graphs (rollovers, cross and self-issued certificates, missing ones, faults), all settings histories',
     'The tests verify a few fixed chains from files; the verdict is a function of the whole graph, the settings history and the time.',
     ['pki/x509_verify', 'pki/x509_cert', 'pki/x509_crl', 'pki/x509_common'],
     [('path building and checks', 'pki/x509_verify/src/hitls_x509_verify.c'), ('trust store', 'pki/x509_verify/src/hitls_x509_store.c'), ('extensions', 'pki/x509_common/src/hitls_x509_ext.c')],
     ['HITLS_X509_CertVerify', 'HITLS_X509_StoreCtxCtrl', 'HITLS_X509_StoreCtxDup'],
     'A declarative TLA+ definition of sound paths and their faults; every single-fault variation of a four certificate chain and of its revocation lists under every flag combination, plus random hierarchies with random settings histories, are issued as real certificates (own DER maker, OpenSSL keys) and verified by the library; TLC decides each verdict.')
prop('C23', 'Revocation lists revoke what they name, within their scope, reasons and time, delta lists included',
     'In a build with complete list processing, for any set of base and delta revocation lists of an issuer: a certificate passes only when current, validly signed lists in whose scope it is (user, CA or distribution point) cover all reasons and none of them names it; among lists the one with fewest defects and then the newest counts; a delta list is used only on request and only for a base of the same issuer, key and scope whose number it follows (indicator not above, number above), and its entries - including removals - prevail; an expired base is excused only by a current delta.',
     ['inputs', 'histories'], 'all combinations of base and delta lists, numbers, scopes, reasons, times and faults',
     'The tests use a few list files in a build configuration of their own.',
     ['pki/x509_verify', 'pki/x509_crl'], [('list selection', 'pki/x509_verify/src/hitls_x509_verify.c HITLS_X509_CheckCertCrl')],
     ['HITLS_X509_CertVerify', 'HITLS_X509_StoreCtxCtrl'],
     'The revocation part of the same TLA+ definition with complete list processing, replayed on a second build of the library with the reduced list processing switched off; every single-fault list, delta numbers around the base number, and random hierarchies with many lists.')
prop('C07', 'A TLS endpoint lets a peer in only as its authentication policy allows',
     'For every policy (client certificates not asked for, optional or required, asked once; failures tolerated or not; verification or application callback; expected host names; key usage check; depth; revocation lists) and every identity the peer presents (valid, untrusted, self-signed, expired, not yet valid, wrong purpose, wrong key usage, revoked, broken signature, unknown critical extension, missing or expired or non-CA intermediate, none), in TLS 1.2, TLS 1.3, DTLS 1.2, DTLS 1.3, TLCP and DTLCP (signature and encryption certificate) and also when the identity or the policy changes before a renegotiation or a post-handshake authentication: the connection is up only if the policy accepts the peer, a rejected peer gets a fatal certificate alert and no data passes, the reported verification result names what was wrong also when it is tolerated, and the reported peer certificate is the one presented.',
     ['inputs', 'histories'], 'all pairs of policies and identities, all sequences of changes, renegotiations and post-handshake authentications',
     'The tests pair a few policies with a few certificates; the verdict is a function of the product and of the history.',
     ['tls/handshake/recv', 'tls/handshake/send', 'tls/cert', 'tls/cm'],
     [('certificate processing', 'tls/handshake/recv/src/recv_certificate.c'), ('path validation call', 'tls/cert/hitls_x509_adapt/hitls_x509_cert_chain.c'), ('when a certificate is asked for', 'tls/handshake/send/src/send_certificate.c, send_encrypted_extensions.c'), ('post-handshake authentication', 'tls/cm/src/conn_establish.c HITLS_VerifyClientPostHandshake')],
     ['HITLS_Connect/Accept/Read/Write', 'HITLS_GetVerifyResult', 'HITLS_GetPeerCertificate', 'alerts'],
     'A TLA+ definition of the verdict for a policy and an identity with one fault, checked by TLC against the soundness statement; every pair over the small alphabets and all histories of up to four steps are run between two library ends with certificates made for the purpose, and TLC decides each outcome.')
prop('C08', 'A session is resumed only where it belongs, as long as it is valid, and with the same security',
     'For every history of connections, stored and reloaded sessions, session caches, ticket keys, lifetimes and clock changes (TLS 1.2, TLS 1.3, DTLS 1.2, DTLS 1.3, TLCP, DTLCP; by session identifier, by ticket and by TLS 1.3 pre-shared key): a connection is reported as resumed by both ends or by neither; it is resumed only with a session this server (or one with the same ticket key and session identifier context) established, that has not expired on either end, was not removed from or pushed out of the cache, and did not end with a fatal alert; it keeps version, cipher suite, hash, extended master secret use, server name and the peer identity of the session; a tampered, truncated or foreign ticket never resumes but leads to a full handshake; and keys and session secrets are the ones of the session, with a full handshake always possible where nothing forbids it.',
     ['histories', 'inputs'], 'all sequences of connections, clock steps, key rotations, context changes, removals and ticket modifications over two servers and two session slots',
     'The tests resume once right after the first connection; whether a session may be used depends on the whole history of both ends.',
     ['tls/feature/session', 'tls/handshake/recv', 'tls/cm'],
     [('session cache', 'tls/feature/session/src/session_mgr.c'), ('tickets', 'tls/feature/session/src/session_ticket.c, session_enc.c'), ('acceptance of a session', 'tls/handshake/recv/src/recv_client_hello.c ServerCheckResume*, Tls13ServerSetPskInfo'), ('client acceptance', 'tls/handshake/recv/src/recv_server_hello.c')],
     ['HITLS_IsSessionReused', 'HITLS_GetDupSession', 'HITLS_CFG_*Session*', 'exporter', 'alerts'],
     'A TLA+ model of two servers (cache, ticket key, context, lifetime) and a client with two session slots under a controlled clock; TLC checks that only valid sessions resume and every transition of the bounded model plus random histories is run between library ends; TLC decides each outcome.')
prop('C24', 'A certificate is accepted for a host name, address, URI or service exactly when it names it',
     'For every certificate (any common name, any number of alternative names of any kind and contents) and every reference identity: HITLS_X509_VerifyIdentity accepts a host name only if a dNSName - or, when there is no dNSName, the common name - equals it up to ASCII case, or has the whole left-most label "*" followed by the same two or more labels, or, with the partial wildcard flag, one "*" inside the left-most label only; an asterisk never spans a dot and never stands in another label; zero bytes, empty names and wrong lengths never match. An address is accepted only if its textual form is valid IPv4 or IPv6 and its bytes equal an iPAddress entry; URI and SRV identities only if scheme or service are equal and the host matches by the same rules; one kind of name never matches another. What does match by these rules is accepted.',
     ['inputs'], 'all names and references over small label alphabets; random certificates and related references, textual addresses and mutations',
     'The tests use a few dozen names; the matching is a function of both whole strings.',
     ['pki/x509_common/src/hitls_x509_util.c', 'bsl/sal/src/sal_ip_util.c'],
     [('identity matching', 'pki/x509_common/src/hitls_x509_util.c HITLS_X509_VerifyIdentity'), ('textual addresses', 'bsl/sal/src/sal_ip_util.c'), ('alternative names', 'pki/x509_common/src/hitls_x509_ext.c')],
     ['HITLS_X509_VerifyIdentity'],
     'The matching rules and the address grammar are written out in TLA+ over byte sequences; TLC checks their general consequences on all patterns and references of up to three labels, and decides the verdict the library gives for each of these pairs and for random certificates and references.')
prop('C13', 'Random bit generators seed, reseed and refuse as the standard demands, and their output is the one of the mechanism',
     'For every generator (Hash, HMAC, CTR with and without derivation function, and the GM variants), through generator contexts, provider contexts and the global generator, with or without a nonce source, and for every history of instantiation, requests, seedings, settings, clock changes, forks, concurrent requests and failures of the entropy source: bytes come out only of a generator seeded with at least the required entropy; fresh entropy is taken before the request that exceeds the reseed interval or time, on every request with prediction resistance, and in a forked child; after a failure of the source nothing comes out until it works again; what was taken from the source is given back once; refused calls change nothing; and the bytes are exactly those the mechanism defines for the entropy, nonce, personalisation and additional input of the whole history, every byte given to one caller only.',
     ['histories', 'schedules', 'inputs'], 'all call histories with faults of the entropy source at any call; forks, threads; lengths around the block and request sizes',
     'The tests are known-answer vectors with one instantiate, reseed and generate; histories with failures, forks, limits and threads are not sampled.',
     ['crypto/drbg', 'crypto/eal/src/eal_rand.c'], [('when to seed', 'crypto/drbg/src/drbg.c'), ('mechanisms', 'crypto/drbg/src/drbg_hash.c, drbg_hmac.c, drbg_ctr.c'), ('locking and state', 'crypto/eal/src/eal_rand.c')],
     ['CRYPT_EAL_Drbg*', 'CRYPT_EAL_Rand*', 'entropy and nonce callbacks'],
     'A TLA+ model of the seed life cycle (what is asked of the source, when, and what a failure does) explored exhaustively and replayed on the library, plus random histories over all algorithms and lengths, the default limits to the request, forked children and four threads; an independent implementation of the mechanisms follows the calls and judges the bytes.')
prop('C14', 'A stateful hash-based key signs each index at most once, and its signatures are the right ones for its whole life',
     'For every XMSS and XMSS^MT parameter set and every history of signing, signing that fails at any point (buffers, memory), exporting and importing the private key with or without its traversal state, copying contexts and exhausting the key: no two signatures handed out carry the same index unless an older exported key was imported in between; an index is used up before anything depending on it is released, and a failed signature leaves no signature bytes in the buffer; after the last index nothing is signed; an exported key continues exactly where the context stood, with or without traversal state, at every index; a state that does not belong to the index, key or parameter set is refused and leaves the context as it was; a copied context or a public key cannot sign; and every signature is the one RFC 8391 defines for that index and message, verifies under the root, and does not verify when any part of it, its length or the message is changed.',
     ['histories', 'faults', 'inputs'], 'all sequences of operations on two contexts and one exported key; any failing allocation; indices at the ends of trees and of the key; whole lives of keys',
     'The tests sign a few times at index 0 with fixed vectors; the traversal state depends on every signature before, and reuse shows only in histories with failures and restored keys.',
     ['crypto/hbs'], [('index consumption', 'crypto/hbs/xmss/src/xmss_common.c XmssPrepareSignData'), ('signing and failure', 'crypto/hbs/xmss/src/xmss_core.c, xmssmt_core.c'), ('traversal state, export, import', 'crypto/hbs/xmss/src/xmss_bds.c')],
     ['CRYPT_EAL_PkeySign', 'CRYPT_EAL_PkeyVerify', 'CRYPT_EAL_PkeyGetPrvEx', 'CRYPT_EAL_PkeySetPrvEx', 'CRYPT_EAL_PkeyDupCtx'],
     'A TLA+ model of two key contexts and an exported key with an index that only moves forward, explored exhaustively and replayed on the library with allocation failures, plus random histories and whole key lives; every signature is judged by an independent RFC 8391 implementation.')
prop('C09', 'Changing keys on a live connection never loses, repeats or misdelivers data, and is never forced by anyone but the authenticated peer',
     'For every history of TLS 1.3 key updates (requested, answered, crossing, automatic at the limit of a key), reads and writes over a transport that refuses or cuts records at any point: everything written before an announced update is under the old key and everything after under the next one, in each direction on its own; a request is answered by exactly one update before the next data; no update is announced twice or lost, none is made unannounced; malformed, unrequested-type, misplaced or wrongly protected updates end the connection; data is delivered exactly once in order. In TLS 1.2, DTLS 1.2 and TLCP a renegotiation happens only where both policies allow it and only with the peer of the handshake before, proven by its verify_data in both hello messages (RFC 5746); a refused one leaves the connection as it was or ends it; data under way is delivered once in order or the connection fails, and afterwards both ends have the same new keys.',
     ['histories', 'faults', 'inputs'], 'all interleavings of updates, renegotiations, reads and writes of both ends with transport refusals; all deformations of updates and renegotiation_info',
     'The tests make one update or renegotiation at a quiet moment; what matters is what is pending, refused or under way when it happens.',
     ['tls/cm', 'tls/handshake', 'tls/record', 'tls/app'],
     [('key update', 'tls/handshake/common/src/hs_common.c, tls/handshake/recv/src/recv_keyupdate.c, tls/handshake/send/src/send_key_update.c'), ('pending writes', 'tls/app/src/app.c, tls/record/src/rec_write.c'),
      ('renegotiation', 'tls/cm/src/conn_establish.c HITLS_Renegotiate, tls/handshake/parse/src/parse_extensions_*.c renegotiation_info')],
     ['HITLS_KeyUpdate', 'HITLS_Renegotiate', 'HITLS_Read/Write', 'wire', 'alerts', 'exporter', 'key log'],
     'A TLA+ model of pending records, announced updates and key generations of two endpoints, explored exhaustively and replayed on two library ends with every record opened by an independent implementation under the keys the model demands; an independent peer sends every deformed update; a second model covers renegotiation between two ends with data under way and against an independent peer that tells right and wrong verify_data.')
prop('C15', 'Signatures: only the holder of the private key makes them, only what was signed passes, and key contexts keep what was put in',
     'For RSA (PKCS#1 v1.5 and PSS, every salt rule), DSA, ECDSA on all curves, SM2, Ed25519, ML-DSA and SLH-DSA, and every history of generating, importing, replacing, exporting and copying keys, changing settings (digest, salt, identity, context string, deterministic), signing and verifying over two contexts, with wrong keys refused and the random source failing at any point: a signature comes out only with a private key, in the room given, and is the one an independent implementation accepts for that key, message and setting; verification succeeds exactly for a signature of that key over that message under that setting in its one valid encoding — not for changed, truncated, extended, re-encoded, out-of-range or padding-forged ones; randomness is never used twice nor missing; exported keys are the ones put in or generated; a copy behaves like the original and independently of it; malformed public or private keys are refused; and a refused or failed operation leaves keys and settings usable as before (or, for a failed generation, no key).',
     ['histories', 'inputs', 'faults'], 'all call histories on two contexts of every algorithm; forged signatures and keys per algorithm; failing random source',
     'The tests are vectors with one good and a few bad signatures per algorithm on a fresh context; wrong acceptance needs a particular forged encoding or a history of settings, copies and failures.',
     ['crypto/rsa', 'crypto/ecdsa', 'crypto/ecc', 'crypto/dsa', 'crypto/sm2', 'crypto/curve25519', 'crypto/mldsa', 'crypto/hbs/slh_dsa', 'crypto/eal'],
     [('RSA paddings', 'crypto/rsa/src/rsa_padding.c, rsa_encdec.c'), ('ECDSA, SM2, DSA', 'crypto/ecdsa/src/ecdsa.c, crypto/sm2/src/sm2_sign.c, crypto/dsa/src/dsa_core.c'), ('ML-DSA', 'crypto/mldsa/src/ml_dsa_core.c'), ('contexts', 'crypto/eal/src/eal_pkey_*.c')],
     ['CRYPT_EAL_PkeySign(Data)', 'CRYPT_EAL_PkeyVerify(Data)', 'CRYPT_EAL_PkeyGen', 'CRYPT_EAL_PkeySet/GetPub/Prv', 'CRYPT_EAL_PkeyCtrl', 'CRYPT_EAL_PkeyDupCtx', 'CRYPT_EAL_PkeyCmp', 'CRYPT_EAL_PkeyPairCheck'],
     'A TLA+ model of two key contexts (keys, settings, the one signature about) explored exhaustively and replayed on the library for every algorithm; signatures are judged by an independent implementation (OpenSSL, or the FIPS 204 reference here), and forged ones are built with the private key (wrong paddings, hints, ranges, encodings).')
prop('C16', 'Key agreement, encapsulation and public-key encryption give both sides the same secret, and nobody without the key gets it',
     'For X25519, ECDH on all curves, finite-field DH, ML-KEM, the ECDHE/ML-KEM hybrids, RSA-OAEP, RSA PKCS#1 v1.5 and SM2 encryption, and every history of generating, importing, replacing, exporting and copying keys, changing settings (digest, mask digest, label), agreeing, encapsulating, encrypting and opening over two contexts, with the random source failing at any point: what is agreed or sealed is what an independent implementation computes for those keys; opening with the right key, setting and untouched ciphertext gives the secret or message back, also for ciphertexts made elsewhere up to the longest message; with another key, setting, label or any changed, cut or extended ciphertext the message does not come out (ML-KEM: the implicit-rejection secret of the standard, never the shared one); ill-formed paddings, points off the curve, values out of range, keys of small order, and public keys with coefficients out of range are refused; every ciphertext is fresh; nothing is written beyond the buffer; a copied context keeps keys and settings and is independent of its origin; what is refused or fails leaves the keys as they were and the context usable.',
     ['histories', 'inputs', 'faults'], 'all call histories on two contexts of every algorithm; deformed ciphertexts and bad keys per algorithm; failing random source',
     'The tests are vectors and round trips on fresh contexts; wrong acceptance needs a particular deformed ciphertext or key, or a history of settings, copies and failures.',
     ['crypto/rsa', 'crypto/ecdh', 'crypto/ecc', 'crypto/dh', 'crypto/sm2', 'crypto/curve25519', 'crypto/mlkem', 'crypto/hybridkem', 'crypto/eal'],
     [('OAEP and PKCS#1 v1.5', 'crypto/rsa/src/rsa_padding.c, rsa_encdec.c'), ('SM2', 'crypto/sm2/src/sm2_crypt.c'), ('ML-KEM', 'crypto/mlkem/src/ml_kem.c, ml_kem_pke.c'), ('hybrids', 'crypto/hybridkem/src/crypt_hybridkem.c'), ('agreement', 'crypto/dh/src/dh_core.c, crypto/ecdh/src/ecdh.c, crypto/curve25519/src')],
     ['CRYPT_EAL_PkeyComputeShareKey', 'CRYPT_EAL_PkeyEncaps/Decaps', 'CRYPT_EAL_PkeyEncrypt/Decrypt', 'CRYPT_EAL_PkeySet/GetPub/Prv', 'CRYPT_EAL_PkeyGen', 'CRYPT_EAL_PkeyDupCtx'],
     'A TLA+ model of two key contexts and the one ciphertext about, explored exhaustively and replayed on the library for every algorithm; secrets and messages are judged by independent implementations (OpenSSL, RFC 7748, FIPS 203 and SM2 references here), which also build deformed ciphertexts.')
