"""Titles, statements and anchors of the properties; bin/mkmanifest writes properties.jsonl and MANIFEST.json from it."""
PROPS = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), tech=None, note=None, level="model_checking", module=""):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files), state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None),
        _tech=tech or "TLA+ specification %s.tla: exhaustive TLC model check, spec-generated behaviours replayed into the real library, recorded traces validated by TLC" % module,
        _note=note or "The specification is checked exhaustively within small constants; the real code is bound to it by replaying spec-generated and seeded random histories and letting TLC decide every recorded step. Bounded by the histories driven; trusts TLC, the ctypes recorder and the reference oracles.", _level=level))

prop("P01", "A valid signature means the signed fields are untouched",
 "Signing an event with a private key makes it verify; and an event verifies only if its identifier is the hash of its current kind, time, tags, content and author and its signature is that author's over that identifier. Any later change of any signed field, of the identifier or of the signature makes it stop verifying until it is signed again. Signing with an invalid key or without randomness fails and never yields a verifying event.",
 ["inputs", "histories", "fault_sequences"], "every event, key, and every history of edits, id computations, signings and randomness failures",
 "The tests sign a handful of fixed events and flip one field; they cannot cover every order of edits and every field/bit.",
 ["src/event.c", "src/relay_protocol.c", "src/key.c"],
 [("nostr_event_verify recomputes the id before the Schnorr check", "src/event.c"), ("nostr_event_sign", "src/event.c"), ("nostr_event_validate_id / validate_sig", "src/relay_protocol.c")],
 [("event", "signed fields, id, sig", "nostr_event")], ["nostr_event_verify", "nostr_event_validate_id", "nostr_event_validate_sig"], module="EventAuth")

prop("P02", "Event ids are the SHA-256 of the one canonical serialization",
 "The canonical form of an event is exactly [0,author hex,time,kind,tags,content] with no whitespace and only the seven mandated escapes, for every content, tags and 64-bit time, and the event id is its SHA-256. The caller-buffer form yields the same bytes, or reports that the buffer is too small; it never truncates. Two events that differ in any signed field never share a canonical form.",
 ["inputs"], "every kind, time, author, tag list and content (all byte values, sizes across every internal buffer boundary)",
 "Tests use short printable contents; escapes, 64-bit times and buffer boundaries are never combined.",
 ["src/event.c", "src/relay_protocol.c"], [("serialize_for_id", "src/event.c"), ("nostr_event_serialize_canonical", "src/relay_protocol.c")], (),
 ["nostr_event_compute_id", "nostr_event_serialize_canonical"], module="Canonical")

prop("P03", "Event JSON denotes exactly the event, both ways",
 "Parsing a well-formed event object gives exactly the fields it denotes, whatever its member order, whitespace and string escapes, and printing an event gives JSON that denotes exactly its fields. Text that is not JSON, fields that are not valid hex, kinds or times that are not integers in range, and events over the configured limits are rejected and leave no event behind. No more than the stated length of the input is read.",
 ["inputs", "configurations"], "every event, every JSON rendering of it, every damaged text, every configured limit",
 "Tests parse a few hand-written objects in one formatting.",
 ["src/event.c", "src/relay_protocol.c"], [("nostr_event_from_json", "src/event.c"), ("nostr_event_to_json", "src/event.c"), ("nostr_event_parse / nostr_event_serialize", "src/relay_protocol.c")], (),
 ["nostr_event_from_json", "nostr_event_to_json", "nostr_event_parse", "nostr_event_serialize"], module="EventJson")

prop("P04", "An event's tags are exactly the sequence that was added",
 "After any history of adding tags, setting content (even to itself), computing ids and signing, an event holds exactly the tags added, in order, with exactly the given values, however many there are and however long they are. Additions beyond the configured limits are refused and change nothing. Every tag accessor answers from that sequence: first match, all matches, and the ids in e and p tags. Content is what was set last, and an operation that fails leaves it alone.",
 ["histories", "inputs", "configurations"], "every sequence of tag additions of any count and size, under any configured limits",
 "Tests add a few short tags; growth of the tag storage and its limits are never crossed in combination.",
 ["src/event.c", "src/relay_protocol.c"], [("nostr_event_add_tag and the tag arena", "src/event.c"), ("nostr_event_get_tag_value and relatives", "src/relay_protocol.c")],
 [("tags", "ordered tag list", "nostr_event.tags / tag_arena")], ["nostr_event_add_tag", "nostr_event_get_tag_value", "nostr_event_get_tag_values", "nostr_event_has_tag"], module="TagStore")

prop("P05", "A relay that follows the library's classification keeps the right events",
 "Every kind is exactly one of regular, replaceable, ephemeral and addressable, by the NIP-01 ranges. Comparing two versions of a replaceable or addressable event is a strict total order (newer wins, ties go to the smaller id), so a store that keeps the winner per author and kind (and d value) ends with the same events whatever order they arrive in.",
 ["inputs", "histories"], "every 32-bit kind and every set of events and arrival order",
 "Tests compare a few pairs; order independence is a statement about all permutations.",
 ["src/relay_protocol.c"], [("nostr_kind_is_* / nostr_kind_get_type", "src/relay_protocol.c"), ("nostr_event_compare_replaceable/_addressable", "src/relay_protocol.c"), ("nostr_event_get_d_tag", "src/relay_protocol.c")],
 [("store", "newest event per address", "harness")], ["nostr_kind_get_type", "nostr_event_compare_replaceable", "nostr_event_compare_addressable"], module="RelayStore")

prop("P06", "A subscription receives exactly the events its filters describe",
 "An event matches a filter exactly when every condition the filter states holds (ids, authors, kinds, since, until, and for each tag letter at least one equal value), and matches a list of filters when it matches one. The text search callback is asked exactly when the filter has a search and is decisive. So a relay that opens, replaces and closes subscriptions delivers each event to exactly the subscriptions it should.",
 ["inputs", "histories"], "every filter list, event, and history of REQ, CLOSE and EVENT",
 "Tests check single conditions; conjunctions over many lists and tags, and boundaries of each range, are not covered.",
 ["src/relay_filter.c"], [("nostr_filter_matches", "src/relay_filter.c"), ("nostr_filters_match", "src/relay_filter.c"), ("nostr_filter_matches_with_search", "src/relay_filter.c")],
 [("subscriptions", "id -> filters", "harness")], ["nostr_filter_matches", "nostr_filters_match"], module="Subs")

prop("P07", "Filters are exactly what their JSON or builder calls say, and clones are independent",
 "Parsing a filter gives exactly the lists, bounds, limit, search and tag conditions the JSON states, or rejects it; filters put together with the builder functions are exactly what was put in. A clone equals its source and stays intact when the source is freed, also when memory runs out part way (then there is no clone and the source is intact). Everything a filter owns is released by freeing it.",
 ["inputs", "histories", "fault_sequences"], "every filter object and every history of parse, build, clone and free, with any allocation failing",
 "Tests never fail an allocation and parse few shapes.",
 ["src/relay_filter.c"], [("nostr_filter_parse", "src/relay_filter.c"), ("nostr_filter_clone", "src/relay_filter.c"), ("nostr_filter_validate / builders / accessors", "src/relay_filter.c")],
 [("filter", "lists, bounds, tags", "nostr_filter_t")], ["nostr_filter_parse", "nostr_filter_clone", "nostr_filter_free"], module="FilterJson")

prop("P08", "A relay understands exactly the well-formed client messages",
 "An EVENT, REQ, CLOSE, AUTH or COUNT message that is well-formed is understood as exactly the event, subscription id and filters it carries; anything else is refused with nothing left behind. Only the stated number of bytes is read.",
 ["inputs", "histories"], "every byte string as a message, and every sequence of messages on a connection",
 "Tests parse one or two messages of each type.",
 ["src/relay_message.c", "src/relay_filter.c", "src/relay_protocol.c"], [("nostr_client_msg_parse", "src/relay_message.c"), ("nostr_client_msg_get_*", "src/relay_message.c")],
 [("message", "type, event, filters, subscription id", "nostr_client_msg_t")], ["nostr_client_msg_parse", "nostr_client_msg_get_type"], module="ClientMsg")

prop("P09", "Relay messages say exactly what was put into them",
 "A relay message built with any event, id, text, flag, count or challenge and written out is JSON whose elements are exactly those given (texts up to their documented size), and it is written entirely or not at all: a buffer that is too small, or a lack of memory, is an error and never a truncated or incomplete message.",
 ["inputs", "fault_sequences"], "every message type and content, every buffer size, with any allocation failing",
 "Tests print a handful of messages into large buffers.",
 ["src/relay_message.c", "src/relay_protocol.c"], [("nostr_relay_msg_* initialisers", "src/relay_message.c"), ("nostr_relay_msg_serialize", "src/relay_message.c")],
 [("message", "type and fields", "nostr_relay_msg_t")], ["nostr_relay_msg_serialize"], module="RelayMsg")

prop("P10", "Identifiers are accepted exactly when well-formed, and hex is exact both ways",
 "The validators accept a text exactly when it is 64 lowercase hex digits, a lowercase hex prefix of 1 to 64, a printable subscription id of 1 to 64, a kind:pubkey:d address, or a one-letter tag name. Decoding hex gives exactly the bytes the digits denote, or an error and no other output; encoding and decoding are inverse, and neither reads or writes beyond the stated sizes.",
 ["inputs"], "every text and length, every byte string",
 "Tests use a few examples of each.",
 ["src/relay_protocol.c", "src/utils.c"], [("nostr_validate_hex64 and relatives", "src/relay_protocol.c"), ("nostr_hex_to_bytes / nostr_bytes_to_hex", "src/relay_protocol.c")],
 (), ["nostr_validate_hex64", "nostr_validate_hex_prefix", "nostr_validate_subscription_id", "nostr_validate_address", "nostr_hex_to_bytes", "nostr_bytes_to_hex"], module="Codecs")

prop("P11", "A deletion request reaches exactly its author's own events that it names",
 "Parsing a kind-5 event gives exactly the valid ids and addresses it names and its reason. It authorises the deletion of an event exactly when the event has the same author and is named by id, or is addressable and named by address (whatever its time: comparing times is left to the relay); nobody can delete anybody else's event.",
 ["inputs", "histories"], "every request and stored event, and every history of events and deletions on a relay",
 "Tests cover one request against a matching and a foreign event.",
 ["src/relay_protocol.c"], [("nostr_deletion_parse", "src/relay_protocol.c"), ("nostr_deletion_authorized / _address", "src/relay_protocol.c")],
 [("stored events", "events a relay holds", "harness")], ["nostr_deletion_parse", "nostr_deletion_authorized", "nostr_deletion_authorized_address"], module="Deletion")

prop("P12", "Events are accepted and expire at exactly the right moments",
 "An event's expiration is the number its expiration tag states, and it is expired exactly from the moment after (or at) which the clock passes it; a time is acceptable exactly while it is no further ahead of the clock than allowed, for every 64-bit time and limit. Full validation accepts an event exactly when id, signature, time and expiration are all in order, and otherwise names a part that is not.",
 ["inputs", "histories"], "every time, limit, expiration tag and clock movement",
 "Tests use the real clock and comfortable margins.",
 ["src/relay_protocol.c"], [("nostr_event_get_expiration / is_expired", "src/relay_protocol.c"), ("nostr_validate_timestamp", "src/relay_protocol.c"), ("nostr_event_validate_full", "src/relay_protocol.c")],
 [("clock", "current time", "time()")], ["nostr_event_is_expired", "nostr_validate_timestamp", "nostr_event_validate_full"], module="Freshness")

prop("P13", "Reply threads read back as they were written",
 "The root and reply ids (and relay hints) of an event are those its e tags name: marked tags decide, otherwise position does. Answering an event writes exactly the root, reply and mention tags asked for, so that reading them back gives the same ids; the event is a reply exactly when it names one. Nothing is written beyond the caller's buffers.",
 ["inputs", "histories"], "every sequence of tags and answers, every buffer size",
 "Tests read a few hand-made events with large buffers.",
 ["src/nip10.c"], [("nostr_event_get_root_id / get_reply_id", "src/nip10.c"), ("nostr_event_add_reply_tags / add_mention_tag", "src/nip10.c"), ("nostr_event_is_reply", "src/nip10.c")],
 (), ["nostr_event_get_root_id", "nostr_event_get_reply_id", "nostr_event_is_reply"], module="Threads")

prop("P14", "Proof of work is counted, checked and mined exactly",
 "The difficulty of an id is its number of leading zero bits. An event satisfies a required difficulty exactly when it has a nonce tag and its id has that difficulty and also the one the nonce tag commits to. Setting the nonce replaces the value and the commitment, and leaves none where no target is given. Mining, with any number of threads and under any schedule, ends in success only with an id of the event as it then is that has the difficulty, with the rest of the event unchanged; otherwise it reports failure within its limits and leaves no trace but the nonce tag.",
 ["inputs", "schedules", "fault_sequences"], "every id, difficulty, nonce tag, thread schedule, time limit and failing allocation",
 "Tests mine small difficulties once, on one schedule.",
 ["src/nip13.c"], [("nostr_nip13_calculate_difficulty / verify_pow", "src/nip13.c"), ("nostr_nip13_mine_event / _threaded", "src/nip13.c")],
 [("shared mining state", "found flag, winning nonce, lock", "src/nip13.c")], ["nostr_nip13_mine_event", "nostr_nip13_mine_event_threaded", "nostr_nip13_verify_pow"], module="Work, Mining")

prop("P15", "A delegation lets an author act for the delegator within its conditions and no further",
 "A delegation verifies only for the delegatee, delegator and condition text it was made for. An event is covered by its delegation tag exactly when the token is genuine for its author and all stated conditions (a conjunction of kind=, created_at< and created_at>) hold for its kind and time; conditions that are not well-formed cover nothing. Reading a delegation from an event gives exactly what was put in.",
 ["inputs", "histories"], "every condition text, kind, 64-bit time, and every pair of keys, token and tag",
 "Tests use one delegation with a matching and a failing event.",
 ["src/nip26.c"], [("nostr_delegation_create / verify", "src/nip26.c"), ("nostr_delegation_check_conditions", "src/nip26.c"), ("nostr_event_add/get/verify_delegation", "src/nip26.c")],
 [("issued tokens", "what each delegator has signed", "harness")], ["nostr_delegation_verify", "nostr_delegation_check_conditions", "nostr_event_verify_delegation"], module="Delegation")

prop("P16", "A relay list survives publication unchanged",
 "A relay list holds each valid relay URL at most once with its read and write flags, in order; published as an event and read back it is the same list, and the read and write views list exactly the relays with that flag. Reading any event of the kind yields exactly the valid entries among its tags; failures leave the list as it was.",
 ["inputs", "histories", "fault_sequences"], "every history of additions, publication and reading of arbitrary events, with any allocation failing",
 "Tests publish one short list.",
 ["src/nip65.c"], [("nostr_relay_list_add", "src/nip65.c"), ("nostr_relay_list_to_event / from_event", "src/nip65.c"), ("nostr_relay_list_get_read_relays / write", "src/nip65.c")],
 [("list", "relays with flags", "nostr_relay_list")], ["nostr_relay_list_to_event", "nostr_relay_list_from_event", "nostr_relay_list_get"], module="RelayList")

prop("P17", "User lists survive publication unchanged, and private items stay private",
 "A list holds exactly the items added and not removed, in order, with its metadata; published and read back by its owner it is the same list. Private items never appear in the public tags: without the key or the means to encrypt, a list with private items is refused, and a reader without the key sees exactly the public items. A failed change leaves the list as it was.",
 ["inputs", "histories", "fault_sequences"], "every history of additions, removals, metadata changes and publications, any text, with any allocation failing",
 "Tests round-trip a few public items.",
 ["src/nip51.c"], [("nostr_list_add_* / remove / set_*", "src/nip51.c"), ("nostr_list_to_event / from_event", "src/nip51.c")],
 [("list", "items and metadata", "nostr_list")], ["nostr_list_to_event", "nostr_list_from_event", "nostr_list_get"], module="Lists")

prop("P18", "An internet identifier is verified exactly when its domain says so",
 "An identifier verifies for a key exactly when the document its own domain serves for its name maps exactly that name to that key; members elsewhere in the document, or text inside strings, never count. The URL asked is the one the identifier determines, the relays returned are the valid ones the document lists for that key, and only the stated length of the response is read.",
 ["inputs", "histories"], "every identifier, every served document and its changes over time, every fetch failure",
 "Tests use a handful of small documents with the members in the expected order.",
 ["src/nip05.c"], [("nostr_nip05_parse / build_url", "src/nip05.c"), ("nostr_nip05_parse_response", "src/nip05.c"), ("nostr_nip05_verify", "src/nip05.c")],
 [("served document", "what the domain serves", "HTTP callback")], ["nostr_nip05_verify", "nostr_nip05_parse_response", "nostr_nip05_parse"], module="Nip05")

prop("P19", "A zap counts only for the request, amount and server it is for",
 "A zap request carries exactly the relays, amount, recipient and lnurl given. A receipt verifies only if it is a correctly signed receipt of the given server, embeds the given request (by id), and its invoice is for exactly the amount the request asks for, whatever the invoice's unit and size. Reading a receipt yields the invoice, preimage, amount and request its first tags hold, or an error that leaves nothing behind.",
 ["inputs", "fault_sequences"], "every request, receipt, invoice text and signer, with any allocation failing",
 "Tests use one invoice and one request.",
 ["src/zap.c"], [("nostr_zap_create_request", "src/zap.c"), ("nostr_zap_parse_receipt", "src/zap.c"), ("nostr_zap_verify", "src/zap.c"), ("nostr_zap_validate_lnurl", "src/zap.c")],
 [("paid requests", "requests with a verified receipt", "harness")], ["nostr_zap_verify", "nostr_zap_parse_receipt", "nostr_zap_create_request"], module="Zap")

prop("P21", "A key pair is usable only when it is a valid pair, and its keys are kept safe",
 "A key pair holds a valid secret key with the public key the curve assigns to it, or it is not usable: importing or generating fails otherwise and leaves nothing usable behind. Hex import accepts exactly 64 hex digits and export gives back the same key, never writing beyond the buffer. Generated keys are fresh and valid; without randomness generation fails. Destroying a pair wipes its secret.",
 ["inputs", "histories", "fault_sequences"], "every key, text, buffer size and history of operations on key pairs, and every failure of the random source",
 "Tests import and export a few valid keys.",
 ["src/key.c", "src/utils.c"], [("nostr_keypair_generate / from_private_key / from_private_hex", "src/key.c"), ("nostr_keypair_validate / destroy", "src/key.c"), ("nostr_random_bytes", "src/utils.c")],
 [("key pair", "secret, public key, usable", "nostr_keypair")], ["nostr_keypair_generate", "nostr_keypair_from_private_key", "nostr_keypair_validate", "nostr_keypair_export_private_hex"], module="Keys")

prop("P22", "A shared secret is shared by exactly two parties",
 "The ECDH secret two parties compute from their own secret and the other's public key is the same, equals the x coordinate the curve assigns, and is defined exactly for valid keys; any invalid secret or public key is refused without output.",
 ["inputs"], "every pair of secret and public keys, valid or not",
 "Tests compute one secret from one side.",
 ["src/key.c"], [("nostr_key_ecdh", "src/key.c")],
 (), ["nostr_key_ecdh"], module="Ecdh")

prop("P23", "A shareable identifier reads back as exactly what was shared, and damage is noticed",
 "Writing a key, id, profile, event, address or relay as bech32 text or nostr: URI and reading it back yields the same value (all readable relay hints, author, kind), for every value. A text is read exactly when its checksum, prefix, padding and parts are in order, and then as what it says, otherwise nothing is returned or left allocated; unknown parts are ignored. Buffers are never overrun, and disposing of a URI wipes it.",
 ["inputs", "fault_sequences"], "every value, text, damage to a text, buffer size and failing allocation",
 "Tests round-trip a few values and known texts.",
 ["src/bech32.c", "src/nip21.c"], [("nostr_key_to/from_bech32, nostr_privkey_*, nostr_event_id_*", "src/bech32.c"), ("parse_tlv / build_tlv", "src/nip21.c"), ("nostr_uri_parse / encode / free", "src/nip21.c")],
 [("issued texts", "what was written so far", "harness")], ["nostr_uri_parse", "nostr_uri_encode", "nostr_nprofile_decode", "nostr_key_from_bech32"], module="Entities")

prop("P24", "A secret key sealed with a password opens only with that password, and only unaltered",
 "Sealing a key under a password gives a well-formed text from which that password, by the published format, recovers exactly that key; texts sealed by others open likewise. With any other password, or any field altered, it does not open and nothing of the key is handed out. Each sealing uses fresh salt and nonce, or fails. Validation accepts exactly the well-formed texts.",
 ["inputs", "histories", "fault_sequences"], "every key, password, work factor, text, alteration of a text and failure of the random source",
 "Tests seal and open one key and try one wrong password.",
 ["src/nip49.c"], [("nostr_ncryptsec_encrypt", "src/nip49.c"), ("nostr_ncryptsec_decrypt", "src/nip49.c"), ("nostr_ncryptsec_validate", "src/nip49.c")],
 [("sealed texts", "what was sealed, salts and nonces used", "harness")], ["nostr_ncryptsec_encrypt", "nostr_ncryptsec_decrypt", "nostr_ncryptsec_validate"], module="Vault")

prop("P25", "A recovery phrase always leads back to the same keys, the ones the standards assign",
 "A phrase is accepted exactly when it has 12 or 24 words of the list and its checksum is right; it then yields the seed, master key and, for every account, the key that BIP-39, BIP-32 and NIP-06 assign. A derivation path consists of child numbers below 2^31, each optionally hardened, and means the composition of those steps; any other text is refused. Generated phrases are valid, encode the randomness used and fit the buffer; without randomness there is none.",
 ["inputs", "histories", "fault_sequences"], "every seed, key, path text, phrase, passphrase, account and buffer size, with or without prior initialisation",
 "Tests check a few published vectors.",
 ["src/hd_key.c"], [("nostr_hd_key_from_seed / derive / derive_path", "src/hd_key.c"), ("nostr_mnemonic_generate / validate / to_seed", "src/hd_key.c"), ("nostr_mnemonic_to_keypair", "src/hd_key.c")],
 [("tree", "derivation steps observed", "harness")], ["nostr_hd_key_derive_path", "nostr_mnemonic_validate", "nostr_mnemonic_to_keypair", "nostr_mnemonic_generate"], module="Wallet")

prop("P26", "A relay connection delivers each message once, to the right callback, and never outlives its owner",
 "A program's relay connection is always in the state it reports: connected only while a live connection exists, and reported closed as soon as the relay closes it or the connection fails; reconnecting is announced only when it is really attempted, and not sooner than five seconds after the last attempt. While connected, each subscription request, cancellation and event the program sends goes out as exactly one well-formed message, and nothing goes out for a call that fails. Each event the relay sends for a subscription reaches exactly the callback last given for that id, once, in order, and none reaches a cancelled, closed or failed one; every other message reaches the message callback, however the network splits the messages, and garbage or an incomplete or oversized message never affects later ones. Disconnecting or destroying, in any state and also from within a callback, ends all deliveries and releases the connection; nothing is used after that. The address, port, path and encryption are those of the relay URL.",
 ["histories", "schedules", "inputs", "fault_sequences"], "every sequence of calls (also made from callbacks), of messages and fragmentations, of remote closes and failures, and every overlap of calls with deliveries",
 "The tests never connect: there is no network, and no test reaches a callback, a fragment or a closed connection.",
 ["src/relay.c"], [("nostr_relay_connect / disconnect / destroy", "src/relay.c"), ("callback_nostr_relay", "src/relay.c"), ("nostr_subscribe / nostr_relay_unsubscribe / nostr_relay_send_event", "src/relay.c"), ("service_thread_func", "src/relay.c")],
 [("connection", "state, service thread, live socket", "nostr_relay / relay_context"), ("subscriptions", "id -> callback", "relay_context.subscriptions"), ("receive buffer", "the message being received", "relay_context.receive_buffer")],
 ["nostr_relay_connect", "nostr_subscribe", "nostr_relay_unsubscribe", "nostr_relay_disconnect", "nostr_relay_destroy", "state, event and message callbacks"], module="RelayClient")

prop("P20", "The configuration in force is always the last valid one given, whole, and everyone sees it",
 "Once a configuration is installed there always is one and it is valid: installing takes the first valid one offered, or the defaults overridden by those environment settings that are numbers, and later installs change nothing; an update replaces it as a whole or, when invalid, not at all. A configuration is valid exactly when every field is within its documented range. The change callback hears exactly the successful updates, each with the configuration it replaced and the new one, and may itself read, update or replace the callback. Threads updating and reading at once see only whole configurations, in one order that respects what finished before what began, and what a thread was handed stays as it was until it asks again. Events and tags are held to the limits in force.",
 ["histories", "schedules", "inputs", "configurations"], "every history of installs, updates, callback changes and environment settings, every field value, and every overlap of updates, reads and installs",
 "Tests change a few fields in one order in one thread; the boundaries of all 13 fields, odd environment texts, calls from the callback and overlaps are not covered.",
 ["src/config.c", "src/event.c"], [("nostr_init_with_config", "src/config.c"), ("nostr_config_update / set_callback / get_current", "src/config.c"), ("nostr_config_load_env / validate", "src/config.c"), ("limits in nostr_event_add_tag / nostr_event_from_json", "src/event.c")],
 [("configuration", "installed?, current, change callback", "g_config, g_config_initialized, g_config_callback")],
 ["nostr_config_get_current", "nostr_config_update", "nostr_config_validate", "nostr_config_load_env"], module="Config")

prop("P28", "A gift wrap shows nothing but its reader, and opens only as what its author wrote",
 "For every letter (any kind, date, tags and text), author and reader: sending it as a direct message (NIP-17) or in a gift wrap (NIP-59, whole or in stages) gives a valid wrap of kind 1059 under a key used once, whose only tag is the reader and whose date, like that of the untagged seal of kind 13 signed by the author inside, is random within the last two days; its reader, and nobody else, opens it to exactly the letter, with an id that covers it, and its author. A reader opens nothing else: a wrap or seal of another kind, altered, made for another, or with a seal that its author did not sign, is refused, and so is an unsigned letter in the name of anybody but the one who sealed it. Without memory, randomness or valid keys nothing is sent and nothing lost.",
 ["inputs", "histories", "fault_sequences"], "every letter, pair of keys, forged or repacked wrap, order of calls including the first after a restart, failing allocation or random source",
 "The tests wrap and unwrap three short letters with one library on both sides; forged seals, leaked dates and keys used twice look fine to them.",
 ["src/nip17.c", "src/nip59.c", "src/nip44.c", "src/event.c"],
 [("nostr_nip17_send_dm / create_seal / create_gift_wrap / unwrap_dm", "src/nip17.c"), ("nostr_nip59_wrap_event / unwrap_event / create_*", "src/nip59.c")],
 [("used", "keys of the wraps made so far", "nostr_key_generate"), ("wire", "wraps that were sent, forged or repacked", "nostr_event"), ("ages", "dates of seals and wraps", "randomize_timestamp")],
 ["nostr_nip17_send_dm", "nostr_nip17_unwrap_dm", "nostr_nip59_wrap_event", "nostr_nip59_unwrap_event", "nostr_nip59_create_seal", "nostr_nip59_create_gift_wrap"], module="GiftWrap")
prop("P29", "Reposts, quotes and reactions point at exactly the event they are about",
 "A created repost or reaction has the kind, content and tags NIP-18 and NIP-25 give it for exactly the event, author, relay, kind and content asked for, and parses back to them; ids that are not 64 hex digits, or a lack of memory, produce no event. Parsing any event reports its last e and p references, the relay given beside that same reference and the last kind number, each cut to the caller's buffer and never beyond it, and nothing that is not a kind is reported as one. A reaction is a like exactly when it is empty or plus, a dislike exactly when it is minus. Every note, event and address mentioned in an event's content gains its quote tag, in order, with the relay and author the mention states; nothing else does, and existing tags stay.",
 ["inputs", "histories", "fault_sequences"], "every id, key, relay, kind, content, tag list, mention and buffer size, with any allocation failing",
 "Tests create and parse a few well-formed reposts and reactions; odd tag lists, several references, large entities and small buffers are not covered.",
 ["src/nip18.c", "src/nip25.c"], [("nostr_repost_create / parse", "src/nip18.c"), ("nostr_quote_tags_from_content", "src/nip18.c"), ("nostr_reaction_create / parse / is_like / is_dislike", "src/nip25.c")],
 [("event", "kind, content, tags", "nostr_event")], ["nostr_repost_parse", "nostr_reaction_parse", "nostr_quote_tags_from_content"], module="Repost")

prop("P30", "A relay's information document states exactly its information",
 "The NIP-11 document printed for a relay is one well-formed JSON object that states every text, supported NIP, limit, flag, retention rule, list and fee of its information structure exactly, 64-bit numbers included, and nothing else; what is unset is left out, and the defaults are the documented ones. Printing fills the caller's buffer with the whole document or reports that it is too small, together with the length needed; it never truncates or writes beyond it. Setting and adding NIPs copies them and changes nothing else, also when memory runs out.",
 ["inputs", "histories", "fault_sequences"], "every information structure and history of changes to it, every buffer size",
 "Tests look for a few substrings of a few documents.",
 ["src/relay_nip11.c"], [("nostr_relay_info_serialize / nostr_relay_limitation_serialize", "src/relay_nip11.c"), ("nostr_relay_info_set_nips / add_nip / free", "src/relay_nip11.c")],
 [("information", "texts, limits, lists, fees", "nostr_relay_info_t")], ["nostr_relay_info_serialize", "nostr_relay_limitation_serialize"], module="RelayInfo")

prop("P27", "A wallet session spends within its budgets, only while it lives, only under its own id",
 "For every history of creating, using, extending and destroying NIP-47 sessions, of any number of threads: a session id is fresh and names one session, with the connection its URI gave, from its creation until it is destroyed or its last second (timeout, plus extensions) has passed, and nothing afterwards or for any other string; a request is allowed if and only if the first permission that names its method, or is for all, has room for the whole amount (any 64-bit amount, sums taken exactly) in its budget, which starts again with the first check after its interval ran out; what is refused costs nothing; concurrent requests never get more together than one after another could. The table holds at most the configured number of sessions and permissions and at most ten sessions start in one second; without memory or randomness nothing is created and nothing lost.",
 ["histories", "schedules", "fault_sequences", "inputs"], "every history of the session calls by any number of threads, amount, clock, configured limits, failing allocation or random source",
 "The tests create one session and ask for one small amount; budgets are lost at sums that wrap, at the second a window ends, after a refused attempt, or when two requests overlap.",
 ["src/nip47_session.c", "src/nip47.c", "src/config.c"],
 [("nostr_nip47_session_check_permission", "src/nip47_session.c"), ("nostr_nip47_session_create, cleanup_expired_sessions, find_session", "src/nip47_session.c"), ("nostr_nip47_session_destroy / extend / get_connection", "src/nip47_session.c")],
 [("sessions", "sessions by id with connection, last second and permissions", "sessions[]"), ("permissions", "name, limit, interval, end of the budget, amount used", "permission_t"), ("rate", "sessions created in the current second", "rate_limit_count")],
 ["nostr_nip47_session_create", "nostr_nip47_session_add_permission", "nostr_nip47_session_check_permission", "nostr_nip47_session_get_connection", "nostr_nip47_session_extend", "nostr_nip47_session_destroy"], module="Sessions")
prop("P33", "When memory runs out nothing changes, and whatever was handed out gives everything back",
 "Every block of memory the library takes belongs to an object it handed out, and disposing of that object with the documented function gives back exactly what it owns; a call that only answers keeps nothing. A call that reports an error, because of its input or because memory ran out at any allocation, hands out no object, keeps no memory, and leaves the objects it was given with the values they had and fit for use (of several tags to append, the first ones may be there); repeated with enough memory it does what it would have done. A call that reports success has done all of it.",
 ["histories", "fault_sequences", "inputs"], "every history of creating, changing, querying and disposing of events, lists, relay lists, filters, messages, delegations, deletions, entities, receipts and texts, with any allocation failing, once or from there on",
 "Tests never run out of memory, and no test counts what is left when everything is disposed of.",
 ["src/event.c", "src/nip51.c", "src/nip65.c", "src/relay_filter.c", "src/relay_protocol.c", "src/nip26.c", "src/nip21.c", "src/zap.c", "src/relay_nip11.c", "src/nip18.c"],
 [("nostr_event_add_tag / destroy (tag arena)", "src/event.c"), ("nostr_list_free / nostr_list_from_event", "src/nip51.c"), ("nostr_filter_free / nostr_filter_clone / parse", "src/relay_filter.c"), ("nostr_client_msg_free / nostr_deletion_free", "src/relay_protocol.c"), ("nostr_uri_free and TLV decoding", "src/nip21.c"), ("nostr_zap_parse_receipt", "src/zap.c")],
 [("heap", "blocks held by the library, by owner", "harness allocator")], ["every public function that allocates, and the disposal functions"], module="Heap")

prop("P31", "Sealed messages open for the two parties only, whole, and never reuse a nonce",
 "A message sealed with NIP-44 or NIP-04 is, for every plaintext, exactly what the NIP says it is, so that the other party (with this library or any other) opens it to the same bytes, whichever of the two does it. A NIP-44 text opens only if its version is known, it is whole and authenticated for that pair of keys and its padding is the one NIP-44 prescribes for its length; any change of it, a foreign key or an unknown version is refused and no plaintext is handed out. Every sealing uses a fresh nonce; without randomness, memory, a valid key, or with a plaintext outside the configured size limits, sealing fails.",
 ["inputs", "histories", "fault_sequences"], "every pair of keys, plaintext of 0 to 65536 bytes, alteration of the text, configured limits, failing allocation or random source",
 "The tests round-trip a few short messages with the library on both sides, so a wrong padding or format passes them.",
 ["src/nip44.c", "src/key.c", "src/config.c"],
 [("nostr_nip44_encrypt / nostr_nip44_decrypt", "src/nip44.c"), ("calc_padded_len, pad_plaintext, unpad_plaintext", "src/nip44.c"), ("nostr_nip04_encrypt / nostr_nip04_decrypt", "src/nip44.c")],
 [("nonces", "nonces used so far", "RAND_bytes"), ("limits", "plaintext size limits in force", "nostr_config")], ["nostr_nip44_encrypt", "nostr_nip44_decrypt", "nostr_nip04_encrypt", "nostr_nip04_decrypt"], module="Seal")

prop("P32", "Remote-signing and wallet messages say what was said, to whom it was said, or nothing",
 "A NIP-47 request made over a connection is signed by the connection's secret, addressed and readable to its wallet service only, and carries exactly the method and parameters given, of any length NIP-44 can carry; the parameter builders state exactly what they are given, every 64-bit amount included; a NIP-46 response carries the id and the result or error as the strings they are. What is read from a request, response, notification, information event or result is exactly what its author wrote, and only if it opens as the words of the event's author to the reader; a connection string is accepted exactly if it names a service, a relay and a secret in hexadecimal digits. What is malformed, too long or cannot be completed is refused, and a refused call hands out nothing and keeps no memory.",
 ["inputs", "histories", "fault_sequences"], "every connection string, request, response, notification, parameter and result, failing allocation or random source",
 "The tests parse one connection string and one information event; nothing tests what a wallet would read.",
 ["src/nip46.c", "src/nip47.c", "src/nip47_commands.c"],
 [("nostr_nip47_create_request_event", "src/nip47.c"), ("nostr_nip47_parse_response_event / parse_notification_event / parse_info_event", "src/nip47.c"), ("nostr_nip47_create_*_params, parse_*_response", "src/nip47_commands.c"), ("nostr_nip46_parse_request / create_response", "src/nip46.c")],
 [("connections", "secret, service and relays of the connections opened", "struct nwc_connection")], ["nostr_nip46_parse_request", "nostr_nip46_create_response", "nostr_nip47_parse_connection_uri", "nostr_nip47_create_request_event", "nostr_nip47_parse_response_event"], module="Requests")

prop("P34", "The library says truthfully what it can do and why it refused",
 "A NIP or feature is reported as available exactly when this build contains it and its functions do their work, for every number asked; the list of features names exactly those, each once, and everyone is given the whole list, also when several threads ask for the first time at once. Every error code has a text of its own, always the same, and other numbers are never given the text of an error. A validation returns the error its result holds, and a refusal gives a reason and names the part that is at fault; the reason is written out whole, or no length is reported and nothing is written beyond the buffer.",
 ["inputs", "configurations", "schedules"], "every number asked, build configuration, error code, validation result and buffer size, and every overlap of the first callers",
 "Tests look at five error texts and print the feature list from one thread; they never fill a result to its limits or use a tight buffer.",
 ["src/features.c", "src/key.c", "src/relay_protocol.c", "src/relay_filter.c"], [("nostr_feature_nip_supported / list_enabled", "src/features.c"), ("nostr_error_string", "src/key.c"), ("nostr_relay_error_string / nostr_validation_error_format", "src/relay_protocol.c"), ("nostr_event_validate_full / nostr_filter_validate results", "src/relay_protocol.c")],
 [("what was said", "list, version, text of each code", "harness")],
 ["nostr_feature_nip_supported", "nostr_feature_list_enabled", "nostr_error_string", "nostr_relay_error_string", "nostr_validation_error_format", "nostr_event_validate_full"], module="Reports",
 tech="TLA+ specification Reports.tla: exhaustive TLC model check (two first callers of a shared text); traces recorded from the real library in three build configurations and with racing first callers validated by TLC")
