#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (committed) from the texts below and plan.py."""
import json, os
from plan import PLAN

HERE = os.path.dirname(os.path.abspath(__file__))
FZ = "imap-codec/src/fragmentizer.rs"
DEC = "imap-codec/src/codec/decode.rs"
ENC = "imap-codec/src/codec/encode.rs"

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, level_note, technique, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook, **({"state": state} if state else {})},
        "_note": level_note, "_tech": technique,
    })


def prop_na(id, title, statement, over, qtext, why, files, mech, observe, reason):
    prop(id, title, statement, over, qtext, why, files, mech, observe, "", "")
    P[-1]["_na"] = reason


prop("C01", "Message framing does not depend on how the bytes arrive",
     "Splitting a byte stream into lines, literals and messages yields the same fragments (kinds, positions, contents, literal announcements, line endings) and the same message boundaries whatever way the bytes are cut, delayed, batched or interleaved with queries. Every fragment that is complete in the delivered bytes is reported, none is reported earlier or invented, and asking again without new bytes changes nothing.",
     ["schedules", "inputs", "fault_sequences"], "all byte streams, all segmentations and arrival times, all receiver schedules, end of stream at any byte",
     "The tests feed a few dozen fixed streams in one or two fixed segmentations; cuts inside CRLF or inside an announcement, batching of several messages, and hostile announcements are a product space no list of examples covers.",
     [FZ], [("Fragmentizer::progress / enqueue_bytes", FZ), ("LineParser::parse (state kept across calls)", FZ), ("LiteralParser::parse", FZ)],
     ["results of Fragmentizer::progress, fragment_bytes, message_bytes, is_message_complete"],
     "Seeded search over streams, segmentations and receiver schedules against an independent whole-stream lexer; a clean batch is evidence, not proof.",
     "deterministic simulation: seeded stream/segmentation/stall schedules, reference lexer as oracle",
     [{"name": "parser state", "meaning": "what of the current fragment has been seen", "where": FZ}])

prop("C02", "The message size limit bounds memory, and only that",
     "With a maximum message size configured, the kept bytes of a message never exceed it at any instant, are always a prefix of the true message, and memory use stays bounded however much a peer announces or sends. A message is flagged and refused as too long exactly if it is longer than the limit. The following messages are framed and decoded as if the oversized one had been short.",
     ["schedules", "inputs", "fault_sequences"], "all limits (including 0 and exact lengths), all streams and segmentations, floods of announced or unannounced bytes",
     "The tests use a handful of limits and streams; off-by-one at a cut that coincides with the limit, or a flood in the middle of a literal, needs a particular combination of limit, fragment boundary and delivery.",
     [FZ], [("Fragmentizer::dequeue_parsed_bytes", FZ), ("Fragmentizer::decode_message (too long)", FZ)],
     ["message_bytes, is_max_message_size_exceeded, decode_message; heap growth seen by a counting allocator"],
     "Seeded search with limits placed around fragment boundaries; heap growth measured by a counting allocator during simulated floods.",
     "deterministic simulation: limit-targeted streams and floods, reference lexer and counting allocator as oracles")

prop("C03", "Poisoning and skipping act on exactly one message, at any instant",
     "Poisoning a message at any instant makes decoding of that message fail and leaves framing and all other messages untouched. Skipping a message at any instant starts the next message right behind the bytes processed so far, with no byte, flag or tag of the skipped message left over.",
     ["schedules", "inputs", "histories"], "all streams, segmentations, and positions and sequences of poison and skip calls (mid-line, at an announcement, mid-literal, on a complete message, between messages)",
     "The tests call each operation once or twice at one position of one stream; the effect depends on parser state at the call and on what arrives later.",
     [FZ], [("Fragmentizer::poison_message", FZ), ("Fragmentizer::skip_message", FZ), ("reset at the start of the next message in progress", FZ)],
     ["decode_message, is_message_poisoned, progress after the call"],
     "Seeded search over positions and sequences of poison/skip calls inside delivery schedules, against a reference model of the receiver.",
     "deterministic simulation: poison/skip injected at arbitrary instants of a delivery schedule, reference receiver model")

prop("C04", "A malformed message harms neither its neighbours nor the connection",
     "In a stream that mixes well-formed, damaged and garbage messages, the verdict on each message is the one its own bytes deserve, independent of everything received before it, and every well-formed message is received as it was sent. For every message, complete or not, damaged or not, the tag is recovered exactly if its first bytes spell one.",
     ["inputs", "histories", "fault_sequences"], "all mixtures of good and bad messages, all kinds of damage on the link, all delivery schedules",
     "Tests decode single messages in isolation, or two or three fixed ones; leftovers of an earlier bad message show only in histories.",
     [FZ, DEC, "imap-types/src/core.rs"], [("Fragmentizer::decode_message", FZ), ("parse_tag", FZ), ("reset between messages", FZ)],
     ["decode_message and decode_tag at every fragment"],
     "Seeded search over damaged streams; each verdict is compared with the decoder on the isolated bytes and with the value sent.",
     "deterministic simulation: link corruption and garbage between generated messages, isolation oracle and recorded sends")

prop("C05", "Decoding byte by byte: incomplete, literal, or exactly that message",
     "A receiver that collects bytes and asks the decoder after each arrival gets, for every strict prefix of a message in the encoder's spelling, 'incomplete', or, exactly when the bytes end behind a literal announcement, 'literal found' with the right length, mode and tag; never a message and never a failure. As soon as the last byte is there it gets the message that was sent, and the remainder is exactly what follows. Borrowing and owning decoders agree.",
     ["inputs", "schedules", "fault_sequences"], "all commands, responses, greetings, authentication lines and IDLE DONE, every prefix, all pipelined followers, all segmentations, end of stream at any byte",
     "The tests decode prefixes of a handful of messages; a parser that commits or fails too early does so for one construct, cut at one byte.",
     [DEC, "imap-codec/src/response.rs", "imap-codec/src/command.rs", "imap-codec/src/core.rs"], [("Decoder::decode, decode_static", DEC), ("streaming combinators of nom throughout the parsers", "imap-codec/src/core.rs"), ("literal announcements", "imap-codec/src/core.rs")],
     ["result of Decoder::decode / decode_static after each delivery"],
     "Seeded search over generated messages of every kind and over cuts; the generators cover every type of the crate in four feature configurations.",
     "deterministic simulation: seeded segmentation and end of stream, recorded sends and reference lexer as oracle")

prop("C06", "The server receives the commands that the client sent, in order",
     "In a session between a client and a server built on the codec, the server application receives exactly the commands, authentication lines and IDLE DONEs the client application sent: equal in every field, in order, none lost, doubled or invented, whatever the values, the literal modes, the pipelining, the segmentation, the stalls and the connection resets. Every command is answered within a bounded number of steps once faults stop; there is no deadlock.",
     ["inputs", "schedules", "fault_sequences", "histories"], "all command values constructible through the public API, all sessions over resettable byte-stream links",
     "The tests round-trip single fixed commands; a field that is lost or a spelling that is misread shows for particular values only, and a session that gets out of step for particular histories only.",
     ["imap-codec/src/command.rs", ENC, DEC, FZ, "imap-codec/src/extensions/*.rs"], [("EncodeIntoContext for Command, CommandBody", ENC), ("command and its sub-parsers", "imap-codec/src/command.rs"), ("AuthenticateDataCodec, IdleDoneCodec", DEC)],
     ["values handed over at the application boundary of the server"],
     "Seeded search over sessions with generated commands of every kind.",
     "deterministic simulation: client and server on the real codec over faulty links, recorded sends as the reference history")

prop("C07", "The client receives the responses that the server sent, in order",
     "In a session between a client and a server built on the codec, the client application receives exactly the greetings, data, status responses and continuation requests the server application sent: equal in every field, in order, none lost, doubled or invented, whatever the values, the segmentation, the stalls and the connection resets.",
     ["inputs", "schedules", "fault_sequences", "histories"], "all response values constructible through the public API (without the recorded findings), all sessions over resettable byte-stream links",
     "The tests round-trip single fixed responses; body structures, codes, capabilities, envelopes and flags span a space of values that no list covers.",
     ["imap-codec/src/response.rs", "imap-codec/src/fetch.rs", "imap-codec/src/body.rs", ENC, DEC, FZ, "imap-codec/src/extensions/*.rs"], [("EncodeIntoContext for Response, Data, Status, BodyStructure", ENC), ("response and its sub-parsers", "imap-codec/src/response.rs")],
     ["values handed over at the application boundary of the client"],
     "Seeded search over sessions with generated responses of every kind.",
     "deterministic simulation: client and server on the real codec over faulty links, recorded sends as the reference history")

prop("C08", "Literal handshakes stay in step, accepted or refused",
     "The encoder hands out a command as lines and literals such that each literal is announced, with its length and mode, at the end of the line before it, and only there. The receiver sees each announcement as soon as its line is there, with the right length, mode and tag, and may then let the literal come or refuse it. After go-aheads, refusals (followed by a skipped or discarded message) and non-synchronising literals in any order, both sides agree on where the next command starts, no literal byte is sent without a go-ahead, and no side waits for ever.",
     ["schedules", "histories", "inputs"], "all commands with literals of both modes (empty, binary, LITERAL8), all sequences of accept and refuse, all link schedules",
     "The tests encode a few literals and check the fragments; the handshake is a protocol between two parties whose failures depend on the history.",
     [ENC, FZ, DEC], [("Fragment::Line / Fragment::Literal", ENC), ("EncodeContext::push_line, push_literal", ENC), ("LiteralAnnouncement", FZ), ("CommandDecodeError::LiteralFound", DEC)],
     ["fragments of the encoder; announcements seen by the receiver; commands received"],
     "Seeded search over sessions with many literals, refusals and resets.",
     "deterministic simulation: two parties, literal acceptance and refusal as injected events, deadlock and divergence oracles")

prop("C10", "Peers that follow the IMAP grammar understand what is sent",
     "Every message that the encoder puts on a link, for every value that the public API lets an application build, is a valid spelling of that value in the grammar of RFC 3501 and the supported extensions: an independent peer that reads the stream by that grammar finds the same messages at the same boundaries and reads each field as it was meant, whatever way the bytes arrive.",
     ["inputs", "schedules", "fault_sequences"], "all messages constructible through the public API (without the recorded findings), all segmentations, end of stream at any byte",
     "The tests compare a few hundred fixed encodings; round-trip tests cannot see an encoder and a decoder that agree on a wrong spelling, which breaks every other implementation.",
     [ENC, "imap-codec/src/extensions/*.rs", "imap-types/src/*.rs"], [("EncodeIntoContext for every type", ENC), ("escape_quoted, literal announcements", "imap-types/src/utils.rs"), ("Display and AsRef of names (flags, capabilities, mechanisms)", "imap-types/src/response.rs")],
     ["bytes on the simulated link"],
     "Seeded search; the oracle is a reference reader built from a grammar written independently of the code under test (value to grammar tree, matched by a backtracking reader).",
     "deterministic simulation: encoder as one node, reference reader as the other, seeded segmentation and end of stream")

prop("C11", "Every valid spelling by a foreign peer is read as what it means",
     "A peer that is not built on this codec may spell a value in any way that the IMAP grammar allows (letter case of keywords, quoted string, literal or atom, optional parts, escapes, and the deviations that the enabled quirks promise to tolerate). For every such spelling, however it arrives, the receiver accepts the message, finds its exact boundary and decodes it to the value that was spelled.",
     ["inputs", "schedules"], "all values, all their spellings in the grammar and the enabled quirks, all segmentations, receivers with and without Fragmentizer, four feature configurations",
     "The tests contain one or two spellings per construct; the encoder only ever produces one, so round-trip tests never see the others.",
     ["imap-codec/src/*.rs", "imap-codec/src/extensions/*.rs", DEC], [("all parsers of imap-codec", "imap-codec/src/command.rs, response.rs, core.rs, body.rs, fetch.rs, ..."), ("quirk features", "imap-codec/Cargo.toml"), ("recognition of known names", "imap-types/src/*.rs")],
     ["values and boundaries reported by Decoder::decode and Fragmentizer::decode_message"],
     "Seeded search over values, spellings and schedules; the reference writer is generated from the same independent grammar as the reader of C10.",
     "deterministic simulation: reference writer with seeded spelling choices as one node, the real decoder as the other")

prop("C12", "Damaged input is refused or means what its bytes say",
     "When messages arrive damaged, spliced, or with out-of-range numbers, wrong words and stray bytes, the receiver either refuses them or reports a value which the accepted bytes really spell (in the grammar plus the enabled quirks): no number wraps, no field is dropped, swapped or invented, no byte is skipped, and the boundary of the accepted message is exact.",
     ["inputs", "fault_sequences", "schedules"], "all damaged streams of all message kinds, all segmentations, four feature configurations",
     "The tests list a few dozen malformed inputs; a parser that accepts too much does so for one unexpected combination of bytes.",
     ["imap-codec/src/*.rs", "imap-codec/src/extensions/*.rs", DEC], [("all parsers of imap-codec", "imap-codec/src/command.rs, response.rs, core.rs, body.rs, fetch.rs, ..."), ("number, nz_number, number64", "imap-codec/src/core.rs"), ("validation in imap-types constructors", "imap-types/src/core.rs")],
     ["values and boundaries reported by Decoder::decode and Fragmentizer::decode_message"],
     "Seeded search over damage; accepted bytes are matched against the independent grammar of the reported value.",
     "deterministic simulation: link corruption, word-level damage and splices; accepted bytes checked against a reference grammar")


prop("C09", "No input from a peer brings the process down",
     "Whatever a peer sends (deep nesting, floods, extreme numbers and announcements, damaged or spliced messages), in whatever pieces, at whatever instant the receiver looks: no operation panics, overflows the stack of a small thread (256 KiB), aborts or fails to return within bounded time, and honest messages before and after the attack are still understood.",
     ["inputs", "schedules", "fault_sequences"], "all byte streams and segmentations, all five decoders, with and without Fragmentizer and size limit, small thread stacks, debug assertions and overflow checks on",
     "The tests check a few recursion limits by example; a panic, overflow or blow-up needs one particular combination of construct and depth, and a stack overflow cannot be observed from inside a test.",
     ["imap-codec/src/*.rs", FZ, DEC, "imap-types/src/*.rs"], [("recursion limits (body, search key, thread, body extension)", "imap-codec/src/body.rs, search.rs, extensions/thread.rs"), ("number parsing", "imap-codec/src/core.rs"), ("Fragmentizer", FZ)],
     ["return of every call; panics, aborts and hangs of the simulated node"],
     "Seeded search with attack generators; the node runs on a 256 KiB stack with a watchdog in a process of its own, so that aborts and hangs are observed and minimised.",
     "deterministic simulation: hostile peer among honest ones, node crash and hang detection")

prop("C13", "A message survives any chain of relays and re-encodings unchanged",
     "A message that enters a chain of relays in any accepted spelling and is decoded, re-encoded and forwarded by each of them, over links that cut, delay and stall, means the same at the end of the chain as at its start; the re-encoding is accepted by every relay, and from the first relay on it is a fixed point (the bytes no longer change).",
     ["histories", "schedules", "inputs"], "all accepted messages in all spellings (including damaged ones that are still accepted), chains of relays, all segmentations",
     "Round-trip tests sample a few values and start from values, not from foreign bytes; values that the decoder can produce and the encoder cannot carry are what breaks proxies.",
     [ENC, DEC, FZ], [("Decoder::decode for the five codecs", DEC), ("EncodeIntoContext", ENC), ("ToStatic / IntoStatic", "imap-types/src/lib.rs")],
     ["bytes and values at each relay"],
     "Seeded search over messages, spellings, damage and chains; the history of the message is compared hop by hop.",
     "deterministic simulation: chain of relay nodes with seeded links, hop-by-hop history check")

prop("C14", "Data chosen by an attacker stays data: no injection into the connection",
     "An application that puts attacker-chosen strings into messages through the public constructors cannot be made to send anything but that message: a constructor accepts a string exactly if its type can carry it, keeps it byte for byte, all constructors of a type agree, and whatever is accepted reaches the peer in its place, within its message, unchanged, with no other command, response or fragment boundary appearing on the connection.",
     ["inputs", "schedules"], "all strings, all validating constructors of the public API, all messages that carry them, all segmentations (without the recorded findings)",
     "Tests list a few bad strings per type; the property is about all strings and about what the composed stream does at the peer.",
     ["imap-types/src/*.rs", ENC, "imap-types/src/utils.rs"], [("validation in TryFrom of Atom, Tag, Text, Quoted, Literal, AString, ListMailbox, Flag, Charset, ...", "imap-types/src/core.rs, mailbox.rs, flag.rs"), ("escape_quoted", "imap-types/src/utils.rs"), ("EncodeIntoContext", ENC)],
     ["results of constructors; bytes on the link; values at the peer"],
     "Seeded search over hostile strings, with the character sets of the grammar as oracle for constructors, a reference lexer for the stream and the sent values for the peer.",
     "deterministic simulation: hostile application data, shared connection, reference character sets and lexer")

prop("C15", "A sequence set selects exactly the messages that were named",
     "Whatever way a client builds a sequence set (strings, numbers, Rust ranges of any integer type, lists, *), the set sent, received, normalised, compared and expanded selects exactly the messages that were named, in the mailbox as it is when the server acts, which may have changed since; selections that name nothing valid are refused; * is the last message and no number; expansion is sorted and free of duplicates (iter) or in the given order (iter_naive).",
     ["inputs", "histories", "schedules"], "all constructors and integer types, all mailboxes up to the largest numbers, all commands that carry a set, expunges and appends during delivery",
     "The tests check a dozen fixed sets; the edges (u32::MAX, *, reversed, adjacent or overlapping ranges, empty ranges, wide integer types) multiply, and what * means changes with the mailbox.",
     ["imap-types/src/sequence.rs", "imap-codec/src/sequence.rs"], [("TryFrom / From for SequenceSet, Sequence, SeqOrUid", "imap-types/src/sequence.rs"), ("normalize, merge_ranges", "imap-types/src/sequence.rs"), ("iter, iter_naive, simplify, cleanup", "imap-types/src/sequence.rs")],
     ["SequenceSet on both ends; numbers that the server acts on"],
     "Seeded search; the oracle is set denotation over the simulated mailbox at the instant the server acts.",
     "deterministic simulation: client and server with a changing mailbox, denotational reference model of sets")

prop("C16", "No two commands ever get the same tag, whatever threads do",
     "Tags made by TagGenerator are valid tags, and no tag is ever made twice in a process: not by one generator, however long it lives, nor by two generators, whatever threads create, use, move and drop them in whatever interleaving. So an answer matches exactly one outstanding command. In builds without debug assertions, a tag has a random part that cannot be predicted from generator and count.",
     ["schedules", "histories"], "all interleavings of threads that create and use generators, all histories of creation, use, moves and drops, long histories (tens of thousands of tags and generators)",
     "The existing test runs real threads once under whatever schedule the machine gives, with five tags each; a lost update of the shared counter needs a preemption between two instructions.",
     ["imap-types/src/core.rs"], [("TagGenerator::new (process-wide counter), TagGenerator::generate", "imap-types/src/core.rs")],
     ["tags returned by TagGenerator::generate in all threads"],
     "Seeded search: histories natively, thread interleavings with weak memory effects inside Miri's seeded scheduler.",
     "deterministic simulation: seeded thread scheduler (Miri, one seed per execution) and seeded client histories")

prop("C17", "Messages survive storage and restart, or are refused, never altered",
     "A message (or session state) that an application stores in serialised form and that was durable at a crash is read back equal after the restart. What the crash or the disk has lost, torn, flipped, misdirected, or what somebody has edited, is refused or is a value that its type allows: it can be sent, is one message on the wire, and is received as the value that was loaded.",
     ["crash_points", "fault_sequences", "inputs"], "all messages, all crash points of a journal, torn and lost writes, bit flips, misdirected writes, structural edits of the stored JSON (without the recorded findings)",
     "The tests serialise a few dozen values and a few bad inputs; validation that is missing on one field of one type shows only for one particular damaged document.",
     ["imap-types/src/*.rs"], [("serde(try_from) validation", "imap-types/src/core.rs, mailbox.rs, response.rs, datetime.rs"), ("deserialize_literal_data", "imap-types/src/core.rs")],
     ["values loaded after the restart; their bytes on the wire; the value a receiver sees"],
     "Seeded search over journals, crashes and damage; oracle: the recorded writes, the reference lexer and grammar, and the receiver.",
     "deterministic simulation: simulated disk with crash, torn, lost and misdirected writes, edits; recovery checked against the record")

prop("C18", "Credentials never appear in debug output of messages or errors",
     "In builds without debug assertions, whatever an application logs with {:?} or {:#?} of the messages it builds, sends and receives, and of the errors it gets for them (constructors, decoders, size limit, poisoned, damaged or truncated messages), never shows a password or SASL response, nor a part of it, in plain, escaped, numeric or base64 form. (Raw wire bytes are not messages.)",
     ["inputs", "fault_sequences", "schedules"], "all credentials in all their spellings, all points at which a connection is cut, damaged, limited or poisoned, all errors",
     "The tests print three fixed commands, and only in release mode; leaks appear in error paths that need a particular fault at a particular point.",
     ["imap-types/src/secret.rs", "imap-types/src/command.rs", "imap-types/src/auth.rs", FZ], [("Debug of Secret", "imap-types/src/secret.rs"), ("Secret in CommandBody::Login, Authenticate and AuthenticateData", "imap-types/src/command.rs, auth.rs"), ("DecodeMessageError (remainder, initial, discarded)", FZ)],
     ["debug output of all messages and errors"],
     "Seeded search with canary credentials, faults on the link and in the receiver; every logged line is searched for the canaries.",
     "deterministic simulation: canary credentials, link and receiver faults, log of everything met as the history to check")

prop("C19", "Results depend on the message alone: not on history, place or thread",
     "What a message decodes to, and what a value is sent as, depends on nothing but its bytes or value: not on what was decoded before, where in a buffer the bytes lie, whether the buffer is reused afterwards, whether the value is borrowed, cloned or made static, what other threads or processes do at the same time, or in what steps the fragments are taken. Copies are equal, hash alike, print alike and are sent alike.",
     ["histories", "schedules", "inputs"], "all messages (also damaged and truncated), all orders and places of decoding, buffer reuse, threads, processes",
     "Tests decode each input once, from its own buffer, in one thread; hidden state, or a field left out when a value is made static, needs a second look at another place.",
     [DEC, ENC, FZ, "imap-types/src/*.rs"], [("ToStatic / IntoStatic, Clone, Eq, Hash of all types", "imap-types/src/*.rs"), ("Encoded (iterator and dump)", ENC), ("Decoder::decode / decode_static", DEC)],
     ["values, remainders, errors and bytes at each place"],
     "Seeded search; the oracle is the result of the same message alone. Event logs of many seeds are compared across processes; threads run inside Miri's seeded scheduler.",
     "deterministic simulation: seeded order, placement and reuse of buffers; seeded thread schedules (Miri); cross-process replay")

prop_na("C21", "Decoding borrows instead of copying, in time linear in the message",
     "Decoding does not copy string data that can be borrowed from the input, and takes time linear in the length of the message, so that throughput stays high.",
     ["inputs"], "all messages",
     "Performance is not observable in functional tests.",
     ["imap-codec/src/*.rs"], [("Cow in imap-types", "imap-types/src/core.rs")], ["wall-clock time, copies"],
     "Simulated time does not pass while the code under test computes, so a simulation cannot measure how long it takes; whether a Cow borrows is a fact about one pure call, with no schedule, fault or history for it to depend on. (The parts that do depend on a hostile peer, hangs and memory, are C09 and C20.)")


prop("C20", "Memory used for a message is bounded by the bytes received for it",
     "At any instant of a connection, the memory that framing and decoding allocate is bounded by a small multiple of the bytes received so far, whatever those bytes announce (literal lengths, counts, nesting, ranges): a peer cannot make the receiver allocate for data that it has not sent.",
     ["inputs", "schedules", "fault_sequences"], "all byte streams, announcements and segmentations; peak memory and number of allocations at every decode",
     "Tests check results, not resources; an allocation by announced instead of received size passes every functional test.",
     ["imap-codec/src/*.rs", FZ, DEC], [("literal parsing", "imap-codec/src/core.rs"), ("sequence sets (kept as ranges, not expanded)", "imap-types/src/sequence.rs"), ("buffers of Fragmentizer", FZ)],
     ["heap growth and allocation count of every call, seen by a counting allocator"],
     "Seeded search with announcements and floods; the allocator is the seam, with a linear budget measured with margin on the current tree.",
     "deterministic simulation: hostile peer, counting allocator as the memory seam, linear budget")

AR = "imap-types/src/arbitrary.rs"
prop("C22", "Generated test messages are legal, whatever randomness they are made of",
     "With feature `arbitrary`, whatever bytes a fuzzer or random source hands to the generators of commands, responses, greetings and authentication data: they return (a value, or that the bytes do not do), without panic or runaway recursion; the same bytes give the same value; and each value is one that the encoder spells by the IMAP grammar and that a peer behind any link receives as the same value. So a failure found with generated messages is a failure of the code that uses them. Values of the types without validation (Code::Referral, QuotedUtf8) and text that ends like a literal announcement are recorded findings.",
     ["inputs", "schedules"], "all byte strings as randomness, all kinds of messages, all delivery schedules",
     "The tests draw from one fixed seed and only look that copies are equal; nothing encodes what was generated.",
     [AR, "imap-types/src/*.rs"], [("Arbitrary for the hand-written types (strings, search keys, body structures, dates, codes)", AR), ("derive(Arbitrary) on the others", "imap-types/src/*.rs")],
     ["values made, their bytes on the wire, the values received"],
     "Seeded search: the simulator is the random source; oracles are the reference grammar and the received value.",
     "deterministic simulation: simulator as random source, generated messages over faulty links, reference grammar as oracle")


def main():
    P.sort(key=lambda p: p["id"])
    done = [p for p in P if p["id"] in PLAN]
    with open(os.path.join(HERE, "properties.jsonl"), "w") as h:
        for p in P:
            if p["id"] in PLAN or p.get("_na"):
                h.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    m = {
        "version": 1,
        "setup_cmd": "python3 check.py setup",
        "checks": [{
            "property": p["id"],
            "quick_cmd": f"python3 check.py {p['id']} quick",
            "thorough_cmd": f"python3 check.py {p['id']} thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": p["_tech"],
            "level": "exploration",
            "level_note": p["_note"],
        } for p in done],
        "not_applicable": [{"property": p["id"], "reason": p["_na"]} for p in P if p.get("_na")],
        "notes": "No hooks in /repo: the code under test is sans-I/O, so every seam (network, clock, storage, allocator, scheduler) lies outside of it. See DESIGN.md.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as h:
        json.dump(m, h, indent=1)
        h.write("\n")


if __name__ == "__main__":
    main()
