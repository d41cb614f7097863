"""Which configurations decide which property, how many runs, and how the runs are described in the evidence."""

# Builds of the code under test. `ext`: all IMAP extensions; `quirk`: the quirks that are on by default; `quirk_off`: the others.
CONFIGS = {
    "full": {"features": "quirk,ext", "profile": "debug"},
    "dflt": {"features": "quirk", "profile": "debug"},
    "strict": {"features": "ext", "profile": "debug"},
    "relaxed": {"features": "quirk,ext,quirk_off", "profile": "debug"},
    "arb": {"features": "quirk,ext,arb", "profile": "debug"},
    "arbd": {"features": "quirk,arb", "profile": "debug"},
    "rel": {"features": "quirk,ext", "profile": "release"},
}

REAL = ["imap-codec and imap-types, unmodified, linked from /repo's working tree", "nom, abnf-core, base64, chrono, serde, serde_json"]
STUB = ["network (seeded byte-stream links)", "clock (virtual)", "peer applications (scripted by the seed)"]

FRAME = "One run = one seed: a stream of generated messages, malformed messages and garbage; a delivery schedule (segmentation, delays, stalls, end of stream); a receiver schedule. Non-trivial: at least one fault or split fired. Distinct: by hash of the faults in order and the states reached."
FRAME_STATES = "(bytes of literal missing, classes of the 4 bytes around the cut, bytes pending, flags, distance to the limit) at each delivery"
SESSION = "One run = one seed: a client script, server decisions, two links with segmentation, delays, stalls and resets. Non-trivial: at least one fault or split fired. Distinct: by hash of the faults in order and the states reached."

GRAM = "One run = one seed: messages, their spelling by an independent peer (or the encoder), damage on the link, a delivery schedule. Non-trivial: at least one fault, split or foreign spelling. Distinct: by hash of the faults in order and the states reached."
GRAM_STATES = "first three words of each message read (letters, upper case)"

HOSTILE = "One run = one seed: nesting bombs, floods, extreme announcements, damaged and spliced messages among honest ones; a delivery schedule. Non-trivial: at least one attack, fault or split. Distinct: by hash of the faults in order and the states reached."

INJECT = "One run = one seed: strings chosen by an attacker, the constructors and messages they go into, a delivery schedule. Non-trivial: at least one hostile string. Distinct: by hash of the faults in order and the states reached."
SEQ = "One run = one seed: a mailbox, selections built through a random constructor, commands that carry them, a delivery schedule during which messages are expunged and appended. Non-trivial: at least one fault, split or concurrent change. Distinct: by hash of the faults in order and the states reached."

TAGS = "One run = one seed: a history of generators created, used, moved and dropped by clients, with answers matched by tag; plus, inside Miri, threads that do so under seeded preemption. Non-trivial: more than one generator. Distinct: by hash of the faults and states (native), by assignment of tag prefixes to threads (Miri)."
STORE = "One run = one seed: messages written to a journal, a crash and storage faults, a restart; then edits of stored JSON. Non-trivial: at least one fault. Distinct: by hash of the faults in order and the states reached."
SECRET = "One run = one seed: credentials, the messages that carry them, link faults, limits and poison; all messages and errors met are logged. Non-trivial: at least one fault or split. Distinct: by hash of the faults in order and the states reached."
PURE = "One run = one seed: messages (some damaged), the order, place and buffers in which they are decoded and re-decoded; plus, inside Miri, threads that do so at the same time. Non-trivial: at least one fault or reuse. Distinct: by hash of the results."

GENERATED = "One run = one seed: the bytes a random source hands to the generators, the messages they make of them, a delivery schedule. Non-trivial: at least one value was made. Distinct: by hash of the faults in order and the states reached."

PLAN = {
    "C01": {"configs": {"dflt": 1}, "runs": {"quick": 1_500_000, "thorough": 40_000_000}, "rule": FRAME, "states": FRAME_STATES},
    "C02": {"configs": {"dflt": 1}, "runs": {"quick": 1_200_000, "thorough": 40_000_000}, "rule": FRAME, "states": FRAME_STATES},
    "C03": {"configs": {"dflt": 1}, "runs": {"quick": 1_500_000, "thorough": 40_000_000}, "rule": FRAME, "states": FRAME_STATES},
    "C04": {"configs": {"full": 2, "relaxed": 1}, "runs": {"quick": 600_000, "thorough": 20_000_000}, "rule": FRAME, "states": FRAME_STATES},
    "C05": {"configs": {"full": 3, "dflt": 1, "strict": 1, "relaxed": 1}, "runs": {"quick": 300_000, "thorough": 10_000_000}, "rule": FRAME, "states": "(kind, complete or not, bytes there, last two bytes, bytes missing) at each decode"},
    "C06": {"configs": {"full": 3, "dflt": 1, "strict": 1, "relaxed": 1}, "runs": {"quick": 1_200_000, "thorough": 40_000_000}, "rule": SESSION, "states": "(position in session, commands outstanding, receiver type, command name) at each command received"},
    "C07": {"configs": {"full": 3, "dflt": 1, "strict": 1, "relaxed": 1}, "runs": {"quick": 400_000, "thorough": 15_000_000}, "rule": SESSION, "states": "as for C06, and the kind of each response sent"},
    "C08": {"configs": {"full": 2, "dflt": 1, "strict": 1}, "runs": {"quick": 1_000_000, "thorough": 40_000_000}, "rule": SESSION, "states": "(position in session, commands outstanding, receiver type, command name) at each command received"},
    "C10": {"configs": {"full": 2, "dflt": 1}, "runs": {"quick": 1_500_000, "thorough": 40_000_000}, "rule": GRAM, "states": GRAM_STATES},
    "C11": {"configs": {"full": 3, "dflt": 1, "strict": 1, "relaxed": 1}, "runs": {"quick": 800_000, "thorough": 30_000_000}, "rule": GRAM, "states": GRAM_STATES},
    "C12": {"configs": {"full": 3, "dflt": 1, "strict": 1, "relaxed": 1}, "runs": {"quick": 1_000_000, "thorough": 30_000_000}, "rule": GRAM, "states": GRAM_STATES},
    "C09": {"configs": {"full": 3, "dflt": 1, "strict": 1}, "extra": ["--stack-kb", "256"], "runs": {"quick": 250_000, "thorough": 15_000_000}, "rule": HOSTILE, "states": "(verdict, kind, first 14 bytes, magnitude of the length) of each message looked at"},
    "C20": {"configs": {"full": 2, "dflt": 1}, "runs": {"quick": 1_000_000, "thorough": 40_000_000}, "rule": HOSTILE, "states": "(kind, verdict, magnitudes of bytes received, heap growth and allocations) at each decode"},
    "C13": {"configs": {"full": 3, "dflt": 1, "strict": 1, "relaxed": 1}, "runs": {"quick": 500_000, "thorough": 20_000_000}, "rule": GRAM, "states": GRAM_STATES, "assumptions": ["a relay may normalise sequence sets (the decoder does)", "text that ends like a literal announcement is a recorded finding"]},
    "C14": {"configs": {"full": 2, "dflt": 1, "strict": 1, "relaxed": 1}, "runs": {"quick": 1_500_000, "thorough": 50_000_000}, "rule": INJECT, "states": "(kind, accepted or not, set of character classes of the string, length up to 3)", "assumptions": ["the strings of the recorded findings are exempt"]},
    "C15": {"configs": {"full": 1}, "runs": {"quick": 1_500_000, "thorough": 50_000_000}, "rule": SEQ, "states": "(items in the set, messages selected, messages in the mailbox, UIDs or numbers, items with *) at each command acted on", "assumptions": ["what a reversed inclusive Rust range (5..=3) means is not specified and not asked"]},
    "C16": {"configs": {"dflt": 3, "rel": 1}, "runs": {"quick": 120_000, "thorough": 6_000_000}, "rule": TAGS, "states": "(generators alive, commands outstanding, magnitudes of generators and tags made) at each step",
            "miri": {"seeds": {"quick": 96, "thorough": 12_000}, "sizes": [["tags", 3, 2, 3], ["tags", 2, 1, 2], ["tags", 4, 1, 2]], "profiles": [False, True], "minimal": [["tags", 2, 1, 1], ["tags", 2, 1, 2], ["tags", 2, 2, 2]], "unpredictable": True}},
    "C17": {"configs": {"full": 2, "dflt": 1}, "runs": {"quick": 400_000, "thorough": 20_000_000}, "rule": STORE, "states": "(kind, intact or not, magnitude of the record) at each record read after the restart", "stub": ["disk (journal with seeded loss, tearing, bit flips, misdirected writes)", "clock (virtual)", "application"],
            "assumptions": ["serde_json is the storage format", "the values of the recorded findings are exempt"]},
    "C22": {"configs": {"arb": 2, "arbd": 1}, "runs": {"quick": 1_500_000, "thorough": 60_000_000}, "rule": GENERATED, "states": GRAM_STATES, "stub": ["random source (seeded bytes)", "network (seeded byte-stream links)", "clock (virtual)"], "assumptions": ["the values of the recorded findings are exempt", "a sequence set may arrive normalised"]},
    "C18": {"configs": {"rel": 1}, "runs": {"quick": 300_000, "thorough": 20_000_000}, "rule": SECRET, "states": "(what is logged, first 40 letters of the line)", "assumptions": ["raw wire bytes (Encoded, Fragment, the buffers of Fragmentizer) are not messages or errors; their Debug output is not looked at"]},
    "C19": {"configs": {"full": 3, "dflt": 1, "strict": 1, "relaxed": 1}, "runs": {"quick": 500_000, "thorough": 20_000_000}, "rule": PURE, "states": "(kind, first 24 characters of the result) of each message", "determinism_is_property": True,
            "miri": {"seeds": {"quick": 24, "thorough": 1500}, "sizes": [["codec", 2, 1], ["codec", 3, 1]], "weights": {"codec 3 1": 0.25}, "minimal": [["codec", 2, 1]]}},
}
