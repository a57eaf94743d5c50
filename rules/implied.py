"""What a property says about other parts of the code: obligations of other properties' analyses it cannot do without.

A property is stated for observable behaviour, and the code which decides it may be anywhere; the analyses are divided by
place.  Each entry: property -> (other analysis, rules, instances or None)."""
from lib import CHECKS

ECHO_FAULTS = ("accepted-entry", "accepted-set", "fault-of-originator", "fault-of-sender", "fault-only-for-expected", "unprovable-iff-incomplete")
ACTIVE = ("simultaneous", "echo-between", "transition-info")
SIGNED = ("one-derivation", "own-kind", "echo-hash", "signed-data", "commits-to", "hash-kind", "kinds-separated", "unambiguous")
IDS = ("SessionId", "RoundId", "MessageMetadata")
SIGNED_TYPES = IDS + ("PartKind", "SignedMessage", "MessagePayload", "SerializedSignature", "EchoBroadcast", "NormalBroadcast", "DirectMessage")
IMPLIED = {
    # equal means equal in everything; everything is written
    "C01": [("C41", ("equality",), IDS)],
    "C04": [("C41", ("equality",), "RoundId")],
    # a round is active elsewhere as the transition information says
    "C02": [("C41", ("equality", "encodes-all"), SIGNED_TYPES)],
    "C03": [("C41", ("equality",), IDS), ("C17", ACTIVE, None)],
    # the runners process what was buffered
    "C16": [("C17", ACTIVE, None), ("C23", ("round-worked-off",), "buffered"), ("C31", ("round-worked-off",), "buffered")],
    # parties expected in the echo round
    "C06": [("C13", ("echo-round-parties", "echo-round-data"), None)],
    # accepted means its data is recorded
    "C07": [("C09", ("success-recorded", "failure-contributes-nothing", "accepted-data-kept"), None)],
    # the randomness given is the randomness used
    "C38": [("C41", ("equality", "encodes-all"), ("TestVerifier", "TestSigner", "TestSignature"))],
    # a loop over a channel ends or waits
    "C37": [("C32", ("no-busy-waiting",), None)],
    "C36": [("C20", ("forwarded",), "random generator")],
    # how a failure got its kind
    "C09": [("C11", ("rejected-only-if-malformed",), None), ("C20", ("error-kind-kept",), None), ("C14", ("fault-of-originator", "fault-of-sender"), None)],
    # signed by the party: what a signature covers
    "C10": [("C41", ("equality",), SIGNED_TYPES), ("C02", SIGNED, None)],
    # requirements of errors of chained protocols
    "C12": [("C18", ("nested-identifiers", "forwarded"), None)],
    "C14": [("C41", ("equality",), SIGNED_TYPES), ("C13", ("echo-coverage",), None), ("C02", ("echo-hash", "one-derivation"), None)],
    "C17": [("C41", ("equality", "ordering"), "RoundId"), ("C18", ("nested-identifiers",), None)],
    "C18": [("C17", ("identifiers",), None)],
    "C20": [("C11", ("rejected-only-if-malformed",), "protocol round")],
    "C24": [("C15", ("outcome",), None)],
    "C26": [("C20", ("own-slot",), None), ("C02", ("one-derivation", "own-kind"), None)],
    # evidence is confirmed: how it was made, what is presented to the protocol, and that reception and verification agree
    "C11": [("C41", ("encodes-all", "decodes-all"), "MessagePayload")],
    "C34": [("C41", ("equality", "encodes-all", "decodes-all"), SIGNED_TYPES + ("Evidence",)), ("C09", ("right-kind", "right-data", "right-party"), None), ("C11", ("rejected-only-if-malformed", "confirmed-iff-malformed"), None),
            ("C12", ("trigger-iff-required", "previous-iff-required", "combined-iff-required", "carries-error", "presented", "passed-on", "accessor", "declared-parts"), None),
            ("C14", ("fault-of-originator", "fault-of-sender"), None), ("C18", ("nested-identifiers", "forwarded", "routed-evidence", "routed-lookup"), None),
            ("C02", ("one-derivation", "echo-hash"), None)],
    # accepted also by the round
    "C35": [("C41", ("equality",), IDS), ("C02", ("one-derivation", "echo-hash", "own-kind"), None), ("C11", ("rejected-only-if-malformed",), None), ("C14", ECHO_FAULTS, None), ("C17", ACTIVE, None)],
}
# a part of evidence that is there without need does no harm to its verification
HARMLESS = {("C34", "C12"): ("only if required", "left out", " none")}


def run(S, pid):
    CHECKS[pid](S)
    for other, rules, inst in IMPLIED.get(pid, ()):
        skip = HARMLESS.get((pid, other), ())
        got = S.borrow(other, lambda b: b.rule.split(".floor")[0] in rules and (inst is None or any(k in str(b.inst) for k in ((inst,) if isinstance(inst, str) else inst))) and not any(k in str(b.inst) for k in skip))
        for r in rules:
            S.ob("implied", "%s/%s" % (other, r), any(b.rule == r for b in got), "", "the analysis of %s has nothing on this" % other)
        for b in got:
            b.rule = "%s/%s" % (other, b.rule)
