"""C40: nothing fails without a cause. Every path on which an operation fails must carry a fact that (1) is of a kind that
justifies the failure, and (2) is known on no path on which the same operation succeeds."""
import re
from lib import *
from session_rules import *
from session_rules import A1, A2, A3, A4

# code the user supplies (protocol, signature scheme, wire format), or that is checked as an operation of its own here
USER = re.compile(r"::(DynRound|Round|RoundExtension|DynRoundExtension|EntryPoint|DynProtocolError|ProtocolError|WireFormat|DynSerializer|DynDeserializer\w*)::"
                  r"|try_sign_digest_with_rng$|erased_serde::de::deserialize$|Deserialize::deserialize$|verify_digest$")


def failed_call(t, v):
    """the fact says that a call of user code failed: its result is not Ok, or is the failing variant"""
    if t.op != "isvar":
        return None
    b, var = t.a
    if b.op == "app" and USER.search(b.a[0]):
        if var == "Ok" and v is False or var == "Err" and v is True:
            return b.a[0]
    return None


def root_is(t, bases):
    while True:
        if t in bases:
            return True
        if t.op in ("fld", "get", "ins", "rem", "fold", "upd", "somev") and len(t.a) and isinstance(t.a[0], T):
            t = t.a[1] if t.op == "fold" else t.a[0]
        else:
            return t.op in ("mu", "acc")


def twice(t, v):
    """something of this key is there already: of this round, this destination, this sender, or a party with an error of the same kind"""
    if t.op != "has" or v is not True or own_key(t.a[0], t.a[1]):
        return False
    m, k = t.a
    if k.op in ("ekey", "elem"):
        kinds = [f for f in ("unprovable_errors", "provable_errors") if f in pretty_path(k)]
        return m.op == "mu" or len(kinds) > 0 and kinds[0] in pretty_path(m) and root_is(m, (A1, A2, A3))
    return root_is(m, (A1, A2, A3)) and (k in (F(A1, "transition_info.id"), F(A3, "destination"), F(A3, "message.from")))


def own_key(m, k):
    return k.op in ("ekey", "elem") and k.a[0] is m


def absent_from(*names):
    def f(t, v):
        return t.op == "has" and v is False and t.a[0].op == "fld" and t.a[0].a[2] in names
    return f


def demanded(t, v):
    """a protocol error asks for a message of an earlier round that is not there"""
    if t.op != "has" or v is not False:
        return False
    return "required_messages" in str(pretty_path(t)) and root_is(t.a[0], (F(A1, "transcript.echo_broadcasts"), F(A1, "transcript.normal_broadcasts"), F(A1, "transcript.direct_messages")))


def pretty_path(t):
    return [u.a[2] for u in subterms(t) if u.op == "fld"]


def echo_of_echo(t, v):
    return v is True and t.op == "fld" and t.a[2] == "is_echo"


def untyped(t, v):
    return t.op == "isvar" and t.a[1] == "Dynamic" and v is True


def handed_in(t, v):
    """the result of processing being recorded is a local error itself"""
    return v is True and t.op == "isvar" and t.a[1] == "Local" and t.a[0] is fld(F(A3, "processed"), "Err", "0")


def wrong_type(t, v):
    return v is False and (t.op == "isvar" and t.a[0].op == "app" and t.a[0].a[0].endswith("::downcast") or t.op == "eq" and "TypeId" in pretty(t))


def facts_of(x):
    return [(k, v) for k, v in x.facts.items() if isinstance(k, T)]


def causes(S, name, root, allowed, rule="fails-only-for-a-cause", panics=True):
    good, bad = set(), []
    for x in S.run(root):
        if x.kind == "ret" and (x.ok() is not None or x.err() is None):
            good |= {(k, v) for k, v in facts_of(x)}
        elif x.kind == "ret" or panics:
            bad.append(x)
    for x in bad:
        ok = any((k, v) not in good and (failed_call(k, v) or any(a(k, v) for a in allowed)) for k, v in facts_of(x))
        S.xob(rule, name + ("" if x.kind == "ret" else ": panic"), ok, x, "it fails although nothing that was called failed, and nothing is known that makes failing right")
    return len(bad)


@check("C40")
def c40(S):
    n = 0
    for fn, allowed in (("new", ()), ("make_message", ()), ("add_artifact", (twice,)), ("terminate", (twice,)), ("terminate_due_to_errors", (twice,)),
                        ("add_processed_message", (twice, absent_from("still_have_not_sent_messages"), demanded, echo_of_echo, handed_in)),
                        ("finalize_round", (twice, absent_from("children")))):
        n += causes(S, fn, SESSION + fn, allowed)
    for ty in ("EchoRound", "ChainedRound", "RoundWrapper"):
        for m in ("make_direct_message", "make_echo_broadcast", "make_normal_broadcast", "finalize", "communication_info", "transition_info"):
            allowed = {"EchoRound": (absent_from("echo_broadcasts"), echo_of_echo), "RoundWrapper": (wrong_type,), "ChainedRound": ()}[ty]
            n += causes(S, "%s::%s" % (ty, m), impl_fn(S, ty, "DynRound", m), allowed)
    n += causes(S, "chain: make_round", impl_fn(S, "T", "EntryPoint", "make_round"), ())
    S.need("fails-only-for-a-cause", "failing paths", n, 150)
    # what a typed round rejects is compared with what evidence checks confirm elsewhere (C11); panics too (C08)
    m = causes(S, "EchoRound", impl_fn(S, "EchoRound", "DynRound", "receive_message"), (malformed,), "rejects-only-for-a-cause", panics=False)
    S.need("rejects-only-for-a-cause", "EchoRound", m, 8)


def malformed(t, v):
    """something is wrong with the received message itself"""
    p = pretty(t)
    if t.op == "isvar":
        b = t.a[0]
        if t.a[1] == "Some" and re.search(r"(direct_message|echo_broadcast|normal_broadcast)\.0$", pretty(b)):
            return True  # a part is there that should not be, or the other way round
        # the round says so: a variant of its error
        while b.op == "fld":
            b = b.a[0]
        return b.op == "app" and b.a[0].endswith("Round::receive_message")
    if v is False and t.op == "eq":
        return any(u.op in ("digest", "hash") or u.op == "fld" and u.a[2] == "metadata" or isadt(u, "MessageMetadata") for u in subterms(t))
    if t.op == "isempty" and v is False or t.op == "has" and v is False:
        # echos are missing or not asked for
        return "expected_echos" in pretty_path(t)
    if t.op == "has" and v is True:
        # the sender's own echo
        return t.a[1] is A3 and "message_hashes" in pretty_path(t.a[0])
    return False
