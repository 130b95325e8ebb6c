"""Which engines decide which property."""
import os


def bb(kind="dbg", budget=None):
    def f(m, prop, out, scratch):
        d = m.build_broker(kind)
        e = m.build_crate("bb")
        env = {"VERIF_BROKER": os.path.join(d, "ratelmq"), "VERIF_PASSWD": os.path.join(d, "ratelmq-passwd")}
        if budget:
            env["VERIF_BUDGET"] = str(budget if m.TIER == "quick" else budget * 20)
        if prop == "C24":
            env["VERIF_HEAPCOUNT"] = m.build_heapcount()
        return [os.path.join(e, "bb"), prop, out], env
    return f


def lib(crate, tdir="wb"):
    """a harness linked with the code of /repo, with debug assertions and overflow checks"""
    def f(m, prop, out, scratch):
        e = m.build_crate(crate, tdir=tdir)
        return [os.path.join(e, crate), prop, out], {}
    return f


def lib_asan(crate, budget=8):
    def f(m, prop, out, scratch):
        e = m.build_crate(crate, toolchain="nightly", flags="-Zsanitizer=address", target=m.TRIPLE, tdir="wb-asan")
        return [os.path.join(e, crate), prop, out], {"VERIF_NO_AS": "1", "ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=0",
                                                     "VERIF_BUDGET": str(budget if m.TIER == "quick" else budget * 30)}
    return f


def miri(crate, cases):
    def f(m, prop, out, scratch):
        m.need_lock()
        n = cases if m.TIER == "quick" else cases * 25
        return ["python3", os.path.join(m.VERIF, "tools", "miri.py"), os.path.join(m.VERIF, crate), os.path.join(m.TARGET, "wb-miri"), out, str(n),
                "300" if m.TIER == "quick" else "3000"], {"VERIF_BUDGET": "60" if m.TIER == "quick" else "1500"}
    return f


A_SOCK = "the kernel's loopback TCP delivers bytes reliably and in order"
A_MQ = "the harness's own MQTT encoder, parser and filter matcher, written from the MQTT 3.1.1 standard"
A_IDLE = "a broker whose threads all sleep without using CPU for 4 s, with nothing new sent to it, will not act any more"
A_REF = "the harness's reference decoder, written from the MQTT 3.1.1 standard; what the standard leaves open is not judged"
BASE = [A_SOCK, A_MQ, A_IDLE]
NOT_ALL = "Assurance is limited to the executions produced."


def P(engines, technique, note, assumptions=BASE, level="exploration"):
    return dict(engines=engines, level=level, technique="runtime monitoring: " + technique, note=note, assumptions=assumptions)


PLAN = {
    "C01": P([lib("wb"), bb()], "decoder results over real sockets compared with a reference decoder, under every two-way split of fixed streams and random segmentation; end to end comparison of published and received bytes",
             "All payload sizes around every buffer and length boundary are tried; contents and segmentations are sampled. " + NOT_ALL, [A_SOCK, A_MQ, A_REF, A_IDLE]),
    "C02": P([lib("wb"), bb()], "mutated and random byte streams through the real decoder against a reference decoder, panic, hang and allocation monitors; live connections with a malformed packet under a witness client",
             "Truncation of fixed streams at every byte is complete; mutations are sampled. " + NOT_ALL, [A_SOCK, A_MQ, A_REF, A_IDLE]),
    "C03": P([lib("wb"), bb()], "bytes written by the real encoder compared with a reference encoding under small buffers and slow readers; strict parsing and comparison of everything the broker sends",
             "All sizes around every buffer and length boundary are tried, including the largest packet; contents and paces are sampled. " + NOT_ALL, [A_SOCK, A_MQ, A_IDLE]),
    "C04": P([bb()], "deliveries compared with an executable MQTT matcher over generated filter and topic pairs and populations of other subscriptions", "Small alphabets of levels are covered densely, others sampled. The parent level of '#' is a known finding. " + NOT_ALL),
    "C05": P([bb()], "offline no-loss oracle over recorded histories of concurrent clients against the real broker, with injected scheduling noise", "Every delivery the recorded acknowledgement order makes mandatory is awaited; a message missing while the broker is idle is a violation. " + NOT_ALL),
    "C06": P([bb()], "offline oracle over recorded histories with unique payloads: no phantom, altered, misrouted or repeated delivery", NOT_ALL),
    "C07": P([bb()], "per publisher, topic and subscriber order check over recorded concurrent histories", NOT_ALL),
    "C08": P([bb()], "model of subscriptions compared with acknowledgements and with probe deliveries after each of them", NOT_ALL),
    "C09": P([bb()], "response stream of every connection matched against its request stream, pipelined and under traffic", NOT_ALL),
    "C10": P([bb()], "connections with invalid or missing CONNECT under witness clients", NOT_ALL),
    "C11": P([bb()], "generated password files and login attempts against a reference model using an independent argon2 call", NOT_ALL, BASE + ["the argon2 crate computes Argon2 correctly"]),
    "C12": P([bb()], "packets pipelined behind refused CONNECTs under witness clients and the legitimate holder of the id", NOT_ALL),
    "C13": P([bb()], "histories of take-overs with late packets and endings of the replaced connection, with oracles on the new one", NOT_ALL),
    "C14": P([bb()], "connections ended in every way at every packet boundary and inside packets; deliveries and session state after reconnecting", NOT_ALL),
    "C15": P([bb()], "hostile byte streams and connection endings against the real broker with canary clients, panic, exit and CPU monitors, down to one worker thread and descriptor exhaustion", NOT_ALL),
    "C16": P([bb()], "stalled and half-sent connections with all delivery oracles on the others", "Stalled subscribers hold at most what the outbound queue takes; the stall beyond that is a known finding, watched for recovery without loss. " + NOT_ALL),
    "C17": P([bb()], "fixed header of every forwarded message checked against the granted QoS", NOT_ALL),
    "C18": P([bb()], "interrupts at random moments of start, traffic and load; exit status, time and panic monitors", NOT_ALL),
    "C19": P([bb()], "generated file and environment configurations; which addresses and which password file are in force is observed", "The listeners' environment variable ends the broker: known finding. " + NOT_ALL),
    "C20": P([bb()], "password file after each run of the real tool compared with a model, and the broker's decisions with it", NOT_ALL, BASE + ["the argon2 crate computes Argon2 correctly"]),
    "C21": P([bb()], "fault injection by ptrace: death and failure at every system call of the tool, with the file observed at every stop", "For each file tried every system call is a point of death and failure; files and error numbers are sampled. Power loss is outside (only what the kernel shows is observed).",
             ["ptrace stops show every system call of the tool", "the argon2 crate computes Argon2 correctly"], "fault_enumeration"),
    "C26": P([bb()], "overlapping runs of the real tool, one held by ptrace at its system calls or killed there while others run, and crowds at random moments; the file judged against all orders the recorded times allow", "With one run held, every system call is a place of overlap (thorough; quick: all in two cases, a third in the others); crowds are sampled. " + NOT_ALL,
             ["ptrace stops show every system call of the tool", "the argon2 crate computes Argon2 correctly"]),
    "C22": P([lib("wbm")], "expiry decisions of real sessions compared with a reference over all keep-alive values and clock readings around every threshold, and of the messaging core over populations", "All 65536 keep-alive values are tried at every reading around their threshold.",
             ["the public session API is what the broker uses"]),
    "C23": P([bb("dbg", 6), bb("tsan", 20), bb("asan", 10), lib_asan("wb", 8), lib_asan("wbm", 8), miri("wb", 9), miri("wbm", 0)], "ThreadSanitizer and AddressSanitizer builds of the broker under concurrent and hostile traffic; codec and messaging core under AddressSanitizer and the Miri interpreter", NOT_ALL,
             ["the sanitizers and Miri report what they claim to detect"]),
    "C24": P([bb()], "the broker's descriptors counted against live connections after all endings; resident memory and the exact number of bytes and blocks held from malloc (interposed allocator) compared over repeated batches of large unique cycles, thousands of short connections and mixed traffic", "Over batches of 3,000 connections a leak of one byte per connection is seen. " + NOT_ALL),
    "C25": P([lib("wbm"), bb()], "request sequences compared with a model and concurrent histories checked for linearizability, at the messaging core's request channel; the same from outside under churn", NOT_ALL),
}
