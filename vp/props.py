"""The properties and the jobs that decide them."""
from vp.core import Image, Job
RM = "rtmessage/"; RB = "rbus/"
VAL = [RB + f for f in ("rbus_value.c", "rbus_buffer.c", "rbus_property.c", "rbus_object.c")] + [RM + "rtRetainable.c", RM + "rtMemory.c"]
PROPS = {}
def prop(pid, **kw):
    def deco(f): PROPS[pid] = dict(jobs=f, **kw); return f
    return deco
@prop("P01")
def p01(tier):
    T = tier == "thorough"; i = Image("value.c", VAL)
    j = [Job("writes", i, {"scen": 0, "writes": 3 if T else 2, "hi": 2}, bounds="up to 3 writes" if T else "2 writes"),
         Job("long", i, {"scen": 0, "writes": 1, "lo": 62, "hi": 66}, bounds="lengths 62..66 around the buffer block"),
         Job("copy", i, {"scen": 1, "hi": 3 if T else 2}, bounds="contents up to 3 bytes"), Job("copylong", i, {"scen": 1, "lo": 63, "hi": 65}, bounds="lengths 63..65"),
         Job("null", i, {"scen": 2}), Job("tlv", i, {"scen": 3}), Job("tlvany", i, {"scen": 4}), Job("nested", i, {"scen": 5})]
    return j
@prop("P02")
def p02(tier):
    T = tier == "thorough"; i = Image("compare.c", VAL)
    return [Job("ints", i, {"scen": 0}, bounds="all values of all pairs of the 11 integral types"), Job("floats", i, {"scen": 1}, bounds="all bit patterns of float and double against each other and against integers of up to 32 bits"), Job("texts", i, {"scen": 2, "hi": 6 if T else 3}, bounds="contents up to 6 bytes" if T else "contents up to 3 bytes"),
            *[Job(f"times{k}", i, {"scen": 3, "pair": k, "freetz": int(T)}, budget=800 if T else 200, bounds="two fields free (" + n + "), the rest fixed; zone offsets " + ("free" if T else "from 4 hours x 4 minutes, both signs")) for k, n in enumerate(("day+hour", "hour+minute", "minute+second", "hour+zone hours", "minute+zone minutes", "zone hours+minutes", "month+day"))],
            Job("mixed", i, {"scen": 4}), Job("handles", i, {"scen": 5})]
@prop("P03")
def p03(tier):
    T = tier == "thorough"; i = Image("codec.c", VAL)
    return [Job("pairs", i, {"scen": 0, "n": 3 if T else 2, "shi": 1 if T else 2}, bounds="sequences of 3 values" if T else "sequences of 2 values, contents up to 2 bytes"), Job("edge", i, {"scen": 0, "n": 1, "padlo": 40 if T else 56, "padhi": 64}, bounds="one value starting at offsets up to 64"), Job("edge2", i, {"scen": 0, "n": 1, "padlo": 120, "padhi": 128}, bounds="one value starting at offsets 120..128"), Job("long", i, {"scen": 0, "n": 1, "slo": 55, "shi": 66}, bounds="contents of 55..66 bytes"),
            Job("null", i, {"scen": 1}), Job("any", i, {"scen": 2, "n": 60 if T else 14}, bounds="every byte sequence of up to 60 bytes" if T else "every byte sequence of up to 14 bytes"), Job("any60", i, {"scen": 2, "n": 8, "pad": 58}, bounds="every byte sequence of up to 8 bytes across the block boundary"), Job("buffer", i, {"scen": 3}, bounds="three writes of 0..130 bytes, any read length")]
@prop("P04")
def p04(tier):
    T = tier == "thorough"; i = Image("text.c", VAL); j = []; N = ("bool", "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "char", "str")
    for k, n in enumerate(N):
        w = n[1:] in ("32", "64") or (n[1:] == "16" and not T); j.append(Job("rt_" + n, i, {"scen": 0, "k": k, "offbits": (8 if T else 2 if n[1:] == "64" else 4) if w else 0}, bounds=n + (": windows of %d values around zero, the extremes, the sign change and powers of ten" % (256 if T else 4 if n[1:] == "64" else 16) if w else ": every value" if n != "str" else ": up to 4 characters")))
    j.append(Job("date", i, {"scen": 1}, bounds="four years, each field and zone part free in turn"))
    for k, n, ps in ((0, "i16", (0, 1)), (1, "u16", (0, 2)), (2, "i32", (0, 3)), (3, "u32", (0, 4)), (4, "i64", (0, 5, 7)), (5, "u64", (0, 6, 7))):
        for p in ps: j.append(Job(f"strict_{n}_{p}", i, {"scen": 2, "k": k, "pre": p, "n": (4 if T else 3) if p == 0 else 3 if T else 2}, bounds="optional minus, a fixed prefix of the extreme value, then free digits" if p else "free text over 0159+- x"))
    return j + [Job("bool", i, {"scen": 3}, bounds="up to 5 letters of the words, and the words in any case with up to 2 more characters"), Job("bounded", i, {"scen": 4}, bounds="buffers of 0..29 bytes"), Job("hex", i, {"scen": 5})]
FIL = VAL + [RB + "rbus_filter.c"]
@prop("P05")
def p05(tier):
    T = tier == "thorough"; i = Image("filter.c", FIL); j = []
    for k, n in enumerate(("i32", "str", "u32", "i64")):
        if k < 2 or T: j += [Job("eval_" + n, i, {"scen": 0, "k": k, "depth": 1}, bounds="expressions of depth up to 1"), Job("stored_" + n, i, {"scen": 1, "k": k, "depth": 2 if T else 1, "few": 3 * T, "not2": 1}, budget=800 if T else 200, bounds="expressions of depth up to %d" % (2 if T else 1))]
    j.append(Job("deep_i32", i, {"scen": 0, "k": 0, "depth": 2, "few": 3 if T else 1}, budget=800 if T else 120, bounds="expressions of depth up to 2 over %d relation(s)" % (3 if T else 1)))
    return j + [Job("compare", i, {"scen": 2, "depth": 1, "not2": 1}, bounds="pairs of expressions of depth up to 1"), Job("any", i, {"scen": 3, "n": 12 if T else 9}, bounds="five beginnings followed by every sequence of up to %d bytes" % (12 if T else 9))]
@prop("P06")
def p06(tier):
    T = tier == "thorough"; i = Image("containers.c", VAL)
    return [Job("model", i, {"scen": 0, "ops": 4 if T else 3}, budget=800 if T else 200, bounds="%d operations over three names" % (4 if T else 3)), Job("shared", i, {"scen": 1}), Job("compare", i, {"scen": 2}, bounds="up to two properties each"), Job("typed", i, {"scen": 3}, bounds="contents up to 3 bytes")]
MSG = ["core/rbuscore_message.c", RM + "rtRetainable.c", RM + "rtMemory.c"]
MP = dict(engine_rt=("msgpack.c",), native_libs=("-lmsgpackc",))
@prop("P08")
def p08(tier):
    T = tier == "thorough"; i = Image("wire.c", MSG + [RM + "rtMessageHeader.c", RM + "rtEncoder.c"], **MP)
    return [Job("header", i, {"scen": 0}, bounds="all field values; topic lengths 0, 1, 5 and the two longest"), Job("headerany", i, {"scen": 1}, bounds="every header prefix with topics up to 127 bytes"), Job("headerlong", i, {"scen": 2}, bounds="every excess length, every damaged marker byte"),
            Job("fields", i, {"scen": 3, "n": 3 if T else 2}, budget=800 if T else 200, bounds="messages of %d fields" % (3 if T else 2)), Job("sizes", i, {"scen": 4}, bounds="field lengths around the encoding limits"), Job("wrong", i, {"scen": 5}), Job("any", i, {"scen": 6, "n": 6 if T else 4, "gets": 1}, budget=800 if T else 200, bounds="every message of up to %d bytes" % (6 if T else 4))]
def busfiles():
    """the component library, both sides, and the router's routing tree"""
    import glob, os
    from vp.core import REPO
    rb = sorted(os.path.relpath(f, REPO + "/src") for f in glob.glob(REPO + "/src/rbus/*.c"))
    return rb + ["core/rbuscore.c", "core/rbuscore_message.c"] + [RM + f + ".c" for f in ("rtMessage", "rtMessageHeader", "rtEncoder", "rtVector", "rtList", "rtHashMap", "rtMemory", "rtRetainable", "rtString", "rtTime", "rtSemaphore", "rtBase64", "rtThreadPool", "rtRoutingTree")]
def bus(harness, **kw): return Image(harness, busfiles(), engine_rt=("msgpack.c", "cjson.c"), native_libs=("-lmsgpackc", "-lcjson"), **kw)
@prop("P18")
def p18(tier):
    T = tier == "thorough"; i = bus("busset.c")
    return [Job("single", i, {"scen": 0}, bounds="every value of every type, contents up to 3 bytes, every error code"), Job("rights", i, {"scen": 1}, bounds="read-only, write-only, unknown and pattern names"),
            Job("multi2", i, {"scen": 2, "n": 2, "set": 8, "third": 1}, bounds="every pair out of eight parameters of three providers, any of them refusing"), Job("lost", i, {"scen": 3}, bounds="either request lost"), Job("typed", i, {"scen": 4}),
            Job("multi3", i, {"scen": 2, "n": 3, "set": 8, "third": int(T)}, budget=800 if T else 200, bounds="every triple out of eight parameters of %s providers, any of them refusing" % ("three" if T else "two"))]
@prop("P19")
def p19(tier):
    T = tier == "thorough"; i = bus("busget.c")
    return [Job("single", i, {"scen": 0}, bounds="every value of every type, contents up to 3 bytes, every error code"), Job("multi2", i, {"scen": 1, "n": 2, "set": 9, "third": 1}, bounds="every pair out of nine names over three providers, any of them refusing"),
            Job("multi3", i, {"scen": 1, "n": 3, "set": 9 if T else 5, "third": int(T)}, budget=800 if T else 200, bounds="every triple out of %d names, any of them refusing" % (9 if T else 5)), Job("lost", i, {"scen": 1, "n": 2, "set": 5, "lose": 1}, bounds="either answer lost"), Job("path", i, {"scen": 2}, bounds="eight paths over three providers, any parameter refusing"), Job("pathlost", i, {"scen": 2, "lose": 1}, bounds="any one answer lost")]
@prop("P26")
def p26(tier):
    T = tier == "thorough"; i = bus("bustable.c")
    ops = ("add", "register", "remove", "unregister")
    return [Job("order", i, {"scen": 0, "ops": 1, "order": 3}, bounds="1 operation after each of three orders of registration"), *[Job("rows_" + n, i, {"scen": 0, "ops": 3 if T else 2, "op0": k, "lean": int(T)}, budget=850 if T else 200, bounds="%d operations, the first one %s, over three row numbers and two aliases" % (3 if T else 2, n)) for k, n in enumerate(ops) if k < 2 or not T],
            *[Job("nested_" + n, i, {"scen": 0, "ops": 3 if T else 2, "nested": 1, "op0": k}, budget=850 if T else 200, bounds="%d operations on a table and the table within its first row" % (3 if T else 2)) for k, n in enumerate(ops) if k < 2], Job("nested_gone", i, {"scen": 0, "ops": 2, "nested": 1, "op0": 2, "inner0": 0}, bounds="the outer row removed, then any operation"), Job("set", i, {"scen": 1}), Job("misuse", i, {"scen": 2}, bounds="23 names that are no table or row")]

@prop("P20")
def p20(tier):
    T = tier == "thorough"; i = bus("busmethod.c")
    return [*[Job("call_%d_%d" % (a, b), i, {"scen": 0, "in": a, "out": b}, bounds="%d parameters, %d results, of every type and value" % (a, b)) for a, b in ((0, 1), (2, 1), (1, 2), (3, 3), (4, 4))],
            Job("own_error", i, {"scen": 1}), Job("names", i, {"scen": 2}, bounds="42 names"), Job("later", i, {"scen": 3, "n": 3 if T else 2}, budget=800 if T else 200, bounds="%d calls answered later, in every order" % (3 if T else 2)),
            Job("async_call", i, {"scen": 4}, bounds="two asynchronous calls, threads started or not, with and without answer, every order at blocking points"), Job("malformed", i, {"scen": 5}, bounds="every truncation of a request"), Job("bad_answer", i, {"scen": 6}, bounds="every truncation of an answer")]
@prop("P21")
def p21(tier):
    T = tier == "thorough"; i = bus("busevent.c"); B = 800 if T else 200
    return [*[Job("history_%d" % o, i, {"scen": 0, "ops": 4 if T else 3, "op0": o}, budget=B, bounds="%d operations of four subscribers to two events, then both published" % (4 if T else 3)) for o in (0, 1, 2)],
            Job("change", i, {"scen": 1, "rounds": 1}, budget=B, bounds="any change of an integer, four subscribers in any order, any comparison"), Job("bad_change", i, {"scen": 2}),
            *[Job("rows_%d" % o, i, {"scen": 3, "ops": 4 if T else 3, "op0": o, "pre": p, "on": on}, budget=B, bounds="%d row or subscription operations over two rows and five subscribers" % (4 if T else 3)) for o, p, on in ((0, 0, 18), (1, 3, 31), (2, 3, 0), (0, 1, 7))],
            Job("foreign", i, {"scen": 4, "ops": 3 if T else 2, "on": 31}, budget=B, bounds="%d operations over five subscriptions of two other processes" % (3 if T else 2)), Job("foreign_new", i, {"scen": 4, "ops": 4 if T else 3, "on": 0}, budget=B, bounds="%d operations from no subscription on" % (4 if T else 3)),
            Job("several", i, {"scen": 5, "n": 3 if T else 2}, budget=B, bounds="up to %d subscriptions at once, any of them there before, unknown or refused" % (3 if T else 2)), Job("initial", i, {"scen": 6}), Job("initials", i, {"scen": 7}, budget=B, bounds="the initial values of a property, of up to two rows and of a table, the handler ending the subscription or not"), Job("closing", i, {"scen": 8}, budget=B, bounds="an event on its way to a component which is closed, another of the same process subscribed or not")]
RT = [RM + f + ".c" for f in ("rtRoutingTree", "rtList", "rtMemory")]
@prop("P14")
def p14(tier):
    T = tier == "thorough"; i = Image("route.c", RT); B = 800 if T else 200; names = ("register", "remove", "leave")
    return [*[Job("history_%s_%s%s" % (names[a], names[b], w if w < 3 else ""), i, {"scen": 0, "ops": 4 if T and a + b > 1 else 3, "dep": 2, "op1": a, "op2": b, "who": w, "kinds": int(T or a + b > 0)}, budget=B, bounds="a registration, a %s%s and a %s, names of up to two parts of any bytes, three components; then any lookup" % (names[a], ", any operation" if T and a + b > 1 else "", names[b])) for a in range(3) for b in range(3) for w in ((0, 1, 2) if b == 0 else (3,))],
            *[Job("deep%d_%s" % (t, names[a]), i, {"scen": 1, "tree": t, "op": a, "more": int(T)}, budget=B, bounds="one of three trees of five names, a %s%s of up to three parts of any bytes, then any lookup" % (names[a], " and any operation" if T else "")) for t in range(3) for a in range(3)],
            Job("any", i, {"scen": 2, "n": 8 if T else 5}, budget=B, bounds="every name of up to %d bytes" % (8 if T else 5)), Job("parts", i, {"scen": 2, "mode": 1}, bounds="names of 30 to 35 parts"), Job("long", i, {"scen": 2, "mode": 2}, budget=B, bounds="names of 505 to 520 bytes")]
ROUTER = [RM + f + ".c" for f in ("rtrouteBase", "rtSocket", "rtRoutingTree", "rtList", "rtVector", "rtMessage", "rtMessageHeader", "rtEncoder", "rtString", "rtTime", "rtMemory", "rtRetainable", "rtBase64", "local_benchmarking")]
def router(h, **kw): return Image(h, ROUTER, engine_rt=("cjson.c",), native_libs=("-lcjson",), **kw)
@prop("P12")
def p12(tier):
    T = tier == "thorough"; i = router("router.c"); B = 800 if T else 200; ops = ("subscription", "repeated subscription", "unsubscription", "departure")
    return [*[Job("history%d" % o, i, {"scen": 0, "ops": 2, "parts": 2, "op0": o}, budget=B, bounds="a %s, one further operation, names of up to two parts of any letters; then any message" % ops[o]) for o in range(4)],
            *[Job("history%d%d" % (o, q), i, {"scen": 0, "ops": 4 if T else 3, "parts": 1 + int(T), "op0": o, "op1": q}, budget=B, bounds="a %s, a %s, %d further operations of two of three clients, names of %s any letters; then any message" % (ops[o], ops[q], 2 if T else 1, "up to two parts of" if T else "one part of")) for o in range(4) for q in range(4)],
            Job("framing", i, {"scen": 1}, budget=B, bounds="two messages of any contents, cut anywhere once"), Job("framing2", i, {"scen": 1, "cuts": 2, "two": int(T), "len": 9 if T else 2}, budget=B, bounds="%s of any contents, cut anywhere twice" % ("two messages" if T else "a message")),
            Job("advisory", i, {"scen": 2}, budget=B), *[Job("large%d" % b, i, {"scen": 3, "base": b}, budget=B, bounds="messages of %d to %d bytes" % (b + 53, b + 57)) for b in (65482, 69000, 960)]]
@prop("P13")
def p13(tier):
    T = tier == "thorough"; i = router("robust.c"); B = 800 if T else 200; TN = ("subscribe", "components", "wildcard", "elements", "owners", "diagnostics", "timing", "hello", "client", "nobody")
    HF = ("header length", "name length", "reply name length", "payload length", "first marker and version", "last marker", "all three lengths off by up to 300")
    return [*[Job("header%d" % f, i, {"scen": 0, "field": f, "top": 8}, budget=B, bounds="any %s in a header" % HF[f] if f < 6 else HF[f]) for f in range(7)], Job("stream", i, {"scen": 1, "n": 52, "hl": 52, "tl": 6 if T else 2}, budget=B, bounds="any 46 bytes after the length of a header, names of up to %d bytes or longer than allowed" % (6 if T else 2)),
            *[Job("payload_" + TN[t], i, {"scen": 2, "top": t, "n": 4 if T else 2, "reply": 99 if T or t in (0, 1, 7) else 0}, budget=B, bounds="any payload of up to %d bytes" % (4 if T else 2)) for t in range(9)],
            *[Job("fields_%s%s%d" % (TN[t], "_alt" if a else "", k), i, {"scen": 3, "top": t, "any": k, "alt": a, "reply": 0 if not T else 99}, budget=B, bounds="fields missing or of 25 values of any kind") for t, k, a in ((0, 1, 0), (0, 2, 0), (0, 2, 1), (0, 4, 0), (1, 0, 0), (2, 1, 0), (3, 1, 0), (4, 1, 0), (4, 2, 0), (4, 3, 0), (5, 1, 0), (6, 1, 0), (6, 2, 0), (6, 4, 0), (7, 1, 0), *(((5, 3, 0), (6, 3, 0), (0, 3, 0), (0, 6, 0)) if T else ()))],
            Job("diag", i, {"scen": 4, "reply": 99 if T else 0}, budget=B, bounds="every diagnostics command, arguments as above"), Job("listener", i, {"scen": 5}, budget=B, bounds="five kinds of address of 15 lengths up to 250"), *[Job("cut_" + TN[t], i, {"scen": 6, "top": t}, budget=B, bounds="a message cut anywhere, its end missing or its sender gone") for t in range(8)], Job("names", i, {"scen": 7}, budget=B, bounds="names of any one or two bytes"), Job("longnames", i, {"scen": 8}, budget=B, bounds="names of 120 to 255 bytes"), *[Job("large%d" % b, i, {"scen": 9, "base": b, "span": n}, budget=B, bounds="messages of %d to %d bytes, twice" % (b + 53, b + 54 + n)) for b, n in ((65474, 70), (960, 70), (69000, 4))]]
CONN = [RM + f + ".c" for f in ("rtConnection", "rtSocket", "rtSemaphore", "rtList", "rtMessage", "rtMessageHeader", "rtEncoder", "rtString", "rtTime", "rtMemory", "rtRetainable", "rtBase64")]
def conn(h, **kw): return Image(h, CONN, engine_rt=("cjson.c",), native_libs=("-lcjson",), **kw)
@prop("P09")
def p09(tier):
    T = tier == "thorough"; i = conn("connin.c"); B = 800 if T else 200
    HF = ("header length", "name length", "reply name length", "payload length", "marker", "flags and destination", "all three lengths off by up to 300")
    return [Job("deliver", i, {"scen": 0, "n": 2, "cuts": 1}, budget=B, bounds="two messages of any contents for any of three listeners or none, cut anywhere once"), Job("pieces", i, {"scen": 0, "n": 1, "cuts": 2, "eintr": int(T)}, budget=B, bounds="a message cut anywhere twice" + (", reads interrupted" if T else "")),
            *([Job("deliver3", i, {"scen": 0, "n": 3, "cuts": 0, "preempt": 1}, budget=B, bounds="three messages, one preemption")] if T else []), Job("switch", i, {"scen": 0, "n": 1, "cuts": 0, "preempt": 3 if T else 2}, budget=B, bounds="a message, %d preemptions" % (3 if T else 2)),
            Job("history", i, {"scen": 1, "ops": 5 if T else 4}, budget=B, bounds="%d additions, removals and messages over three listeners" % (5 if T else 4)), Job("full", i, {"scen": 2}, budget=B, bounds="up to 140 listeners"), *[Job("malformed%d" % f, i, {"scen": 3, "field": f}, budget=B, bounds="any " + HF[f] if f < 6 else HF[f]) for f in range(7)],
            Job("stream", i, {"scen": 4, "n": 30 if T else 12}, budget=B, bounds="any %d bytes" % (30 if T else 12)), *[Job("queue%d" % n, i, {"scen": 5, "more": n}, budget=B, bounds="%d messages while a listener runs" % n) for n in (24, 30)], Job("closing", i, {"scen": 6, "preempt": 3 if T else 2}, budget=B, bounds="closed with messages on their way, %d preemptions" % (3 if T else 2)), *[Job("large%d" % b, i, {"scen": 7, "base": b}, budget=B, bounds="payloads of %d to %d bytes" % (b, b + 11)) for b in (8186, 65530)]]
@prop("P10")
def p10(tier):
    T = tier == "thorough"; i = conn("connout.c"); B = 800 if T else 200; ops = ("nothing", "a message", "a request", "a new listener", "the end of a listener")
    return [*[Job("send%d" % k, i, {"scen": 0, "n": 1, "short": 1, "kind": k}, budget=B, bounds="a message of one kind, any contents, the socket taking any part of it") for k in range(6)], Job("parts", i, {"scen": 0, "n": 1, "short": 3 if T else 2, "eintr": 1, "kind": 1}, budget=B, bounds="the socket taking any part of a message %d times, writes interrupted" % (3 if T else 2)),
            Job("threads", i, {"scen": 0, "n": 4, "threads": 1, "preempt": 2 if T else 1, "kind": 1, "kind2": 1}, budget=B, bounds="two messages of each of two threads, %d preemptions" % (2 if T else 1)), *([Job("parts2", i, {"scen": 0, "n": 2, "short": 2, "kind": 1, "kind2": 1}, budget=B, bounds="two messages, the socket taking any part of them twice")] if T else []), Job("sizes", i, {"scen": 1}, budget=B, bounds="names of up to 250, payloads of up to 2700 bytes"),
            *[Job("gone_%d" % o, i, {"scen": 2, "op": o, "preempt": 2 if T else 1 if o < 1 else 0}, budget=B, bounds="the router gone before or at %s, refusing up to two connections, gone again at any of three messages%s" % (ops[o], ", %d preemptions" % (2 if T else 1) if T or o < 1 else "")) for o in range(5)], *([] if T else [Job("gone_now", i, {"scen": 2, "op": 1, "preempt": 1}, budget=B, bounds="as before with a message and one preemption")]), Job("nobody", i, {"scen": 3}, budget=B, bounds="seven addresses, up to four refusals, no socket")]
@prop("P11")
def p11(tier):
    T = tier == "thorough"; i = conn("connreq.c"); B = 850 if T else 200; A = ("the first answered", "the second answered", "one reported undeliverable", "a stray answer", "time running out", "nothing")
    return [Job("one", i, {"scen": 0, "n": 1, "acts": 3 if T else 2, "preempt": 1}, budget=B, bounds="one request, %d answers or time-outs, one preemption" % (3 if T else 2)), *[Job("two_%d" % a, i, {"scen": 0, "n": 2, "acts": 3 if T or a > 1 else 2, "preempt": int(T and a != 5), "act0": a}, budget=B, bounds="two requests of two threads, %s first, then up to %d further answers or time-outs in any order" % (A[a], 2)) for a in range(5)],
            Job("preempted", i, {"scen": 0, "n": 1, "acts": 2, "preempt": 2, "act0": 0}, budget=B, bounds="an answer and one further event, two preemptions"), Job("late", i, {"scen": 0, "n": 1, "acts": 2, "preempt": 2 if T else 1, "act0": 4}, budget=B, bounds="time running out and an answer after all"), Job("spurious", i, {"scen": 0, "n": 1, "acts": 2, "preempt": 1, "spurious": 1, "act0": 0}, budget=B, bounds="waits that end without cause"), Job("deadline", i, {"scen": 1}, budget=B, bounds="any time-out up to 100 s")]
@prop("P22")
def p22(tier):
    T = tier == "thorough"; i = bus("valuechange.c"); B = 800 if T else 200; W = ("ended", "ended and begun again", "its row going", "a set by another component", "a subscriber's process leaving", "another row coming", "another subscription", "an event of the provider", "ended and its row going", "the provider closing")
    return [*[Job("history%d%d" % (o, f), i, {"scen": 0, "ops": 3 if T else 2, "on": o, "off": f, "wide": int(T)}, budget=B, bounds="%d operations by three subscribers of two properties%s" % (3 if T else 2, ", one of which its provider publishes itself" if f else "")) for o in (0, 3, 7) for f in (0, 1)],
            *[Job("rows%d%d" % (o, p), i, {"scen": 1, "ops": 3 if T else 2, "on": o, "pre": p, "wide": int(T)}, budget=B, bounds="%d operations on two rows subscribed to by name and by wildcard" % (3 if T else 2)) for o, p in ((0, 3), (24, 1), (24, 3))], Job("rows_same", i, {"scen": 1, "ops": 3 if T else 2, "on": 24, "pre": 3, "same": 1, "wide": int(T)}, budget=B, bounds="%d operations, both subscriptions of one component" % (3 if T else 2)),
            *[Job("race%d" % o, i, {"scen": 2, "op": o, "preempt": 3 if T and o not in (1,) else 1 if o == 1 and not T else 2}, budget=B, bounds="a subscription %s while the provider polls, %d preemptions" % (W[o], 1 if o == 1 and not T else 3 if T and o != 1 else 2) if o < 2 else "%s while the provider polls, %d preemptions" % (W[o], 3 if T else 2)) for o in range(10)]]
@prop("P23")
def p23(tier):
    T = tier == "thorough"; i = bus("interval.c"); B = 800 if T else 200; W = ("ended", "ended and begun again", "its row going", "its process leaving", "ended as its duration is over", "another one beginning", "the provider closing", "two of them ended", "another row coming")
    return [*[Job("history%d_%d" % (m, o), i, {"scen": 0, "ops": n + int(T), "on": o, "subs": m}, budget=B, bounds="%d operations by %s, then two more moments" % (n + int(T), "three subscribers" if m == 7 else "two subscribers and two rows")) for o, m, n in ((0, 7, 3), (7, 7, 2), (1, 7, 3), (0, 24, 3), (24, 24, 2))],
            *[Job("lengths%d" % w, i, {"scen": 1, "who": w}, budget=B, bounds="intervals of 1 to 6 s, durations of up to three intervals and any rest") for w in (0, 2)], Job("lengths_filter", i, {"scen": 1, "who": 0, "flt": 1}, budget=B, bounds="intervals of 1 to 6 s, durations of up to three intervals and any rest, with a filter"), Job("long", i, {"scen": 1, "big": 1}, budget=B, bounds="four intervals around 2^31 and up to 2^32-1 s"), Job("refused", i, {"scen": 2}, budget=B),
            *[Job("race%d" % o, i, {"scen": 3, "op": o, "preempt": (3 if T else 2) if o not in (1, 5, 4, 7) else 2 if T else 1}, budget=B, bounds="a subscription %s while the value is told, %d preemptions" % (W[o], (3 if T else 2) if o not in (1, 5, 4, 7) else 2 if T else 1)) for o in range(9)]]
@prop("P16")
def p16(tier):
    T = tier == "thorough"; i = bus("restart.c"); B = 800 if T else 200
    return [Job("closed%d" % o, i, {"scen": 0, "on": o, "ops": 2 if T else 1}, budget=B, bounds="%d operations by six subscriptions of two clients, then the provider closed and back, with clients dead, components gone, rows late" % (2 if T else 1)) for o in (0, 5, 26, 37, 63)]
@prop("P17")
def p17(tier):
    T = tier == "thorough"; i = bus("crash.c"); B = 800 if T else 200
    return [*[Job("crashed%d" % o, i, {"scen": 1, "on": o, "ops": 2 if T else 1}, budget=B, bounds="%d operations, the last broken off after any of its changes of files and any part of a write" % (2 if T else 1)) for o in (0, 3, 20, 63)],
            *[Job("byte%d" % a, i, {"scen": 2, "on": 3, "at": a, "to": a + 34, "n": 2 if T else 1}, budget=B, bounds="any value of %s anywhere in a file of two subscriptions" % ("two adjacent bytes" if T else "any byte")) for a in range(0, 204, 34)],
            Job("cut", i, {"scen": 2, "on": 7, "cut": 1}, budget=B, bounds="a file of three subscriptions cut anywhere"), Job("raw", i, {"scen": 2, "on": 1, "raw": 1, "n": 40 if T else 20}, budget=B, bounds="any file of %d bytes" % (40 if T else 20))]

@prop("P31")
def p31(tier):
    T = tier == "thorough"; i = bus("names.c"); r = router("disc.c"); B = 800 if T else 200; K = ("elements", "odd", "rows", "providers", "component"); Q = ("components", "providers", "elements", "below"); O = ("registration", "registration of another name", "removal")
    return [*[Job("%s%d" % (K[k], p), i, {"scen": 0, "kind": k, "ops": 2 if T else 1, "pre": p}, budget=B, bounds="up to three rows of two tables, %d of them coming or going, then any question%s" % (2 if T else 1, " with any depth" if k == 0 else "")) for k in range(5) for p in ((0, 3, 5, 7) if k < 3 else (5,))], Job("unanswered", i, {"scen": 1}, bounds="a question nobody answers"),
            *[Job("router_%s%d" % (Q[q], o), r, {"q": q, "op0": o, "ops": 3 if T else 2}, budget=B, bounds="a %s and %d further operation(s) of two of three clients, names of up to two parts of any letters; then any question" % (O[o], 2 if T else 1)) for q in range(4) for o in range(3)]]
@prop("P07")
def p07(tier):
    T = tier == "thorough"; i = bus("life.c"); B = 850 if T else 200; W = ("reads a third", "subscribes to a third", "ends its subscription to a third", "is told an event of a third", "opens", "closes", "reads the one closing", "ends its subscription to the one closing", "withdraws an element", "calls a method")
    M = (("events", 511, 2), ("changes", 511 << 9, 2), ("intervals", 0b101010001 << 18, 2), ("mixed", 0b001100010 << 18 | 0b010001100 << 9 | 0b100010001, 1))
    return [*[Job("%s%d%s" % (n, f, "_kept" if k else ""), i, {"scen": 0, "subs": m, "ops": o + int(T), "first": f, "keep": k}, budget=B, bounds="three components which subscribe to each other's %s; %d of them close or open again in any order, %s" % (n, o + int(T), "subscriptions to what has closed are kept" if k else "subscriptions to what has closed are ended")) for n, m, o in M for f in range(3) for k in ((0, 1) if n != "intervals" else (0,))],
            *[Job("race%d" % o, i, {"scen": 1, "op": o, "preempt": 2 if T else 1}, budget=B, bounds="one component closes while another %s, %d preemption(s)" % (W[o], 2 if T else 1)) for o in range(10)],
            Job("refused", i, {"scen": 2}, budget=B, bounds="the connection, or one of the registrations, is refused, with and without others open"), Job("full", i, {"scen": 3}, budget=B, bounds="17 components, any one of them closed")]
@prop("P30")
def p30(tier):
    T = tier == "thorough"; q = bus("breq.c"); a = bus("bans.c"); B = 850 if T else 200; K = ("get", "set", "names", "add_row", "remove_row", "subscribe", "unsubscribe", "invoke", "open_direct", "close_direct", "get_below", "commit", "attributes")
    O = ("get", "get_several", "get_below", "set", "set_several", "invoke", "add_row", "remove_row", "rows", "elements", "subscribe", "subscription", "typed", "subscribe_now", "announce", "components")
    F = ((0, 0, 4, {}), *((1, l, 3, {}) for l in (0, 3, 6, 9)), (2, 0, 3, {}), (2, 0, 3, {"rows": 1}), (3, 0, 3, {}), (4, 0, 2, {}), (5, 0, 5, {}), (5, 5, 5, {}), (5, 0, 4, {"filter": 1}), (5, 4, 4, {"filter": 1}), (5, 8, 6, {"filter": 1, "publish": 1}), (5, 4, 3, {"filter": 1, "refuse": 1}), (6, 0, 5, {}), (6, 5, 5, {}), (7, 0, 5, {}), (7, 5, 5, {}), (7, 10, 6, {}), (8, 0, 4, {}), (8, 0, 4, {"tcp": 1}), (9, 0, 2, {}), (10, 0, 3, {}), (11, 0, 2, {}), (12, 0, 2, {}))
    R = [(k, l, 10, {"filter": 1} if k == 5 else {}) for k in range(13) for l in range(0, 170 if k in (1, 5, 7) else 100, 10)] if T else [(k, l, 5, {"filter": 1} if k == 5 else {}) for k, l in ((0, 0), (1, 16), (5, 44), (7, 24), (7, 64))]
    A = [(o, l, 10) for o in range(14) for l in range(0, 110, 10)] if T else [(o, 0, 7 if o in (5, 9, 13) else 10) for o in (0, 1, 2, 5, 8, 9, 10, 13)]
    return [*[Job("field_%s%d%s" % (K[k], l, "".join(e)), q, {"kind": k, "lo": l, "n": n, **e}, budget=B, bounds="one of %d fields of the request missing with all after it, of another kind, or of other contents" % n) for k, l, n, e in F],
            *[Job("byte_%s%d" % (K[k], l), q, {"scen": 1, "kind": k, "lo": l, "n": n, **e}, budget=B, bounds="any value of any of %d bytes of the request" % n) for k, l, n, e in R],
            *[Job("cut_%s" % K[k], q, {"scen": 2, "kind": k, "n": 180}, budget=B, bounds="the request cut anywhere") for k in (range(13) if T else (1, 7))],
            *[Job("answer_%s%d" % (O[o], l), a, {"op": o, "lo": l, "n": n}, budget=B, bounds="any value of any of %d bytes of the answer" % n) for o, l, n in A],
            *[Job("answer_cut_%s" % O[o], a, {"scen": 1, "op": o, "n": 120}, budget=B, bounds="the answer cut anywhere") for o in (range(14) if T else (0, 1, 5, 8, 9, 13))],
            *[Job("count_%s" % O[o], a, {"scen": 2, "op": o}, budget=B, bounds="the router's count of names 0, 1, 2, 3, -1 or 1000 instead") for o in (2, 4, 8, 9, 15)],
            *[Job("event%d" % l, a, {"scen": 3, "lo": l, "n": 10 if T else 6}, budget=B, bounds="any value of any of %d bytes of an event" % (10 if T else 6) + "") for l in (range(0, 100, 10) if T else (0, 6, 12, 30))], Job("event_cut", a, {"scen": 4, "n": 120}, budget=B, bounds="an event cut anywhere")]
@prop("P24")
def p24(tier):
    T = tier == "thorough"; i = bus("async.c"); B = 850 if T else 200; W = ("ended", "closed", "begun_again", "another")
    return [Job("history", i, {"scen": 0, "ops": 3 if T else 2}, budget=B, bounds="%d operations on any of four subscriptions" % (3 if T else 2)), Job("history_two", i, {"scen": 0, "ops": 5 if T else 4, "subs": 2, "few": 1}, budget=B, bounds="%d operations on any of two subscriptions" % (5 if T else 4)), Job("history_leaving", i, {"scen": 0, "ops": 2, "leave": 1}, budget=B, bounds="two operations; the callback tries to end its subscription"),
            Job("closing", i, {"scen": 1}, budget=B, bounds="any of four subscriptions pending, tried already or not"), Job("several", i, {"scen": 3}, budget=B, bounds="three subscriptions begun at once, one of which may be there already"),
            *[Job("race_%s%s" % (W[a], "_leaving" if l else ""), i, {"scen": 2, "act": a, "leave": l, "preempt": 2 if T else 1}, budget=B, bounds="%d preemptions" % (2 if T else 1)) for a in range(4) for l in (0, 1)]]
@prop("P25")
def p25(tier):
    T = tier == "thorough"; i = bus("sess.c"); B = 850 if T else 200
    return [Job("history", i, {"scen": 0, "ops": 3 if T else 2}, budget=B, bounds="%d operations by two clients: beginning, asking, ending, ending another or in a malformed way" % (3 if T else 2)), Job("answers", i, {"scen": 1}, budget=B, bounds="any answer of another manager with or without a result and a session, of the right or another kind; or none")]
