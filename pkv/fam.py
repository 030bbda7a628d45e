"""Enumerated scenario families. Each takes (t, rnd): t is True for the thorough tier. The expected
outcomes are never written here: they come from the specification."""
from .base import *
import itertools, json

U64 = 1 << 64
MDS = ("min", "full")

def chunks(l, n):
    for i in range(0, len(l), n): yield l[i:i + n]

# ---------------------------------------------------------------- CONNECT and ACK, byte by byte

def states_for_C(md):
    """(name, pin, operations before, operations after) where a CONNECT may arrive"""
    r = [("n0", 0, [], ["c"]), ("n0p", 2, [], ["c"]), ("o", 0, [con()], ["c"]), ("op", 2, [con()], ["c"]),
         ("aside", 0, [con(), rd(A())], ["c"]), ("acked", 2, [con(), rd(A())], ["c"])]
    return r

def flips_connect(t, rnd):
    out = []
    n_full = 16 + 70 + 64
    for md in MDS:
        for name, pin, pre, post in states_for_C(md):
            body = 16 if md == "full" else 11
            size = n_full + body
            soft = [i for i in range(18, size) if not 50 <= i < 54]
            hard = list(range(0, 18)) + list(range(50, 54))
            if not t and name not in ("n0", "op", "aside"):
                soft = rnd.sample(soft, 40)
            vals = [1, 2, 4, 8, 16, 32, 64, 128, 255] if t else [None]
            for v in vals:
                for ci, ch in enumerate(chunks(soft, 60)):
                    ops = [new(pin=pin, md=md)] + pre
                    for off in ch:
                        x = v if v else rnd.choice([1, 2, 4, 8, 16, 32, 64, 128, 255])
                        ops.append(rd(C(d=5, lv=0, p=[P("post", "xor", off, x)]), rej=True))
                    ops += complete(md)
                    out.append(S("flipC-%s-%s-%s-%d" % (md, name, v, ci), ops, True))
            if name in ("n0", "op", "aside") or t:
                for off in hard:
                    x = rnd.choice([1, 2, 16, 128, 255])
                    out.append(S("flipCh-%s-%s-%d" % (md, name, off),
                                 [new(pin=pin, md=md)] + pre + [rd(C(d=5, lv=0, p=[P("post", "xor", off, x)]))] + probes(md)))
    return out

def flips_ack(t, rnd):
    out = []
    for md in MDS:
        body = 16 if md == "full" else 11
        size = 16 + 34 + body + 64
        for name, pin, pre in [("known", 0, [con(), rd(C())]), ("pinned", 2, [con()]), ("acked", 0, [con(), rd(C()), ack()])]:
            soft = list(range(18, size))
            hard = list(range(0, 18))
            vals = [1, 2, 4, 8, 16, 32, 64, 128, 255] if t else [None]
            for v in vals:
                for ci, ch in enumerate(chunks(soft, 60)):
                    ops = [new(pin=pin, md=md)] + pre
                    for off in ch:
                        x = v if v else rnd.choice([1, 2, 4, 8, 16, 32, 64, 128, 255])
                        ops.append(rd(A(lv=0, p=[P("post", "xor", off, x)]), rej=True))
                    ops += complete(md)
                    out.append(S("flipA-%s-%s-%s-%d" % (md, name, v, ci), ops, True))
            for off in hard:
                out.append(S("flipAh-%s-%s-%d" % (md, name, off),
                             [new(pin=pin, md=md)] + pre + [rd(A(lv=0, p=[P("post", "xor", off, rnd.choice([1, 2, 128]))]))] + probes(md)))
        # set aside: the signature can only be judged when the CONNECT arrives
        offs = list(range(50, size))
        if not t: offs = rnd.sample(offs[:body], 4) + offs[body::4] + [size - 1]
        for off in offs:
            ops = [new(md=md), con(), rd(A(lv=0, p=[P("post", "xor", off, rnd.choice([1, 64, 128, 255]))])), rd(C())] + md_tk(md)
            out.append(S("flipAs-%s-%d" % (md, off), ops + complete(md)))
    return out

def resize_nego(t, rnd):
    """truncated, extended, and with bytes inserted or removed"""
    out = []
    for md in MDS:
        b = 16 if md == "full" else 11
        for kind in "CA":
            size = (16 + 70 + b + 64) if kind == "C" else (16 + 34 + b + 64)
            mk = (lambda p, **k: C(p=p, lv=0, **k)) if kind == "C" else (lambda p, **k: A(p=p, lv=0, **k))
            pre = [new(md=md, pin=0), con()] + ([rd(C())] if kind == "A" else [])
            # cut inside the signature: rejected without consequence
            ops = list(pre)
            for n in range(size - 64, size): ops.append(rd(mk([P("post", "trunc", n)]), rej=True))
            ops += [rd(mk([P("post", "app", 0, [rnd.randrange(256) for _ in range(k)])]), rej=True) for k in (1, 2, 31, 32, 64, 100)]
            ops += [rd(mk([P("post", "ins", o, rnd.randrange(256))]), rej=True) for o in range(size - 64, size + 1, 1 if t else 7)]
            ops += [rd(mk([P("post", "del", o)]), rej=True) for o in range(size - 64, size, 1 if t else 5)]
            out.append(S("sizeS-%s-%s" % (md, kind), ops + complete(md), True))
            lens = range(0, size - 64) if t else sorted(set(list(range(0, 20)) + [24, 26, 33, 34, 35, 49, 50, 51, 53, 54, 55, 70, 85, 86, 87, size - 66, size - 65]))
            for n in lens:
                out.append(S("sizeT-%s-%s-%d" % (md, kind, n), pre + [rd(mk([P("post", "trunc", n)]))] + probes(md)[:9]))
            for o in (range(0, size - 64) if t else rnd.sample(range(0, size - 64), 8)):
                for k in ("ins", "del"):
                    out.append(S("sizeI-%s-%s-%s-%d" % (md, kind, k, o), pre + [rd(mk([P("post", k, o, 7)]))] + complete(md)))
    return out

LENS = [0, 1, 2, 3, 8, 9, 10, 11, 20, 33, 34, 35, 36, 37, 38, 44, 45, 46, 47, 48, 69, 70, 71, 80, 81, 82, 83, 84, 85, 100, 108, 109, 110, 111,
        112, 144, 145, 146, 147, 160, 161, 200, 255, 256, 1 << 16, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 63) - 1, 1 << 63, U64 - 100, U64 - 34, U64 - 33,
        U64 - 32, U64 - 18, U64 - 17, U64 - 16, U64 - 15, U64 - 2, U64 - 1]

def headers(t, rnd):
    """header fields set to other values by a peer that signs, hashes and encrypts properly"""
    out = []
    for md in MDS:
        for kind in "CAU":
            pre = {"C": [new(md=md), con()], "A": [new(md=md), con(), rd(C())], "U": ready(md)}[kind]
            mk = {"C": lambda p: C(p=p), "A": lambda p: A(p=p), "U": lambda p: U(0, 31, p=p)}[kind]
            muts = []
            for n in LENS if t else rnd.sample(LENS[:36], 14) + LENS[36:]:
                muts.append(("len%d" % n, [P("pre", "set", 8, be(n, 8))]))
            for v in (0, 2, 3, 256, 1 << 16, 1 << 24, (1 << 24) + 1, 0x80000001, 0xFFFFFFFF):
                muts.append(("ver%d" % v, [P("pre", "set", 4, be(v, 4))]))
            for v in [x for x in (0, 1, 2, 3, 4, 5, 6, 7, 8, 16, 127, 255, 256, 257, 258, 512, 0x7fff, 0x8001, 0xffff)]:
                muts.append(("typ%d" % v, [P("pre", "set", 16, be(v, 2))]))
            for o in range(4):
                muts.append(("mag%d" % o, [P("pre", "xor", o, 1 << rnd.randrange(8))]))
            if kind == "C":
                for v in (1, 2, 255, 256, 1 << 16, 1 << 24, 0x80000000, 0xFFFFFFFF):
                    muts.append(("alg%d" % v, [P("pre", "set", 50, be(v, 4))]))
            if kind == "U":
                for n in range(0, 26): muts.append(("cut%d" % n, [P("pre", "trunc", n)]))
            else:
                for n in range(0, 86, 1 if t else 3): muts.append(("cut%d" % n, [P("pre", "trunc", n)]))
            for nm, p in muts:
                m = mk(p)
                out.append(S("hdr-%s-%s-%s" % (md, kind, nm), pre + [rd(m)] + (probes(md)[:8] if kind != "U" else probes(md)[2:8])))
                if kind == "U" and nm.startswith("cut"):
                    m = dict(m, hs="none")
                    out.append(S("hdrn-%s-%s-%s" % (md, kind, nm), pre + [rd(m)] + probes(md)[2:8]))
    return out

def envelope(t, rnd):
    """encrypted negotiation messages, user messages in clear, undecryptable bytes, in every state"""
    out = []
    for md in MDS:
        sts = [("n", [new(md=md)]), ("o", [new(md=md), con()]), ("oC", [new(md=md), con(), rd(C())]), ("oCi", [new(md=md), con(), rd(C()), ack()]),
               ("oCiU", [new(md=md), con(), rd(C()), ack(), rd(U(0))]), ("oCA", [new(md=md), con(), rd(C()), rd(A())] + md_dr(md)), ("S", ready(md)), ("Sc", ready(md) + [cl()]),
               ("F", [new(md=md), con(), wr(d=70)])]
        for sn, pre in sts:
            keyed = "C" in sn or sn.startswith("S")
            ms = [("clear", U(0, 31, clear="y")), ("clear1", U(5, 31, clear="y", hs="bad")), ("clearnohash", U(0, 31, clear="y", hs="none")), ("empty", {"raw_bytes": ""})]
            ms += [("r%d" % n, {"rand": n, "rs": n}) for n in (1, 2, 3, 4, 5, 8, 15, 16, 17, 18, 20, 32, 80)]
            ms += [("m%d" % n, {"raw_bytes": "e2c2e2d2" + "00" * n}) for n in (0, 1, 3, 4, 8, 12, 13, 14, 20, 80)]
            if len(pre) > 1:
                ms += [("foreign", U(0, 31, e="e2")), ("encC", C(enc=["e1", "of:A"])), ("encA", A(enc=["e1", "of:A"])), ("encC2", C(3, "e2", enc=["e1", "of:A"])),
                       ("selfenc", U(0, 31, lv=0, p=[P("wire", "cuthead", 4)])), ("tagcut", U(0, 31, lv=0, p=[P("wire", "trunc", -1)])), ("tag", U(0, 31, lv=0, p=[P("wire", "xor", -1, 1)])),
                       ("tagonly", U(0, 31, lv=0, p=[P("wire", "trunc", 16)])), ("app", U(0, 31, lv=0, p=[P("wire", "app", 0, [0])])), ("short", U(0, 31, lv=0, p=[P("wire", "trunc", 5)])),
                       ("magicpre", U(0, 31, lv=0, p=[P("wire", "ins", 0, 0xd2), P("wire", "ins", 0, 0xe2), P("wire", "ins", 0, 0xc2), P("wire", "ins", 0, 0xe2)]))]
            for nm, m in ms:
                out.append(S("env-%s-%s-%s" % (md, sn, nm), pre + [rd(m)] + probes(md)[:9]))
    return out

def flips_user(t, rnd):
    """encrypted messages altered on the way, and altered before encryption by the peer"""
    out = []
    for md in MDS:
        b = 16 if md == "full" else 11
        size = 26 + b + 32 + 16
        for off in (range(size) if t else sorted(set(list(range(0, 8)) + rnd.sample(range(size), 14) + list(range(size - 16, size, 5))))):
            out.append(S("flipU-%s-%d" % (md, off), ready(md) + exchange(k=1) + [rd(U(1, 31, lv=0, p=[P("wire", "xor", off, rnd.choice([1, 4, 128, 255]))]))] + probes(md)[2:9]))
        for n in (range(size) if t else sorted(set(rnd.sample(range(size), 8) + [0, 1, 3, 4, 15, 16, 17]))):
            out.append(S("cutU-%s-%d" % (md, n), ready(md) + [rd(U(0, 31, lv=0, p=[P("wire", "trunc", n)]))] + probes(md)[2:9]))
        # content or hash altered under a valid tag: refused, nothing changes
        ops = ready(md)
        for off in list(range(26, 26 + b + 32)): ops.append(rd(U(0, 31, lv=0, p=[P("post", "xor", off, rnd.choice([1, 2, 16, 128]))]), rej=True))
        for n in range(26 + b, 26 + b + 32): ops.append(rd(U(0, 31, lv=0, p=[P("post", "trunc", n)]), rej=True))
        ops += [rd(U(0, 31, lv=0, p=[P("post", "app", 0, [1] * k)]), rej=True) for k in (1, 2, 32)]
        ops += [rd(U(3, 32, hs="bad", hx=k), rej=True) for k in range(32)]
        ops += [rd(U(0)), rd(U(3)), rd(U(1))] + exchange(n=4)
        for ci, ch in enumerate(chunks(ops[5:-7 - 0], 45)):
            out.append(S("hashU-%s-%d" % (md, ci), ready(md) + ch + [rd(U(0)), rd(U(3)), rd(U(1))] + exchange(n=4), True))
        # the number altered, hash recomputed or not
        for off in range(18, 26):
            out.append(S("numU-%s-%d" % (md, off), ready(md) + [rd(U(0, 31, lv=0, p=[P("pre", "xor", off, 1 << rnd.randrange(8))])), rd(U(0, 32)), rd(U(0, 33, lv=0, p=[P("post", "xor", off, 1)]), rej=True)] + exchange(n=1), False))
        # held while the negotiation is not complete
        for k, m in enumerate([U(1, 31, hs="bad"), U(1, 31, hs="none"), U(1, 31, lv=0, p=[P("post", "xor", 30, 1)]), U(1, 31, lv=0, p=[P("post", "app", 0, [9])])]):
            for order in ([0, "b", 1], ["b", 0, 2], [0, 2, "b", 1], ["b"], ["b", 1], [1, "b", 0, 0]):
                ops = [new(md=md), con(), rd(C()), ack()] + [rd(m) if x == "b" else rd(U(x)) for x in order] + [rd(A())] + md_dr(md)
                ops += [rd(U(1)), rd(U(2)), rd(U(3)), rd(U(0))] + exchange(n=4)
                out.append(S("heldU-%s-%d-%s" % (md, k, "".join(map(str, order))), ops))
    return out

# ---------------------------------------------------------------- identities

def pins(t, rnd):
    out = []
    for md in MDS:
        bits = range(256) if t else [8 * i + rnd.randrange(8) for i in range(32)]
        vs = [{"pk": 2, "flip": b} for b in bits] + [{"pk": 2, "cut": n} for n in ([0, 1, 16, 31] if not t else range(32))] + [{"pk": 2, "ext": n} for n in (1, 32)] + [1, 3]
        for i, v in enumerate(vs):
            ops = [new(pin=v, md=md), con(), rd(C()), rd(A()), rd(C(3, "e2")), ack(), rd(A(3)), cl(), wr()]
            out.append(S("pin-%s-%d" % (md, i), ops))
        for order in NEGO_ORDERS:
            # strangers at every point
            base = nego(md, order=order)
            for j in range(len(base) + 1):
                known = any(o["op"] == "con" for o in base[:j])
                bad = [rd(C(3, "e2", 6), rej=True)] + ([rd(A(3, d=12), rej=True)] if known else []) + [rd(C(3, "e1", pk=2), rej=True), rd(C(2, "e2", pk=3), rej=True), rd(C(2, "e2", 8, sig="bad"), rej=True)]
                if known: bad += [rd(A(3, d=0), rej=True), rd(A(2, sig="bad"), rej=True), rd(A(2, ch="e2"), rej=True), rd(A(2, sig="zero"), rej=True), rd(A(2, sig="none"), rej=True)]
                out.append(S("strg-%s-%s-%d" % (md, order, j), [new(pin=2, md=md)] + base[:j] + bad + base[j:] + exchange() + [cl()], True))
            # no pin: the first proven identity counts, never an unproven one
            for j in range(len(base) + 1):
                known = any(o["op"] == "con" for o in base[:j])
                seenA = any(o["op"] == "rd" and o["m"]["t"] == "A" for o in base[:j])
                seenC = any(o["op"] == "rd" and o["m"]["t"] == "C" for o in base[:j])
                bad = [rd(C(3, "e2", pk=5), rej=True), rd(C(3, "e2", sig="bad"), rej=True), rd(C(4, "e2", sig="zero"), rej=True), rd(C(4, "e2", sig="none"), rej=True)]
                if seenC: bad += [rd(C(3, "e2", 6), rej=True), rd(A(3, d=12), rej=True), rd(A(2, sig="bad"), rej=True)]
                out.append(S("noid-%s-%s-%d" % (md, order, j), [new(md=md)] + base[:j] + bad + base[j:] + exchange() + [cl()], True))
        # a set-aside ACK of somebody else
        for m in (A(3), A(3, d=0), A(2, sig="bad"), A(2, sig="zero"), A(2, sig="none"), A(2, sig="short"), A(3, sig="bad"), A(1)):
            for who in (2, 3):
                ops = [new(md=md), con(), rd(m), rd(C(who, "e1"))] + md_tk(md) + [ack(), rd(A(who))] + md_dr(md) + exchange()
                out.append(S("aside-%s-%d-%d" % (md, len(out), who), ops))
                out.append(S("aside2-%s-%d-%d" % (md, len(out), who), [new(md=md), con(), rd(m), rd(C(who, "e2", sig="bad"), rej=True), rd(C(who, "e1"))] + md_tk(md) + [rd(A(who)), ack()] + md_dr(md) + exchange()))
        ops = [new(md=md), con(), rd(A()), rd(A(3))] + probes(md)
        out.append(S("aside3-%s" % md, ops))
        # own identity on the other side, and every identity
        for who in (1, 2, 3, 4, 5, 6):
            for pin in (0, who):
                ops = [new(me=1, pin=pin, md=md), con(), rd(C(who, "e%d" % who, 5)), ack(), rd(A(who))] + md_dr(md) + exchange(e="e%d" % who)
                out.append(S("who-%s-%d-%d" % (md, who, pin), ops))
    return out

PERMS = ["rev", "not", "sort", "case", "top"] + ["rot%d" % i for i in (1, 2, 8, 16, 31)] + ["words%d" % i for i in (1, 2, 4, 8)] + ["%s%d" % (k, i) for k in ("swap", "pair", "sum") for i in range(0, 32, 3)] \
    + ["head%d" % i for i in (1, 2, 4, 8, 15, 16, 17, 24, 30, 31)] + ["tail%d" % i for i in (1, 2, 4, 8, 15, 16, 17, 24, 30, 31)] + ["hole%d" % i for i in (0, 7, 16, 31)] \
    + ["zero%d" % i for i in (0, 1, 16, 31)] + ["fill%d" % i for i in (0, 1, 255)] + ["neg%d" % i for i in range(0, 32, 5)]
PERMS64 = ["rev", "not", "sort", "words4", "words8", "words16", "words32", "rot32", "rot1"] + ["%s%d" % (k, i) for k in ("swap", "pair", "sum") for i in (0, 1, 7, 30, 31, 32, 40, 62, 63)] + ["head32", "tail32", "zero32", "fill0"]

def permuted(t, rnd):
    """expected keys, adopted keys, challenges, hashes, tags and signatures whose bytes are rearranged or altered so that differences cancel"""
    out = []
    perm = lambda at, off, n, k: [{"at": at, "k": "perm", "off": off, "n": n, "v": k}]
    for md in MDS:
        for i, k in enumerate(PERMS):
            out.append(S("permP-%s-%d" % (md, i), [new(pin={"pk": 2, "perm": k}, md=md), con(), rd(C()), rd(A()), rd(C(3, "e2")), ack(), rd(A(3)), cl(), wr()]))
        pk = [C(2, "e2", 8, p=perm("pre", 54, 32, k)) for k in PERMS]
        ch = [A(p=perm("pre", 18, 32, k)) for k in PERMS]
        sgC = [C(2, "e1", 5, p=perm("post", -64, 64, k)) for k in PERMS64]
        sgA = [A(p=perm("post", -64, 64, k)) for k in PERMS64]
        epk = [C(2, "e1", 5, p=perm("post", 18, 32, k)) for k in PERMS]
        hsh = [U(0, 31, p=perm("post", -32, 32, k)) for k in PERMS]
        num = [U(0, 31, p=perm("post", 18, 8, k)) for k in PERMS if not k.startswith(("zero", "fill0", "head", "tail"))]
        tag = [U(0, 31, p=perm("wire", -16, 16, k)) for k in PERMS]
        R = ready(md)
        # (state, operations before, messages, expected identity)
        plan = [("pkp", [], pk, 2), ("pkn", [], pk, 0), ("pkC", [con(), rd(C())], pk, 0), ("pkA", [con(), rd(A())], pk, 2),
                ("chn", [con()], ch, 0), ("chp", [con()], ch, 2), ("chC", [con(), rd(C())], ch, 0), ("chU", [con(), rd(C()), ack(), rd(U(1))], ch, 0), ("chx", [con(), rd(A())], ch, 0),
                ("sgn", [], sgC, 0), ("sgp", [con()], sgC, 2), ("sgx", [con(), rd(A())], sgC, 0), ("sgA", [con(), rd(C())], sgA, 0), ("sgAp", [con()], sgA, 2), ("sgAi", [con(), rd(C()), ack()], sgA, 0),
                ("epn", [con()], epk, 0), ("epp", [], epk, 2)]
        for nm, pre, ms, pin in plan:
            if not t and md == "full": ms = rnd.sample(ms, len(ms) // 2)
            out.append(S("perm-%s-%s" % (md, nm), [new(md=md, pin=pin)] + pre + [rd(m, rej=True) for m in ms] + complete(md), True))
        # set aside, judged with the CONNECT
        for k in PERMS64 if t else rnd.sample(PERMS64, 12):
            out.append(S("permX-%s-%s" % (md, k), [new(md=md), con(), rd(A(p=perm("post", -64, 64, k))), rd(C())] + md_tk(md) + complete(md)))
        for nm, ms in (("hash", hsh), ("num", num)):
            out.append(S("perm-%s-%s" % (md, nm), R + [rd(U(1))] + [rd(m, rej=True) for m in ms] + [rd(U(0)), rd(U(2))] + exchange(n=3), True))
            out.append(S("permC-%s-%s" % (md, nm), R + [rd(U(1)), cl()] + [rd(m, h, rej=True) for m in rnd.sample(ms, 10) for h in ("A", "A2")] + [rd(U(0)), rd(U(0), "A2"), rd(U(2))] + exchange(n=3), True))
        for k in PERMS if t else rnd.sample(PERMS, 24):
            out.append(S("permT-%s-%s" % (md, k), R + [rd(U(1)), rd(rnd.choice(tag) if False else U(0, 31, p=perm("wire", -16, 16, k)))] + probes(md)[2:9]))
        # held while the negotiation is not complete
        for k in PERMS if t else rnd.sample(PERMS, 8):
            out.append(S("permH-%s-%s" % (md, k), [new(md=md), con(), rd(C()), ack(), rd(U(1)), rd(U(0, 31, p=perm("post", -32, 32, k))), rd(U(2)), rd(A())] + md_dr(md) + [rd(U(0)), rd(U(3))] + exchange(n=4)))
        # numbers that are rearrangements of each other
        for rep in range(12 if t else 4):
            a = rnd.sample(range(1, 250), 3)
            ns = [int.from_bytes(bytes(rnd.sample(a + [0] * 5, 8)), "big") for _ in range(14)]
            ops = R + [rd(U(0))]
            for j, n in enumerate(ns): ops.append(rd(ustr(n, 7000 + j)))
            for j, n in enumerate(ns): ops.append(rd(ustr(n, 7000 + j)))
            out.append(S("permN-%s-%d" % (md, rep), ops + [rd(U(1)), rd(U(2)), wr()]))
    return out

def challenges(t, rnd):
    out = []
    for md in MDS:
        for nm, pin, pre in [("n", 0, [con()]), ("np", 2, [con()]), ("C", 0, [con(), rd(C())]), ("CU", 0, [con(), rd(C()), ack(), rd(U(0))]), ("aside", 0, [con(), rd(A())]), ("S", 0, nego(md)), ("F", 0, [con(), wr()])]:
            bits = list(range(256))
            if not t and nm not in ("n", "C"): bits = rnd.sample(bits, 40)
            for ci, ch in enumerate(chunks(bits, 64)):
                ops = [new(pin=pin, md=md)] + pre + [rd(A(chx=x), rej=True) for x in ch]
                ops += [rd(A(ch="e1"), rej=True), rd(A(ch="e2"), rej=True), rd(A(ch="rand"), rej=True)]
                out.append(S("chal-%s-%s-%d" % (md, nm, ci), ops + complete(md), True))
        # a prefix of the challenge, or an empty one, signed by the peer
        for nm, pre in [("n", [new(md=md), con()]), ("C", [new(md=md), con(), rd(C())])]:
            for n in range(0, 32, 1 if t else 5):
                for ln in (2 + n, 34):
                    out.append(S("chalp-%s-%s-%d-%d" % (md, nm, n, ln), pre + [rd(A(d=0, p=[P("pre", "trunc", 18 + n), P("pre", "set", 8, be(ln, 8))]))] + probes(md)[:9]))
        # a challenge that starts right but is another value
        ops = [new(md=md), con(), rd(C())] + [rd(A(p=[P("pre", "set", k, [0] * (50 - k))]), rej=True) for k in range(18, 50, 1 if t else 3)]
        out.append(S("chalz-%s" % md, ops + complete(md), True))
        # another session of the same two peers
        ops = [new("A", 1, 2, md), new("B", 1, 2, md), con("A"), con("B"), rd(C(2, "e1"), "A"), rd(C(2, "e2"), "B"), ack("A"), ack("B"),
               rd(A(2, "B"), "A", rej=True), rd(A(2, "A"), "B", rej=True), rd(A(2, "A"), "A")] + md_dr(md, "A") + [rd(A(2, "B"), "B")] + md_dr(md, "B")
        out.append(S("chals-%s" % md, ops + exchange("A", "e1") + exchange("B", "e2"), True))
    return out

# ---------------------------------------------------------------- sessions, keys

def keys(t, rnd):
    out = []
    for md in MDS:
        for side in "<>":
            for rep in range(12 if t else 3):
                e = "e%d%s" % (rep, side)
                for order in ("oCiA", "oACi", "oCAi"):
                    ops = [new(md=md)] + nego(md, e=e, order=order) + exchange(e=e, k=3)
                    out.append(S("side-%s-%s-%d-%s" % (md, order, rep, side), ops))
            # keys that only differ beyond the first byte
            for rep in range(6 if t else 2):
                e = "e%d=%s" % (rep, side)
                out.append(S("sideq-%s-%d-%s" % (md, rep, side), [new(md=md)] + nego(md, e=e, order=NEGO_ORDERS[rep]) + exchange(e=e, k=2)))
        for low in range(9):
            for nm, pre in [("n", []), ("o", [con()]), ("oA", [con(), rd(A())])]:
                for pin in (0, 2):
                    if nm == "oA" and pin == 2: continue
                    ops = [new(md=md, pin=pin)] + pre + [rd(C(2, "low%d" % low))] + md_tk(md) + [ack(), con(), rd(A()) if nm != "n" else con(), wr(), cl(), rd(C()), ack(), wr(), cl()]
                    out.append(S("low-%s-%s-%d-%d" % (md, nm, low, pin), ops))
        # sessions between the same real peers; nothing crosses
        for k in range(6 if t else 2):
            ops = []
            for s in "12":
                a, c = "A" + s, "B" + s
                ops += [new(a, 1, 2, md), new(c, 2, 1, md), con(a, o="c" + a), con(c, o="c" + c), rd(W("c" + c), a), rd(W("c" + a), c), ack(a, o="a" + a), ack(c, o="a" + c)]
            # acks of the other session are refused
            ops += [rd(W("aB2"), "A1", rej=True), rd(W("aA1"), "B2", rej=True)]
            for s in "12":
                a, c = "A" + s, "B" + s
                ops += [rd(W("a" + c), a), rd(W("a" + a), c)] + md_dr(md, a) + md_dr(md, c)
                ops += [wr(a, 300 + int(s), "u" + a), wr(c, 310 + int(s), "u" + c)]
            ops += [rd(W("uB1"), "A1"), rd(W("uA1"), "B1"), rd(W("uB2"), "A2")]
            cross = [("uB2", "A1"), ("uA2", "B1"), ("uA1", "A2"), ("uA1", "B2")][k % 4]
            ops += [rd(W(cross[0]), cross[1])] + [wr(cross[1], 330), cl(cross[1], "Z")]
            out.append(S("sess-%s-%d" % (md, k), ops, True))
        # many layers: each with a key of its own
        ops = []
        for i in range(60 if t else 12): ops += [new("h%d" % i, 1, 0, md), con("h%d" % i, 3)]
        for i in range(0, 12): ops += [rd(C(2, "e1"), "h%d" % i), ack("h%d" % i), rd(A(2, "h%d" % i) if False else {"t": "A", "by": 2, "ch": "of:h%d" % i, "d": 11}, "h%d" % i)] + md_dr(md, "h%d" % i) + [wr("h%d" % i, 400 + i)]
        ops += [rd(U(0, 500 + i, "e1", "h%d" % i), "h%d" % i) for i in range(12)]
        ops += [rd(U(0, 600 + i, "e1", "h%d" % ((i + 1) % 12)), "h%d" % i) for i in range(12)]
        out.append(S("many-%s" % md, ops))
    return out

# ---------------------------------------------------------------- numbers

NUMS = [0, 1, 2, 3, 254, 255, 256, 257, 65534, 65535, 65536, 65537, (1 << 24) - 1, 1 << 24, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, (1 << 32) - 1, 1 << 32,
        (1 << 32) + 1, (1 << 53), (1 << 53) + 1, (1 << 63) - 1, 1 << 63, (1 << 63) + 1, U64 - 3, U64 - 2, U64 - 1]

def ustr(n, d, **k):
    m = U(0, d, **k); m["n"] = str(n); return m

def numbers(t, rnd):
    out = []
    for md in MDS:
        for rep in range(20 if t else 4):
            ns = list(NUMS); rnd.shuffle(ns)
            ops = ready(md, order=NEGO_ORDERS[rep % 6])
            for i, n in enumerate(ns):
                ops.append(rd(ustr(n, 1000 + i)))
                if rnd.random() < 0.6:
                    k = rnd.randrange(i + 1)
                    ops.append(rd(ustr(ns[k], 1000 + k), rej=True))
                if rnd.random() < 0.2: ops.append(wr(d=2000 + i))
            ops += [rd(ustr(n, 1000 + i), rej=True) for i, n in enumerate(ns)]
            ops += [cl()] + [rd(ustr(n, 1000 + i), "A2", rej=True) for i, n in enumerate(ns) if i % 3 == 0]
            out.append(S("num-%s-%d" % (md, rep), ops, rep % 2 == 0))
        # held before the ACK, with large numbers
        for rep in range(6 if t else 2):
            ns = rnd.sample(NUMS, 8)
            ops = [new(md=md), con(), rd(C()), ack()] + [rd(ustr(n, 1000 + i)) for i, n in enumerate(ns)] + [rd(ustr(ns[0], 1000)), rd(A())] + md_dr(md)
            ops += [rd(ustr(n, 1000 + i), rej=True) for i, n in enumerate(ns)]
            out.append(S("numh-%s-%d" % (md, rep), ops))
        # permutations of small numbers with duplicates
        perms = list(itertools.permutations(range(4 if not t else 5)))
        for rep, p in enumerate(perms):
            ops = ready(md)
            for i, n in enumerate(p):
                ops.append(rd(U(n)))
                ops.append(rd(U(p[rep % (i + 1)]), rej=True))
            ops += [rd(U(n), rej=True) for n in p] + [rd(U(len(p))), wr()]
            out.append(S("perm-%s-%s" % (md, "".join(map(str, p))), ops, rep % 3 == 0))
            early = rep % (len(p) + 1)
            ops = [new(md=md), con(), rd(C()), ack()]
            for n in p[:early]: ops += [rd(U(n))] + ([rd(U(n))] if (rep + n) % 3 == 0 else [])
            ops += [rd(A())] + md_dr(md) + [rd(U(n)) for n in p[early:]] + [rd(U(n), rej=True) for n in p] + [rd(U(len(p)))]
            out.append(S("permh-%s-%s" % (md, "".join(map(str, p))), ops))
        # long random windows
        for rep in range(12 if t else 3):
            n = 400 if t else 120
            ns = list(range(n))
            w = [1, 5, 20, 60][rep % 4]
            ns.sort(key=lambda x: x + rnd.random() * w)
            ops = ready(md)
            for i, k in enumerate(ns):
                ops.append(rd(U(k, 3000 + k)))
                if rnd.random() < 0.15:
                    q = rnd.choice(ns[:i + 1]); ops.append(rd(U(q, 3000 + q), rej=True))
            out.append(S("win-%s-%d" % (md, rep), ops + [rd(U(n, 3000 + n)), rd(U(0, 3000), rej=True)], False))
        # our own numbering: wraps of a byte
        ops = ready(md) + [wr(d=5000 + i) for i in range(300 if t else 260)]
        out.append(S("sent-%s" % md, ops))
    return out

def bulks(t, rnd):
    out = []
    for md in (MDS if t else ("min", "full")):
        R = ready(md)
        H = [new(md=md), con(), rd(C()), ack()]
        D = [rd(A())] + md_dr(md)
        sc = {
            "fill": R + [bulk(1, 10000), rd(U(5, 1000005), rej=True), rd(U(10001)), rd(U(0))] + probes(md)[2:6],
            "fill2": R + [bulk(2, 10001), rd(U(0)), rd(U(0), rej=True), rd(U(20000))] + probes(md)[2:6],
            "refill": R + [bulk(1, 10000), rd(U(0)), rd(U(10000, 1010000), rej=True), bulk(10002, 20001), rd(U(30000))] + probes(md)[2:6],
            "refill2": R + [bulk(1, 10000), rd(U(0)), bulk(10002, 20001), rd(U(10001)), rd(U(20002)), bulk(20004, 30003), rd(U(30005))],
            "stride": R + [bulk(1, 19999, 2), rd(U(0)), rd(U(40000)), rd(U(40001)), rd(U(2)), rd(U(2), rej=True)],
            "stride2": R + [bulk(1, 19999, 2), rd(U(0)), rd(U(2)), rd(U(4)), rd(U(40000)), rd(U(40001)), rd(U(40002)), rd(U(40003)), rd(U(6))],
            "dups": R + [bulk(1, 9999), bulk(1, 9999), rd(U(1, 1000001), rej=True), rd(U(10000)), rd(U(10001))],
            "gap": R + [bulk(1, 5000), bulk(5002, 10001), rd(U(0)), bulk(20000, 24999), rd(U(50000)), rd(U(5001))],
            "order": R + [bulk(0, 12000), rd(U(12001)), rd(U(0, 1000000), rej=True), bulk(12003, 22002), rd(U(22003))],
            "held": H + [bulk(0, 9999)] + D + [rd(U(10000)), rd(U(0, 1000000), rej=True), wr()],
            "heldover": H + [bulk(0, 9999), rd(U(10000))] + D + [wr(), rd(U(10001))],
            "heldgap": H + [bulk(1, 10000)] + D + [rd(U(0)), rd(U(10001)), bulk(10003, 20002), rd(U(20003))],
            "heldgap2": H + [bulk(1, 9999)] + D + [rd(U(10001)), rd(U(10002))] + probes(md)[2:5],
            "heldstride": H + [bulk(1, 19999, 2)] + D + [rd(U(0)), rd(U(30000)), rd(U(30001))],
            "clone": R + [bulk(1, 10000), cl(), rd(U(10001), "A2"), rd(U(0)), rd(U(20000))],
            "clone2": R + [bulk(1, 9999), cl(), rd(U(0), "A2"), bulk(10001, 20000, h="A2"), rd(U(20001), "A2"), rd(U(10001)), rd(U(10002))],
        }
        names = list(sc) if t else (["fill", "refill", "stride2", "gap", "held", "heldover", "heldgap", "clone2"] if md == "min" else ["dups", "refill2", "stride", "heldgap2", "held", "clone"])
        for n in names: out.append(S("bulk-%s-%s" % (md, n), sc[n]))
    return out

# ---------------------------------------------------------------- contents

SIZES = [0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 18, 31, 32, 33, 47, 48, 49, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4000, 4095, 4096, 4097,
         8000, 8100, 8117, 8118, 8119, 8133, 8134, 8135, 8150, 8166, 8167, 8190, 8191, 8192, 8193, 8194, 12000, 16383, 16384, 16385, 32767, 32768, 40000, 65534, 65535, 65536, 65537, 70000]

def cont(c, n, kind): return {"c": c, "len": n, "kind": kind}

def contents(t, rnd):
    out = []
    kinds = ["rand", "zero", "text", "magic"]
    sizes = SIZES + [100000, 131072, 200000]
    if t: sizes += [262144, 500000, 1000000, 3000000]
    cfgs = [None, {"lv": 0, "ms": 0}, {"lv": 1, "ms": 0}, {"lv": 6, "ms": 512}, {"lv": 9, "ms": 8192}, {"lv": 9, "ms": 0}, {"lv": 5, "ms": 1 << 40}]
    cid = 100000
    for md in MDS:
        pool = [(n, k) for n in sizes for k in kinds]
        rnd.shuffle(pool)
        if not t: pool = sorted(pool[:90] + [(n, "rand") for n in (0, 1, 8118, 8192, 65536)])
        rnd.shuffle(pool)
        for gi, grp in enumerate(chunks(pool, 10)):
            c1, c2 = rnd.choice(cfgs), rnd.choice(cfgs)
            ops = [new("A", 1, 2, md, c1), new("B", 2, 0, md, c2), con("A", 0, "cA"), con("B", 1, "cB"), rd(W("cB"), "A"), rd(W("cA"), "B"), ack("A", 1, "aA"), ack("B", 0, "aB"), rd(W("aB"), "A"), rd(W("aA"), "B")] + md_dr(md, "A") + md_dr(md, "B")
            for i, (n, k) in enumerate(grp):
                cid += 2
                if i % 4 == 3: ops.append(cfg(rnd.choice([c for c in cfgs if c]), rnd.choice("AB")))
                ops += [wr("A", cont(cid, n, k), "u%d" % i), rd(W("u%d" % i), "B"), wr("B", cont(cid + 1, n + 1, k), "v%d" % i), rd(W("v%d" % i), "A")]
            out.append(S("cont-%s-%d" % (md, gi), ops))
        # reference peer: what is on the wire, and content compressed otherwise
        for gi, grp in enumerate(chunks(pool[:60 if t else 30], 6)):
            ops = ready(md, cfg=rnd.choice(cfgs))
            for i, (n, k) in enumerate(grp):
                cid += 2
                ops += [wr(d=cont(cid, n, k)), rd(dict(U(i, 0), d=cont(cid + 1, n, k), lv=rnd.choice([0, 1, 6, 9])))]
                if i == 3: ops.append(cfg(rnd.choice([c for c in cfgs if c])))
            out.append(S("contr-%s-%d" % (md, gi), ops))
        # custom data of CONNECT and ACK
        cs = [(n, k) for n in sizes if n <= 70000 for k in kinds]
        rnd.shuffle(cs)
        for gi in range(0, 80 if t else 14, 2):
            cid += 4
            d = [cont(cid + j, *cs[(2 * gi + j) % len(cs)]) for j in range(4)]
            if gi % 6 == 0: d[0], d[1] = 0, 1
            if gi % 6 == 2: d[2], d[3] = 1, 0
            ops = [new("A", 1, 2, md, rnd.choice(cfgs)), new("B", 2, 0, md, rnd.choice(cfgs)), con("A", d[0], "cA"), con("B", d[1], "cB"), cfg(rnd.choice([c for c in cfgs if c]), "A"), rd(W("cB"), "A"), rd(W("cA"), "B"),
                   ack("A", d[2], "aA"), ack("B", d[3], "aB"), rd(W("aB"), "A"), rd(W("aA"), "B")] + md_dr(md, "A") + md_dr(md, "B") + [wr("A", 7000, "u"), rd(W("u"), "B")]
            out.append(S("cust-%s-%d" % (md, gi), ops))
            ops = [new(md=md, cfg=rnd.choice(cfgs)), con(d=d[0]), rd(C(d=d[1])), ack(d=d[2]), rd(A(d=d[3]))] + md_dr(md) + exchange(k=1)
            out.append(S("custr-%s-%d" % (md, gi), ops))
    # early messages of several sizes, released together
    for gi in range(10 if t else 3):
        for md in MDS:
            grp = rnd.sample([(n, k) for n in SIZES for k in kinds], 8)
            cid += 20
            ops = [new(md=md), con(d=0), rd(C(d=1)), ack(d=1)] + [rd(dict(U(i, 0), d=cont(cid + i, n, k))) for i, (n, k) in enumerate(grp)] + [rd(A(d=cont(cid + 10, *grp[0])))] + md_dr(md) + exchange(n=8)
            out.append(S("conth-%s-%d" % (md, gi), ops))
    # contents that are no deflate streams
    for i, h in enumerate(["ff", "00", "0300", "03", "4b", "010000ffff" + "00", "e2c2e2d2", "63", "636000"]):
        for st, pre in [("S", ready("full")), ("H", [new(md="full"), con(), rd(C()), ack()])]:
            m = dict(U(0, 0), d={"c": 99000 + i, "kind": "hex", "hex": h}, raw=1)
            out.append(S("nodef-%s-%d" % (st, i), pre + [rd(m), rd(U(1))] + ([rd(A())] if st == "H" else []) + [rd(U(2)), wr()]))
        out.append(S("nodefC-%d" % i, [new(md="full"), con(), rd(dict(C(), d={"c": 99000 + i, "kind": "hex", "hex": h}, raw=1)), ack(), rd(A()), wr()]))
        out.append(S("nodefA-%d" % i, [new(md="full"), con(), rd(C()), ack(), rd(dict(A(), d={"c": 99000 + i, "kind": "hex", "hex": h}, raw=1)), wr(), rd(U(0))]))
    return out

FMS = ["raw", "text", "json", "cbor", "bin"]

def typed(t, rnd):
    out = []
    md = "full"
    i = 0
    for fa in FMS:
        for fb in FMS:
            for rep in range(3 if t else 1):
                i += 1
                cA, cB = {"fm": fa, "lv": rnd.choice([0, 1, 9]), "ms": rnd.choice([0, 50, 8192])}, {"fm": fb}
                ops = [new("A", 1, 2, md, cA), new("B", 2, 0, md, cB)]
                tt = [rnd.randrange(0, 6) for _ in range(6)]
                if rep == 0: tt[0] = i % 2 * (1 + i % 5)
                ops += [tw("C", tt[0], "A", "cA"), tw("C", tt[1], "B", "cB")]
                # a refused typed CONNECT is replaced by a binary one
                ops += [con("A", 0, "cA2"), con("B", 0, "cB2")]
                for x, y in (("cB", "A"), ("cB2", "A"), ("cA", "B"), ("cA2", "B")): ops.append(rd(W(x), y, "tr"))
                ops += [tw("A", tt[2], "A", "aA"), tw("A", tt[3], "B", "aB"), ack("A", 0, "aA2"), ack("B", 0, "aB2")]
                for x, y in (("aB", "A"), ("aB2", "A"), ("aA", "B"), ("aA2", "B")): ops.append(rd(W(x), y, "tr"))
                for k in range(5):
                    ops += [tw("U", k, "A", "u%d" % k), rd(W("u%d" % k), "B", "tr"), tw("U", k + 5, "B", "v%d" % k), rd(W("v%d" % k), "A", "tr")]
                out.append(S("ty-%s-%s-%d" % (fa, fb, rep), ops))
        # the format is the one configured when the message is written
        ops = ready(md, cfg={"fm": fa})
        for k, f in enumerate(FMS + [fa]):
            ops += [cfg({"fm": f}), tw("U", 10 + k), rd(dict(U(k, 0), tv={"fm": 2 + k % 3, "t": 20 + k}), op="tr")]
        out.append(S("tyc-%s" % fa, ops))
        # typed before it is allowed
        for k in "CAU":
            out.append(S("tye-%s-%s" % (fa, k), [new(md=md, cfg={"fm": fa}), tw(k, 1), tw(k, 0), tw("C", 1), tw("C", 2), con(), rd(C(d=0)), tw("A", 2), tw("A", 3), ack(), rd(A(d=0)), tw("U", 4), wr(d=9400)]))
        out.append(S("tyk-%s" % fa, ready(md, cfg={"fm": fa}) + [cl(), tw("C", 1, "A2"), tw("A", 1, "A2"), tw("U", 3, "A2"), tw("U", 4), cfg({"fm": "json"}, "A2")] + [rd(dict(U(0, 0), tv={"fm": 3, "t": 5}), "A2", "tr")]))
    # what a peer announces and sends
    for st in ("U", "C", "A", "H"):
        for fm in [0, 1, 2, 3, 4, 5, 6, 255, 256, 0x02000000, 0x80000002, 0xFFFFFFFF]:
            for enc in ([0, 1, 2, 3, 4] if t else [fm if fm < 5 else 2, rnd.choice([0, 2, 3, 4])]):
                for p in ([[]] + ([[P("body", "trunc", n)] for n in range(0, 9)] if fm in (2, 3, 4) else [[P("body", "trunc", 4)]]) + ([[P("body", "app", 0, [0x7d])], [P("body", "xor", 6, 1)], [P("body", "xor", 4, 0x20)], [P("body", "trunc", -1)]] if fm in (2, 3, 4) else [])):
                    if not t and p and p[0]["k"] == "trunc" and rnd.random() < 0.5: continue
                    tv = {"fm": fm, "enc": enc, "t": 1 + rnd.randrange(5), "p": p}
                    i += 1
                    if st == "U": ops = ready(md) + [rd(dict(U(0, 0), tv=tv), op="tr"), rd(dict(U(1, 0), tv={"fm": 2, "t": 7}), op="tr")]
                    elif st == "C": ops = [new(md=md), con(), rd(dict(C(), tv=tv), op="tr"), ack(), rd(A(d=0), op="tr"), wr()]
                    elif st == "A": ops = [new(md=md), con(), rd(C(d=0)), ack(), rd(dict(A(), tv=tv), op="tr"), wr(), rd(dict(U(0, 0), tv={"fm": 3, "t": 7}), op="tr")]
                    else: ops = [new(md=md), con(), rd(C(d=0)), ack(), rd(dict(U(0, 0), tv=tv)), rd(dict(U(1, 0), tv={"fm": 4, "t": 8})), rd(A(d=0), op="tr"), wr()]
                    out.append(S("tyr-%s-%d-%d-%d" % (st, fm, enc, i), ops))
        # contents written with the _bin functions, read typed
        for d in (0, 1, 5, {"c": 98000, "len": 2, "kind": "rand"}, {"c": 98001, "len": 3, "kind": "zero"}, {"c": 98002, "len": 4, "kind": "zero"}, {"c": 98003, "len": 100, "kind": "rand"}):
            i += 1
            if st == "U": ops = ready(md) + [rd(dict(U(0), d=d), op="tr"), rd(dict(U(1, 0), tv={"fm": 2, "t": 7}), op="tr")]
            elif st == "C": ops = [new(md=md), con(), rd(C(d=d), op="tr"), ack(), rd(A(d=0), op="tr"), wr()]
            elif st == "A": ops = [new(md=md), con(), rd(C(d=0), op="tr"), ack(), rd(A(d=d), op="tr"), wr()]
            else: continue
            out.append(S("tyb-%s-%d" % (st, i), ops))
    # a typed value among values of other formats, released together
    for rep in range(20 if t else 6):
        ops = [new(md=md), con(), rd(dict(A(), tv={"fm": 2 + rep % 3, "t": 3}), op="tr"), rd(dict(C(), tv={"fm": 2 + (rep + 1) % 3, "t": 4}), op="tr"), ack()] + exchange(k=0)
        ops += [rd(dict(U(0, 0), tv={"fm": 4, "t": 9}), op="tr"), tw("U", 1)]
        out.append(S("tya-%d" % rep, ops))
        ops = [new(md=md), con(), rd(C(d=0), op="tr"), ack()] + [rd(dict(U(k, 0), tv={"fm": 2 + rnd.randrange(3), "t": 10 + k}), op="tr") for k in rnd.sample(range(5), 5)] + [rd(dict(A(), tv={"fm": 3, "t": 4}), op="tr")]
        out.append(S("tyh-%d" % rep, ops))
    return out

# types of driver/src/ctx.rs: values 1000 * type + variant
TYPES = {0: [1, 2, 3, 4, 5, 6, 7, 8, 9, 10], 3: [3000], **{k: [1000 * k + j for j in range(8)] for k in (1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13)}}

def typedvals(t, rnd):
    """values of every type, written and read in every format, between layers and with the independent peer"""
    out = []
    vals = [v for k in TYPES for v in TYPES[k]]
    for fi, fm in enumerate(("json", "cbor", "bin")):
        for rep in range(4 if t else 1):
            rnd.shuffle(vals)
            for gi, grp in enumerate(chunks(vals, 16)):
                cA = {"fm": fm, "lv": rnd.choice([0, 1, 9]), "ms": rnd.choice([0, 20, 8192])}
                first, second, rest = grp[0], grp[1], grp[2:]
                third = rest[0]
                ops = [new("A", 1, 2, "full", cA), new("B", 2, 0, "full", {"fm": rnd.choice(FMS)})]
                ops += [tw("C", first, "A", "cA"), con("A", 0, "cA2"), con("B", 0, "cB")]
                # a value that cannot be written is replaced by an absent one
                ops += [dict(rd(W("cA"), "B", "tr"), ty=first // 1000), rd(W("cB"), "A")] if not (fm == "json" and 12000 < first < 13000) else [rd(W("cA2"), "B"), rd(W("cB"), "A")]
                ops += [tw("A", second, "A", "aA"), ack("A", 0, "aA2"), ack("B", 0, "aB")]
                ops += [dict(rd(W("aA"), "B", "tr"), ty=second // 1000) if not (fm == "json" and 12000 < second < 13000) else rd(W("aA2"), "B"), rd(W("aB"), "A")]
                k = 0
                for v in rest:
                    k += 1
                    ops += [tw("U", v, "A", "u%d" % k), dict(rd(W("u%d" % k), "B", "tr"), ty=v // 1000)]
                out.append(S("tv-%s-%d-%d" % (fm, rep, gi), ops))
                ops = ready("full", cfg=cA)
                n = 0
                for v in grp:
                    if rnd.random() < 0.3: ops.append(cfg({"fm": rnd.choice(FMS)}))
                    ops.append(tw("U", v))
                    if not (fm == "json" and 12000 < v < 13000):
                        ops.append(dict(rd(dict(U(n, 0), tv={"fm": 2 + fi, "t": v}), op="tr"), ty=v // 1000)); n += 1
                out.append(S("tvr-%s-%d-%d" % (fm, rep, gi), ops))
                # read as another type: the outcome is what the format's own library says
                ops = ready("full")
                for n, v in enumerate(grp):
                    if fm == "json" and 12000 < v < 13000: v = 1001
                    p = rnd.choice([[], [], [P("body", "trunc", -1)], [P("body", "app", 0, [rnd.choice([0, 0x20, 0x7d, 0xf6])])], [P("body", "trunc", 4)]])
                    ops.append(dict(rd(dict(U(n, 0), tv={"fm": 2 + fi, "t": v, "p": p}), op="tr"), ty=rnd.choice(list(TYPES)) if rnd.random() < 0.6 else v // 1000))
                out.append(S("tvx-%s-%d-%d" % (fm, rep, gi), ops))
    return out

def formats(t, rnd):
    """every value in every format read with every configured format: the announced one counts"""
    out = []
    vals = [v for k in TYPES for v in TYPES[k]]
    for fi, fm in enumerate(("json", "cbor", "bin")):
        for rf in FMS:
            l = list(vals); rnd.shuffle(l)
            for gi, grp in enumerate(chunks(l, 30)):
                ops = [new(md="full", cfg={"fm": rf})]
                ops += nego("full")
                for n, v in enumerate(grp):
                    if fm == "json" and 12000 < v < 13000: v = 5000 + n % 8
                    ops.append(dict(rd(dict(U(n, 0), tv={"fm": 2 + fi, "t": v}), op="tr"), ty=v // 1000))
                out.append(S("fmt-%s-%s-%d" % (fm, rf, gi), ops))
            for gi in range(14):
                # held until the negotiation is complete
                vs = [x for x in TYPES[gi] if not (fm == "json" and 12000 < x < 13000)]
                if vs:
                    vs = rnd.sample(vs, min(5, len(vs)))
                    ops = [new(md="full", cfg={"fm": rf}), con(), rd(C(d=0)), ack()] + [dict(rd(dict(U(n, 0), tv={"fm": 2 + fi, "t": x}), op="tr"), ty=gi) for n, x in enumerate(vs)]
                    out.append(S("fmtH-%s-%s-%d" % (fm, rf, gi), ops + [dict(rd(A(d=0), op="tr"), ty=gi), wr()]))
                v, w = TYPES[gi][-1 if rnd.random() < 0.5 else rnd.randrange(len(TYPES[gi]))], rnd.choice(vals)
                if fm == "json" and 12000 < v < 13000: v = 5001
                if fm == "json" and 12000 < w < 13000: w = 5002
                ops = [new(md="full", pin=2, cfg={"fm": rf}), con()]
                a, c = dict(rd(dict(A(), tv={"fm": 2 + fi, "t": v}), op="tr"), ty=v // 1000), dict(rd(dict(C(), tv={"fm": 2 + fi, "t": w}), op="tr"), ty=w // 1000)
                ops += [a, c] if gi % 2 else [c, a]
                ops += [ack(), wr()]
                out.append(S("fmtN-%s-%s-%d" % (fm, rf, gi), ops))
    return out

# ---------------------------------------------------------------- clones and configuration

def clones(t, rnd):
    out = []
    for md in MDS:
        for rep in range(60 if t else 14):
            order = NEGO_ORDERS[rep % 6]
            ops = [new(md=md)] + nego(md, order=order)
            live = ["A"]
            n = {"A": 0}
            k = 0
            nums = list(range(12))
            for s in range(26):
                h = rnd.choice(live)
                x = rnd.random()
                if x < 0.45:
                    q = rnd.choice(nums)
                    ops.append(rd(U(q), h, rej=False))
                elif x < 0.65: k += 1; ops.append(wr(h, 6000 + 100 * rep + k))
                elif x < 0.78 and len(live) < 6:
                    to = "K%d" % len(live); ops.append(cl(h, to)); live.append(to)
                elif x < 0.84: ops.append(cfg({"lv": rnd.randrange(10), "ms": rnd.randrange(300), "fm": rnd.choice(FMS)}, h))
                elif x < 0.88: ops.append(rnd.choice([con, ack])(h))
                elif x < 0.92: ops.append(rd(U(rnd.choice(nums), 65, hs="bad"), h, rej=True))
                elif x < 0.95: ops.append(rd(C(3, "e2"), h) if h == "A" else rd(U(rnd.choice(nums)), h))
                elif x < 0.97: ops.append(rd(U(0, 66, e="e2", of="A"), h)); live = [l for l in live if l != h] or ["A"]
            for h in live: ops += [wr(h, 6900 + live.index(h)), rd(U(12), h), rd(U(rnd.choice(nums)), h)]
            out.append(dict(S("clone-%s-%d" % (md, rep), ops), solo=1))
        # a failed original does not take its clones with it, and the other way round
        for bad in (rd(U(0, 66, e="e2")), rd({"rand": 50}), rd({"rand": 2}), rd(U(0, 33, clear="y"))):
            for who, other in (("A", "A2"), ("A2", "A")):
                b2 = dict(bad, h=who)
                out.append(S("clonef-%s-%s-%d" % (md, who, len(out)), ready(md) + [rd(U(1)), cl(), b2, wr(who), wr(other), rd(U(0), other), rd(U(1), other), rd(U(0), who), cl(who, "Z1"), cl(other, "Z2"), wr("Z2"), rd(U(2), "Z2"), rd(U(2), other)]))
        # a negotiation message reaching a clone
        for m in (C(), C(3, "e2"), C(2, "e2"), A(), A(3), A(ch="e2")):
            out.append(S("clonem-%s-%d" % (md, len(out)), ready(md) + [cl(), rd(m, "A2"), wr("A2"), rd(U(0), "A2"), rd(C(), "A2"), rd(A(), "A2"), ack("A2"), con("A2"), rd(U(0)), wr()]))
        # configuration in every state
        seqs = [[], [con()], [con(), rd(C())], [con(), rd(C()), ack()], [con(), rd(C()), ack(), rd(U(1))], [con(), rd(A())], nego(md), [con(), wr()], [rd(C()), con()], nego(md) + [cl()], nego(md) + [cl(), rd({"rand": 50})]]
        for i, s in enumerate(seqs):
            out.append(S("cfg-%s-%d" % (md, i), [new(md=md)] + s + [cfg({"lv": 9, "ms": 0, "fm": "json"}), cl(to="Q"), cfg({"lv": 1, "ms": 10, "fm": "cbor"}), cfg({"lv": 0}, "Q")] + complete(md) + [cfg({"fm": "bin"})]))
        for i in range(len(nego(md))):
            ops = nego(md)
            out.append(S("cfgn-%s-%d" % (md, i), [new(md=md)] + ops[:i] + [cfg({"lv": 9, "ms": 0, "fm": "json"})] + ops[i:] + exchange() + [cl(), cfg({"lv": 1})] + exchange(n=2, d=9100)))
    return out

# ---------------------------------------------------------------- every order with every kind of custom data

def orders(t, rnd):
    """honest negotiations: absent, empty, short and long custom data and user messages, in every order"""
    out = []
    big = [cont(120000 + n, n, "rand") for n in (4000, 4096, 5000, 8192, 20000, 66000)]
    for md in MDS:
        i = 0
        for order in NEGO_ORDERS:
            for pin in (0, 2):
                for dA in (0, 1, 11, "b"):
                    for dC in (0, 1, 5, "b") if t or dA != 11 else (5,):
                        i += 1
                        bC, bA, b1, b2 = (big[(i + k) % 6] for k in range(4))
                        ops = [new(md=md, pin=pin)] + nego(md, order=order, pin=pin, dC=bC if dC == "b" else dC, dA=bA if dA == "b" else dA, d1=b1 if i % 4 == 0 else dA if dA != "b" else 0, d2=b2 if i % 5 == 0 else dC if dC != "b" else 1)
                        ops += exchange(k=1) + [cl(), wr("A2", 9008), rd(U(1, 9058), "A2")]
                        out.append(S("ord-%s-%s-%d-%d" % (md, order, pin, i), ops))
        # held user messages: none, empty, short, long
        for rep, seq in enumerate([[0], [1], [0, 1], [1, 0], [2, 0, 1], [3, 1, 2, 0], [0, 0, 1], [2, 2, 0, 1, 1]]):
            for ds in ([1], [1, 5], [5, 1, "b"], ["b"]):
                msgs = []
                for k, n in enumerate(seq):
                    d = ds[n % len(ds)]
                    msgs.append(rd(dict(U(n), d=big[n % 6] if d == "b" else 1 if d == 1 else 200 + n)))
                ops = [new(md=md), con(), rd(C()), ack()] + msgs + [rd(A(d=rep % 3))] + md_dr(md) + [rd(U(n), rej=True) for n in sorted(set(seq))] + exchange(n=len(set(seq)))
                out.append(S("ordh-%s-%d-%d" % (md, rep, len(out)), ops))
    return out

def large(t, rnd):
    """contents longer than 2^24 bytes, both ways (the length field has 64 bits)"""
    out = []
    for md in MDS:
        n = (1 << 24) + 5000 + rnd.randrange(1000)
        c0 = {"lv": 0, "ms": 0}
        out.append(S("large-%s" % md, ready(md, cfg=c0) + [wr(d=cont(130000, n, "rand")), rd(dict(U(0), d=cont(130001, n + 1, "rand"), lv=0)), wr(d=9001), rd(U(1))]))
        if t: out.append(S("largen-%s" % md, [new(md=md, cfg=c0), con(d=cont(130002, n, "rand")), rd(C(d=cont(130003, n, "rand"), lv=0)), ack(d=cont(130004, n, "text")), rd(A(d=cont(130005, n, "zero"), lv=0))] + md_dr(md) + exchange()))
    return out

def tamper(t, rnd):
    """one byte far inside a long message altered: under a valid tag, before the hash or the signature, or on the wire"""
    out = []
    for md in MDS:
        for kind in "UWCA":
            for si, size in enumerate((1200, 9000, 70000, 300000) if t else (9000, 140000)):
                d = cont(131000 + si, size, "rand")
                pos = {x for k in range(7, 20) for x in ((1 << k) - 1, 1 << k, (1 << k) + 1, (1 << k) + 50)} | {size // 2, size - 1, size + 20} | {rnd.randrange(100, size) for _ in range(8)}
                pos = sorted(x for x in pos if 100 < x < size + 25)
                if not t: pos = sorted(rnd.sample(pos[:-4], min(len(pos) - 4, 14)) + pos[-4:])
                v = lambda: 1 << rnd.randrange(8)
                if kind == "U":   ops, end = ready(md), [rd(U(0, d=d, lv=0)), rd(U(1))] + exchange(n=2)
                elif kind == "W": ops, end = ready(md), [rd(U(0, d=d, lv=0)), rd(U(1))] + exchange(n=2)
                elif kind == "C": ops, end = [new(md=md), con()], [rd(C(d=d, lv=0)), ack(), rd(A())] + md_dr(md) + exchange()
                else:             ops, end = [new(md=md), con(), rd(C()), ack()], [rd(A(d=d, lv=0))] + md_dr(md) + exchange()
                mk = {"U": lambda x: U(0, d=d, lv=0, p=[P("post", "xor", x, v())]), "W": lambda x: U(0, d=d, lv=0, p=[P("wire", "xor", x, v())]),
                      "C": lambda x: C(d=d, lv=0, p=[P("post", "xor", x, v())]), "A": lambda x: A(d=d, lv=0, p=[P("post", "xor", x, v())])}[kind]
                if kind == "W": pos = rnd.sample(pos, 5)   # the layer is given up at the first one
                for ci, ch in enumerate(chunks(pos, 1 if kind == "W" else 9)):
                    out.append(S("tmp%s-%s-%d-%d" % (kind, md, size, ci), ops + [rd(mk(x), rej=True) if kind != "W" else rd(mk(x)) for x in ch] + end, ci == 0 and not t and kind != "W"))
        # hash or signature of a part of the message only
        for size in (11, 300, 9000, 140000) if t else (300, 140000):
            d = cont(131010, size, "rand")
            parts = [(0, 1 << k) for k in range(0, 18)] + [(0, -1), (1, None), (4, None), (8, None), (16, None), (18, None), (26, None), (0, 0), (0, -size), (0, -16), (0, 18), (0, 26), (0, 50), (0, 86)]
            parts += [(0, rnd.randrange(1, size)), (rnd.randrange(1, size), None)]
            parts = [x for x in parts if (x[1] or 0) < size + 18]
            for kind in "UCA":
                ks = [dict({"fr": a}, **({} if b is None else {"to": b})) for a, b in parts]
                pre = ready(md) if kind == "U" else [new(md=md), con()] + ([rd(C()), ack()] if kind == "A" else [])
                bad = [rd({"U": lambda k: U(0, d=d, lv=0, hs="part", **k), "C": lambda k: C(d=d, lv=0, sig="part", **k), "A": lambda k: A(d=d, lv=0, sig="part", **k)}[kind](k), rej=True) for k in ks]
                end = {"U": [rd(U(0, d=d)), wr(), rd(U(1))], "C": [rd(C(d=d)), ack(), rd(A())] + md_dr(md) + exchange(), "A": [rd(A(d=d))] + md_dr(md) + exchange()}[kind]
                out.append(S("tmpP%s-%s-%d" % (kind, md, size), pre + bad + end, size == 300))
    return out

def reconnect(t, rnd):
    """the peer starts again in the middle of a negotiation: same identity, another ephemeral key; nothing
    of one session may serve the other"""
    out = []
    for md in MDS:
        for order in NEGO_ORDERS:
            for pin in (0, 2):
                base = nego(md, order=order, pin=pin)
                for j in range(len(base) + 1):
                    if not any(o["op"] == "rd" and o["m"]["t"] == "C" for o in base[:j]): continue
                    for v in ("2", "21", "1"):
                        again = [rd(C(2, "e2" if x == "2" else "e1", 6)) for x in v]
                        mid = [ack(d=9600)]
                        us = [rd(U(0, 90, e="e1")), rd(U(0, 91, e="e2")), rd(U(1, 92, e="e1")), rd(U(1, 93, e="e2"))]
                        tail = [rd(A(2, d=13)), ack(d=9601), wr(d=9602), cl()] + md_tk(md) + md_dr(md)
                        pre = us if (j + len(v)) % 2 else []
                        out.append(S("rec-%s-%s-%d-%d-%s" % (md, order, pin, j, v), [new(md=md, pin=pin)] + base[:j] + again + mid + pre + base[j:] + us + tail + us))
    return out if t else [s for k, s in enumerate(out) if k % 3 == 0 or "-oCiA-" in s["id"]]

# ---------------------------------------------------------------- writers

def sinks(t, rnd):
    out = []
    al = [1, 3, 50, -1, 0, -2, -3]
    scripts = [[]] + [[a] for a in al] + [[a, b] for a in al for b in al] + [[a, b, c] for a in al for b in al for c in al]
    scripts += [[1] * 60, [-1] * 5, [1, -1] * 30, [7] * 40, [100, 1], [-1, 100, -1, 20, -1], [1] * 20 + [-2], [1] * 20 + [0], [1] * 20 + [-3], [2, -1, 3, -1, -2], [1] * 150, [149], [149, -2], [90, 0], [120, -1, -2]]
    caps = [0, 1, 2, 7, 16, 64, 65, 85, 86, 100, 130, 150, 8192]
    combos = [(k, c, s, pre) for k in "oiUTXY" for c in caps for s in scripts for pre in (0, 5)]
    rnd.shuffle(combos)
    must = [(k, c, s, 0) for k in "oiU" for c in (1, 64, 8192) for s in ([], [-2], [0], [-1], [1] * 60, [1] * 20 + [-2])]
    sel = must + (combos[:3000] if t else combos[:230])
    for i, (k, c, s, pre) in enumerate(sel):
        if pre >= c: pre = max(0, c - 1)
        sk = {"cap": c, "pre": pre, "script": s}
        cfgt = {"fm": "json", "lv": 1, "ms": 0}
        d = rnd.choice([0, 1, 17, {"c": 97000, "len": 300, "kind": "rand"}, {"c": 97001, "len": 9000, "kind": "rand"}, {"c": 97002, "len": 40, "kind": "rand"}])
        if k == "o":
            ops = [new(md="full"), con(d=d, sink=sk), con(d=9401), rd(C()), ack(d=9402), ack(d=9403), rd(A()), wr(d=9404), rd(U(0)), wr(d=9405)]
        elif k == "i":
            ops = [new(md="full"), con(), rd(C()), ack(d=d, sink=sk), ack(d=9402), con(d=9401), rd(U(1)), rd(A()), wr(d=9404), rd(U(0)), wr(d=9405), cl()]
        elif k in "UX":
            md = "full" if k == "U" else "min"
            ops = ready(md) + [wr(d=9406), wr(d=d if d else 1, sink=sk), wr(d=9407), rd(U(0)), cl(), wr("A2", 9408), con(), ack(), cfg({"lv": 3})]
        elif k == "Y":
            ops = ready("full") + [cl(), wr("A2", 9406), wr("A2", d if d else 1, sink=sk), wr("A2", 9407), wr(d=9409), rd(U(0), "A2"), rd(U(0))]
        else:
            a = dict(tw("U", 1 + i % 5), sink=sk); cc = dict(tw("C", i % 5), sink=sk); aa = dict(tw("A", i % 5), sink=sk)
            ops = [[new(md="full", cfg=cfgt), cc, con(), rd(C(d=0)), ack(), rd(A(d=0)), wr()], [new(md="full", cfg=cfgt), con(), rd(C(d=0)), aa, ack(), rd(A(d=0)), wr(), con()],
                   ready("full", cfg=cfgt) + [a, tw("U", 2), wr(), rd(U(0)), cl()]][i % 3]
        out.append(S("sink-%s-%d" % (k, i), ops))
    # several messages into one slow writer, then a fault
    return out

# ---------------------------------------------------------------- bytes at random, calls at random

def storms(t, rnd):
    """arbitrary bytes and arbitrary calls in every state"""
    out = []
    acts = ["con", "ack", "wr", "cl", "tk", "dr", "cfg", "C", "A", "U", "Cb", "Ab", "Ub", "R", "M", "tU", "tR", "tw"]
    for md in MDS:
        for rep in range(1500 if t else 130):
            pre = [[new(md=md)], [new(md=md, pin=2)], [new(md=md), con()], [new(md=md), con(), rd(C())], [new(md=md), con(), rd(C()), ack()], ready(md)][rep % 6]
            ops = list(pre)
            names = ["A"]
            for s in range(18):
                a = rnd.choice(acts)
                h = rnd.choice(names)
                k = rnd.randrange(6)
                mm = None
                if a in ("con", "ack", "wr"): ops.append({"con": con, "ack": ack, "wr": wr}[a](h, rnd.choice([0, 1, 9500 + s])))
                elif a == "cl": names.append("S%d" % s); ops.append(cl(h, "S%d" % s))
                elif a in ("tk", "dr"): ops.append((tk if a == "tk" else dr)(h))
                elif a == "cfg": ops.append(cfg({"lv": k, "ms": 100 * k, "fm": rnd.choice(FMS)}, h))
                elif a == "C": mm = C(rnd.choice([2, 2, 3]), rnd.choice(["e1", "e2"]), rnd.choice([0, 1, 5]))
                elif a == "A": mm = A(rnd.choice([2, 2, 3]), d=rnd.choice([0, 1, 11]))
                elif a == "U": mm = U(rnd.randrange(5), e=rnd.choice(["e1", "e1", "e1", "e2"]))
                elif a == "Cb": mm = C(p=[P(rnd.choice(["pre", "post"]), rnd.choice(["xor", "trunc", "del", "ins"]), rnd.randrange(160), rnd.randrange(1, 256))])
                elif a == "Ab": mm = A(p=[P(rnd.choice(["pre", "post"]), rnd.choice(["xor", "trunc", "del", "ins"]), rnd.randrange(125), rnd.randrange(1, 256))])
                elif a == "Ub": mm = U(k, 77, p=[P(rnd.choice(["pre", "post", "wire"]), rnd.choice(["xor", "trunc", "del", "ins"]), rnd.randrange(85), rnd.randrange(1, 256))])
                elif a == "R": mm = {"rand": rnd.choice([0, 1, 3, 4, 7, 15, 16, 17, 30, 64, 200]), "rs": rep * 100 + s}
                elif a == "M": mm = {"raw_bytes": "e2c2e2d200000001" + "".join(rnd.choice(["00", "01", "02", "ff", "10"]) for _ in range(rnd.randrange(0, 90)))}
                elif md == "full" and a == "tU": ops.append(rd(dict(U(k, 0), tv={"fm": rnd.randrange(6), "t": k}), h, "tr"))
                elif md == "full" and a == "tR": ops.append(rd({"rand": k, "rs": s}, h, "tr"))
                elif md == "full" and a == "tw": ops.append(tw(rnd.choice("CAU"), k, h))
                if mm is not None: ops.append(rd(mm, h, "tr" if md == "full" and rnd.random() < 0.3 else "rd"))
            out.append(S("storm-%s-%d" % (md, rep), ops))
    return out

def histories(t, rnd):
    """long lives of two real layers and an attacker in between, forgeries woven in; twin runs without the rejected ones"""
    out = []
    for rep in range(400 if t else 40):
        md = MDS[rep % 2]
        pa, pb = rnd.choice([0, 2]), rnd.choice([0, 1])
        ops = [new("A", 1, pa, md, {"lv": rnd.randrange(10), "ms": rnd.choice([0, 20, 8192])}), new("B", 2, pb, md)]
        todo = ["cA", "cB", "rcA", "rcB", "iA", "iB", "raA", "raB"]
        done = set(); d = 7000
        req = {"rcA": ["cB"], "rcB": ["cA"], "iA": ["rcA"], "iB": ["rcB"], "raA": ["iB", "cA"], "raB": ["iA", "cB"], "cA": [], "cB": []}
        pend = {"A": [], "B": []}; wrote = {"A": 0, "B": 0}; sent = {"A": [], "B": []}
        held = {"A": False, "B": False}
        other = {"A": "B", "B": "A"}
        ready_ = {"A": False, "B": False}
        aside = {"A": False, "B": False}
        def forg(h):
            ms = []
            o = other[h]
            who = 2 if h == "A" else 1
            if "c" + o in done: ms += [rd(W("c" + o, [P("wire", "xor", rnd.choice(list(range(18, 50)) + list(range(90, 140))), 1 << rnd.randrange(8))]), h, rej=True)]
            if "i" + o in done and "rc" + h in done: ms += [rd(W("a" + o, [P("wire", "xor", rnd.randrange(18, 110), 1 << rnd.randrange(8))]), h, rej=True)]
            if "c" + h in done and "rc" + h in done: ms += [rd({"t": "A", "by": 4, "ch": "of:" + h, "d": 5}, h, rej=True)]
            if "c" + h in done: ms += [rd({"t": "A", "by": who, "ch": "e3", "d": 5}, h, rej=True)]
            if "rc" + h in done or (pa if h == "A" else pb): ms += [rd(C(4, "e3", 6), h, rej=True)]
            ms += [rd(C(4, "e3", 6, sig="bad"), h, rej=True), rd(C(4, "e3", 6, pk=who), h, rej=True)]
            return rnd.choice(ms)
        steps = 0
        while steps < 90:
            steps += 1
            opts = [x for x in todo if x not in done and all(r in done for r in req[x])]
            h = rnd.choice("AB")
            x = rnd.random()
            if opts and x < 0.5:
                a = rnd.choice(opts); hh = a[-1]; o = other[hh]
                # an ACK may overtake the CONNECT
                if a[0] == "c": ops.append(con(hh, rnd.choice([0, 1, d]), "c" + hh)); d += 1
                elif a.startswith("rc"):
                    ops.append(rd(W("c" + o), hh))
                    if md == "min": ops.append(tk(hh))
                elif a[0] == "i": ops.append(ack(hh, rnd.choice([0, 1, d]), "a" + hh)); d += 1
                else:
                    ops.append(rd(W("a" + o), hh))
                    if md == "min" and ("rc" + hh in done): ops.append(dr(hh))
                done.add(a)
                for q in "AB":
                    if all(z + q in done for z in ("c", "rc", "i", "ra")): ready_[q] = True
            elif x < 0.62: ops.append(forg(h))
            elif ready_[h] and x < 0.8:
                nm = "u%s%d" % (h, wrote[h]); wrote[h] += 1; d += 1
                ops.append(wr(h, d, nm)); pend[other[h]].append(nm)
            elif pend[h] and ("i" + h in done):
                nm = pend[h].pop(rnd.randrange(len(pend[h])))
                if "ra" + h not in done or ready_[h]:
                    ops.append(rd(W(nm), h)); sent[h].append(nm)
                    if md == "min" and ready_[h] and rnd.random() < 0.2: ops.append(dr(h))
                else: pend[h].append(nm)
            elif sent[h] and rnd.random() < 0.5 and ready_[h]: ops.append(rd(W(rnd.choice(sent[h])), h, rej=True))
        for q in "AB":
            for nm in pend[q]:
                if ready_[q]: ops.append(rd(W(nm), q))
        for q in "AB":
            if ready_[q]: ops += [cl(q, q + "2"), wr(q, d + 1, "z" + q), wr(q + "2", d + 2)]; d += 2
        out.append(S("hist-%d" % rep, ops, True))
    return out

# ---------------------------------------------------------------- identities

def idents(t, rnd):
    """layers created with seeds of every kind, and without"""
    out = []
    for md in MDS:
        for me in range(0 if md == "full" else 1, 13):
            for order in NEGO_ORDERS if t else rnd.sample(NEGO_ORDERS, 3):
                for pin in (0, 2):
                    if me == 2: continue
                    ops = [new(me=me, md=md, pin=pin)]
                    if rnd.random() < 0.5: ops.append(rd(A(4, d=7), rej=True) if pin else rd(C(4, "e2", sig="bad")))
                    n = nego(md, order=order, pin=pin)
                    k = rnd.randrange(len(n))
                    ops += n[:k] + [cfg({"lv": 9, "ms": 0, "fm": "json"})] + n[k:] + exchange(k=1)
                    out.append(S("id-%s-%d-%s-%d" % (md, me, order, pin), ops + [cl(), con("A2"), ack("A2"), con(), ack()]))
    # typed negotiation messages, failing and repeated calls: the identity remains the same
    for me in (0, 1, 7, 8, 9):
        j = {"fm": "json"}
        out.append(S("idt-%d" % me, [new(me=me, md="full", cfg=j), tw("C", 1), con(), rd(C(d=0)), tw("A", 2), rd(A(d=0)), wr()]))
        out.append(S("idf-%d" % me, [new(me=me, md="full"), tw("C", 1), con(), con(), ack(), rd(C(3, sig="bad")), rd(C(d=0)), tw("A", 2), ack(), rd(A(d=0)), wr()]))
        sk = {"cap": 16, "pre": 0, "script": [1, -1, 5]}
        out.append(S("ids-%d" % me, [new(me=me, md="full"), con(sink=sk), rd(C(d=0)), ack(sink=sk), rd(A(d=0)), wr()]))
        out.append(S("idw-%d" % me, [new(me=me, md="full"), con(sink={"cap": 16, "pre": 0, "script": [1, -2]}), con(), rd(C(d=0)), ack(), rd(A(d=0)), wr()]))
    # layers with identities of their own, which expect each other, themselves or a third one
    rel = [(0, 0), (0, 1), (1, 0), (1, 1)]
    for i, (pa, pb) in enumerate(rel):
        for x, y in ((0, 0), (0, 9), (8, 7), (9, 9), (10, 0), (11, 12), (5, 5)):
            # "of" is resolved when the layer is created: the other one has shown its identity
            ops = [new("B", y, 0, "full"), con("B", 11, "cB"), new("A", x, {"of": "B"} if pa else 0, "full"), con("A", 12, "cA"), new("D", y, {"of": "A"} if pb else 0, "full"), con("D", 13, "cD"),
                   new("E", 0, {"of": "E0"} if False else 0, "full"), con("E", 14, "cE")]
            ops += [rd(W("cE"), "A", rej=True)] if pa else []
            ops += [rd(W("cB"), "A"), rd(W("cA"), "B"), rd(W("cA"), "D"), ack("A", 15, "aA"), ack("B", 16, "aB"), ack("D", 17, "aD"), rd(W("cB"), "E"), ack("E", 18, "aE")]
            ops += [rd(W("aE"), "B"), rd(W("aB"), "A"), rd(W("aA"), "B"), rd(W("aA"), "D"), wr("A", 9000, "uA"), wr("B", 9001, "uB"), rd(W("uB"), "A"), rd(W("uA"), "B"), rd(W("uA"), "E")]
            out.append(S("idp-%d-%d-%d" % (i, x, y), ops))
    # created one after the other, in one go and with others in between
    for n in (2, 5, 9):
        hs = ["L%d" % k for k in range(n)]
        ops = [new(h, 0, 0, "full") for h in hs] + [con(h, 20 + k) for k, h in enumerate(hs)]
        out.append(S("idn-%d" % n, ops + [ack(h, 3) for h in hs]))
        ops = []
        for k, h in enumerate(hs): ops += [new(h, [0, 9, 0, 7][k % 4], 0, "full"), con(h, 20 + k), rd(C(), h), ack(h, 40 + k)]
        out.append(S("idm-%d" % n, ops))
    return out

# ---------------------------------------------------------------- refused calls and what they leave on the writer

def refused(t, rnd):
    """every writing call in every state, into writers that accept everything"""
    out = []
    for md in MDS:
        sts = [[], [con()], [rd(C())], [con(), rd(C())], [con(), rd(A())], [con(), rd(C()), ack()], [rd(C()), ack()], nego(md), nego(md) + [cl()], nego(md) + [rd({"rand": 50})], [rd({"rand": 2})], [wr()],
               [con(), rd(C()), rd(A()), rd(C(2, "e2"))], [rd({"t": "C", "by": 2, "ep": "low0", "d": 5})], [con(), rd(C()), ack(), rd(U(0)), rd(U(1))]]
        calls = [("con", 3), ("con", 0), ("ack", 4), ("ack", 0), ("wr", 1), ("wr", 300), ("wr", cont(98000, 9000, "rand")), ("con", cont(98001, 9000, "rand")), ("ack", cont(98002, 300, "text"))]
        if md == "full": calls += [("tw", k, v) for k in "CAU" for v in (0, 1, 3, 5003, 12003, 2007) if not (k == "U" and v == 0)]
        for i, st in enumerate(sts):
            for j, c in enumerate(calls):
                if not t and (i + j) % 2 and rnd.random() < 0.4: continue
                sk = {"cap": rnd.choice([0, 1, 16, 64, 300, 8192, 100000]), "pre": rnd.choice([0, 0, 5, 13]), "script": []}
                if sk["pre"] >= sk["cap"]: sk["pre"] = 0
                cf = {"fm": rnd.choice(["json", "json", "cbor", "bin", "raw", "text"]), "lv": rnd.randrange(10), "ms": rnd.choice([0, 8192])}
                mk = lambda h, sink: dict(tw(c[1], c[2], h), **({"sink": sk} if sink else {})) if c[0] == "tw" else {"con": con, "ack": ack, "wr": wr}[c[0]](h, c[1], sink=sk if sink else None)
                hs = ["A", "A2"] if any(o["op"] == "cl" for o in st) else ["A"]
                ops = [new(md=md, cfg=cf)] + st
                for h in hs: ops += [mk(h, True), mk(h, False)]
                out.append(S("ref-%s-%d-%d" % (md, i, j), ops + complete(md)))
    return out

# ---------------------------------------------------------------- several layers at once

def renamed(v, x, k=None):
    """the same operation on layers of other names"""
    if isinstance(v, dict): return {a: renamed(b, x, a) for a, b in v.items()}
    if isinstance(v, list): return [renamed(b, x) for b in v]
    if isinstance(v, str) and (k in ("h", "to", "o", "save", "w", "of")): return v + x
    if isinstance(v, str) and v.startswith("of:"): return v + x
    return v

def recast(v, mp, k=None):
    """the same operation with other peers"""
    if isinstance(v, dict): return {a: recast(b, mp, a) for a, b in v.items()}
    if isinstance(v, list): return [recast(b, mp) for b in v]
    if k in ("by", "pk", "pin") and isinstance(v, int) and not isinstance(v, bool): return mp.get(v, v)
    return v

def several(t, rnd):
    """independent lives of layers, interleaved: what one does is compared with what it does alone"""
    pool = []
    for f, n in ((storms, 40), (histories, 12), (clones, 24), (numbers, 20), (orders, 40), (reconnect, 30), (typedvals, 20), (challenges, 12), (pins, 20), (keys, 20), (bulks, 5), (refused, 20), (idents, 20), (contents, 12)):
        l = [s for s in f(False, rnd) if len(s["ops"]) <= 120 and not any(c in json.dumps(s["ops"]) for c in ("<\"", ">\"", "<=", ">="))]
        pool += rnd.sample(l, min(n, len(l)))
    out = []
    for i in range(900 if t else 110):
        k = rnd.choice([2, 2, 3, 4])
        parts = [[renamed(o, "_%d" % j) for o in s["ops"]] for j, s in enumerate(rnd.sample(pool, k) if rnd.random() < 0.7 else [rnd.choice(pool)] * k)]
        if rnd.random() < 0.5:
            for j in range(1, k):
                mp = dict(zip((2, 3, 4), rnd.sample((2, 3, 4), 3)))
                parts[j] = [recast(o, mp) for o in parts[j]]
        ops = []
        mode = rnd.choice(["mix", "mix", "burst", "nested"])
        if mode == "nested":
            # one life within another
            a, b = parts[0], [o for p in parts[1:] for o in p]
            c = rnd.randrange(1, len(a))
            ops = a[:c] + b + a[c:]
        else:
            left = [list(p) for p in parts]
            while any(left):
                p = rnd.choice([p for p in left if p])
                for _ in range(1 if mode == "mix" else rnd.randrange(1, 8)):
                    if p: ops.append(p.pop(0))
        out.append(dict(S("sev-%d" % i, ops), solo=1, iso=1))
    # layers of one identity, with one peer, in one or several sessions
    for md in MDS:
        for i in range(30 if t else 8):
            n = rnd.choice([2, 3, 5])
            hs = ["A%d" % j for j in range(n)]
            lives = []
            for h in hs:
                by = rnd.choice([2, 2, 3, 4])
                pin = rnd.choice([0, by])
                o = [new(h, 1, pin, md)] + nego(md, h, rnd.choice(["e1", "e1", "e2"]), by, order=rnd.choice(NEGO_ORDERS), pin=pin)
                e = next(x["m"]["ep"] for x in o if x["op"] == "rd" and x["m"]["t"] == "C")
                us = [rd(U(q, e=e, of=h), h) for q in rnd.sample(range(6), 4)] + [wr(h, 9000 + len(lives))]
                x = rnd.random()
                if x < 0.3: us.insert(rnd.randrange(len(us)), rd({"rand": 40}, h))
                elif x < 0.5: us.insert(2, bulk(7, 10006, h=h, e=e, of=h))
                elif x < 0.7: us.insert(2, cl(h, h + "c")); us += [rd(U(q, e=e, of=h), h + "c") for q in range(3)] + [wr(h + "c", 9100)]
                lives.append(o + us)
            ops = []
            while any(lives):
                p = rnd.choice([p for p in lives if p]); ops.append(p.pop(0))
            out.append(dict(S("sevp-%s-%d" % (md, i), ops), solo=1, iso=1))
    return out

def shared(t, rnd):
    """the same bytes, short and long, given to several layers; much in several layers at once"""
    out = []
    for md in MDS:
        for i, n in enumerate([11, 300, 600, 5000, 70000] + ([300000] if t else [])):
            for kind in ("rand", "text"):
                d = [cont(96000 + 10 * i + j, n + j, kind) for j in range(3)]
                m = C(2, "e1", d[0], lv=1)
                for k in (2, 3):
                    hs = ["H%x" % j for j in range(k)]
                    lives = [[new(h, (1, 8, 9)[j], 0 if j % 2 else 2, md), con(h), rd(dict(m), h), ack(h), rd(A(2, h, d[1]), h)] + md_dr(md, h) + [rd(U(0, d[2], of=h), h), wr(h, d[2])] for j, h in enumerate(hs)]
                    ops = []
                    if rnd.random() < 0.5: ops = [o for l in lives for o in l]
                    else:
                        while any(lives):
                            p = rnd.choice([p for p in lives if p]); ops.append(p.pop(0))
                    out.append(dict(S("shr-%s-%d-%s-%d" % (md, n, kind, k), ops), solo=1, iso=1))
        # the same CONNECT and ACK refused by one layer, accepted by the other
        for rep in range(12 if t else 4):
            ops = [new("A", 1, 3, md), new("B", 1, 2, md), new("D", 1, 0, md)] + [con(h) for h in "ABD"]
            for h in rnd.sample("ABD", 3): ops += [rd(C(2, "e1", 5), h), rd(C(2, "e1", 5, sig="bad"), h)]
            for h in rnd.sample("ABD", 3): ops += [rd(A(2, "B", 11), h)] + md_tk(md, h) + [rd(A(2, "D", 11), h)] + [ack(h)] + md_dr(md, h)
            for h in rnd.sample("ABD", 3): ops += [rd(U(0, of="B"), h), rd(U(0, of="D"), h), wr(h)]
            out.append(dict(S("shrx-%s-%d" % (md, rep), ops), solo=1, iso=1))
        # one identity known under two keys, one key under two identities
        for order in NEGO_ORDERS:
            a, c = nego(md, "A", "e1", 2, order), nego(md, "B", "e1", 3, order)
            f, g = nego(md, "D", "e2", 2, order), nego(md, "E", "e1", 2, order)
            u = lambda h, e: [rd(U(q, e=e, of=h), h) for q in (1, 0, 2)] + [wr(h)]
            out.append(dict(S("shrk-%s-%s" % (md, order), [new(h, 1, 0, md) for h in "ABDE"] + a + c + f + g + u("A", "e1") + u("B", "e1") + u("D", "e2") + u("E", "e1"), False), solo=1, iso=1))
            mix = [o for q in itertools.zip_longest(c, a, g, f) for o in q if o]
            out.append(dict(S("shrm-%s-%s" % (md, order), [new(h, 1, 0, md) for h in "ABDE"] + mix + u("A", "e1") + u("B", "e1") + u("D", "e2") + u("E", "e1"), False), solo=1, iso=1))
    # as many messages out of order in every layer as one of them may have
    k = 110 if t else 29
    ops = []
    for j in range(k): ops += ready("min", "H%x" % j)
    for j in range(k): ops += [bulk(1, 10000, h="H%x" % j, of="H%x" % j)]
    for j in range(k): ops += [rd(U(0, of="H%x" % j), "H%x" % j), rd(U(10001, of="H%x" % j), "H%x" % j), wr("H%x" % j)]
    out.append(dict(S("shro", ops), solo=1, iso=1))
    # held by layers whose negotiation is not complete
    k = 29 if t else 8
    ops = []
    for j in range(k): ops += [new("H%x" % j, md="min"), con("H%x" % j), rd(C(), "H%x" % j), ack("H%x" % j)]
    for j in range(k): ops += [bulk(0, 9999, h="H%x" % j, of="H%x" % j)]
    for j in range(k): ops += [rd(A(2, "H%x" % j), "H%x" % j), dr("H%x" % j), wr("H%x" % j), rd(U(10000, of="H%x" % j), "H%x" % j)]
    out.append(dict(S("shrh", ops), solo=1, iso=1))
    return out

# ---------------------------------------------------------------- layers that are dropped, and what they leave in memory

def lives(t, rnd):
    out = []
    E = lambda id, ops: out.append(dict(S(id, ops), er=1))
    for md in MDS:
        # dropped after every step of every negotiation; the next layer stands where the last one stood
        for oi, order in enumerate(NEGO_ORDERS):
            for k in range(5):
                ops = [new("A", 9, 0, md)] + nego(md, "A", "e1", 2, order[:k]) + [drop("A")]
                ops += [new("B", 10, 0, md)] + nego(md, "B", "e1", 2, order) + [wr("B"), rd(U(0, of="B"), "B"), drop("B")]
                E("liv-%s-%d-%d" % (md, oi, k), ops)
        R = ready(md, me=11)
        # failed in every way, then dropped
        bad = [("rand", [rd({"rand": 50})]), ("short", [rd({"rand": 3})]), ("conn", [rd(C(2, "e2"))]), ("type", [rd(U(0, p=[P("pre", "set", 16, be(7, 2))]))]),
               ("flip", [rd(U(0, p=[P("wire", "xor", 20, 4)]))]), ("tag", [rd(U(0, p=[P("wire", "xor", -1, 4)]))]), ("cut", [rd(U(0, p=[P("wire", "cut", 30)]))]), ("hash", [rd(U(0, hs="bad"))]),
               ("twice", [rd(U(0)), rd(U(0))]), ("zip", [rd(U(0, {"c": 96500, "len": 40, "kind": "rand"}, raw=1))]), ("other", [rd(U(0, e="e2"))]), ("ack", [rd(A())]),
               ("con", [con()]), ("ack2", [ack()]), ("sink", [wr(sink={"cap": 16, "pre": 0, "script": [1, -5]})]), ("sink2", [wr(sink={"cap": 4096, "pre": 10, "script": [-6]})])]
        for nm, b_ in bad:
            E("livf-%s-%s" % (md, nm), R + b_ + [wr(), rd(U(1)), cl(), drop("A"), wr(h="A2"), rd(U(2), "A2"), drop("A2")])
            E("livg-%s-%s" % (md, nm), R + [cl()] + [dict(o, h="A2") for o in b_] + [drop("A2"), wr(), rd(U(3)), drop()])
        for nm, b_ in (("low", [rd({"t": "C", "by": 2, "ep": "low2", "d": 5})]), ("own", [rd(C(2, "of:A"))]), ("sig", [rd(C(2, sig="bad"))]), ("early", [rd(A(2, "A"))]), ("user", [rd(U(0))]), ("write", [wr()]),
                       ("keyed", [rd(C()), wr()]), ("keyeduser", [rd(C()), rd(U(0))]), ("keyedchal", [rd(C()), rd(A(2, ch="e3")), ack(), rd(A(2, sig="bad"))]), ("again", [rd(C()), rd(C())])):
            E("livn-%s-%s" % (md, nm), [new(me=12, md=md), con()] + b_ + [drop()])
            E("livm-%s-%s" % (md, nm), [new(me=12, md=md), con()] + b_ + complete(md) + [drop(), drop("Aq")])
        # messages held and set aside
        E("livh-%s" % md, [new(me=9, md=md), con(), rd(C()), ack(), bulk(0, 299), rd(U(400)), drop()])
        E("livi-%s" % md, [new(me=9, md=md), con(), rd(C()), ack(), bulk(0, 299), rd(U(400)), rd(A())] + md_dr(md) + [wr(), rd(U(300)), drop()])
        E("livj-%s" % md, [new(me=9, md=md), con(), rd(A()), rd(C())] + md_tk(md) + [ack(), wr(), drop()])
        # much written and read
        for n in (70000, 300000):
            for kind in ("rand", "text"):
                d = cont(96600 + n % 7, n, kind)
                E("livl-%s-%d-%s" % (md, n, kind), R + [wr(d=d), rd(U(0, d)), cfg({"lv": 9, "ms": 0}), wr(d=d), rd(U(1, d, lv=9)), rd(U(1, d)), cl(), wr(d=d, h="A2"), drop(), rd(U(2, d), "A2"), drop("A2")])
        E("livb-%s" % md, R + [bw(60), bulk(0, 59), br(U(3), 60), bulk(70, 100, 2), cl(), bw(9, "A2"), drop(), bulk(60, 69, h="A2"), drop("A2")])
        # clones in every order
        for order in itertools.permutations(["A", "A2", "A3", "A4"]):
            ops = R + [cl("A", "A2"), cl("A2", "A3"), wr(), cl("A", "A4")]
            left = ["A", "A2", "A3", "A4"]
            for k, h in enumerate(order):
                ops.append(drop(h)); left.remove(h)
                for q in left: ops += [wr(h=q), rd(U(k, 700 + k), q)]
            E("livc-%s-%s" % (md, "".join(h[-1] for h in order)), ops)
        # many at once, dropped in any order
        for rep in range(6 if t else 2):
            k = 12; hs = ["H%x" % j for j in range(k)]; ops = []
            for j, h in enumerate(hs): ops += ready(md, h, me=9 + j % 4, e="e%d" % (j % 3), order=NEGO_ORDERS[j % 6])
            left = list(hs)
            while left:
                h = rnd.choice(left); left.remove(h); ops.append(drop(h))
                for q in rnd.sample(left, min(2, len(left))): ops += [wr(h=q), rd(U(rnd.choice([0, 1, 2, 3]), e="e%d" % (hs.index(q) % 3), of=q), q)]
            E("livs-%s-%d" % (md, rep), ops)
    # typed values
    for fm in ("json", "cbor", "bin", "raw"):
        for ty in (0, 1000, 3000, 5000):
            tv = lambda k: ty if ty == 3000 else ty + k
            ops = [new("A", 9, 0, "full", {"fm": fm, "ms": 0, "lv": 6}), tw("C", tv(2), "A", "c"), rd(C()), tw("A", tv(3)), rd(A()), tw("U", tv(2)), cl(), dict(rd(U(0), "A2", "tr"), ty=ty // 1000), drop(), tw("U", tv(3), "A2"), drop("A2")]
            E("livt-%s-%d" % (fm, ty), ops)
    # two real layers
    for order in (["A", "B"], ["B", "A"]):
        ops = [new("A", 9, 0, "full"), new("B", 10, 0, "full"), con("A", 3, "ca"), con("B", 3, "cb"), rd(W("ca"), "B"), rd(W("cb"), "A"), ack("A", 4, "aa"), ack("B", 4, "ab"), rd(W("aa"), "B"), rd(W("ab"), "A"),
               wr("A", 81, "ua"), wr("B", 82, "ub"), drop(order[0]), rd(W("ub" if order[0] == "B" else "ua"), order[1]), wr(order[1], 83), drop(order[1])]
        E("livr-%s" % order[0], ops)
    out += [S("livseed-%d" % k, [seed(k)]) for k in range(20 if t else 4)]
    return out

# ---------------------------------------------------------------- the same again, hundreds and thousands of times

def endurance(t, rnd):
    """long lives: many rejected, repeated, written and received messages, many clones, many layers"""
    out = []
    few, many = (700, 70000) if t else (300, 66000)
    rej = {"n": [("sig", C(3, "e2", sig="bad")), ("csig", A(2, sig="bad"))],
           "o": [("sig", C(3, "e2", sig="bad")), ("flip", C(2, "e1", 5, p=[P("post", "xor", 60, 4)]))],
           "p": [("pin", C(3, "e2")), ("sig", C(2, "e2", sig="bad")), ("ack", A(3)), ("chal", A(2, ch="e3")), ("asig", A(2, sig="bad"))],
           "k": [("pin", C(3, "e2")), ("ack", A(3)), ("chal", A(2, ch="e3")), ("asig", A(2, sig="bad")), ("again", C(2, "e1", 5)), ("other", C(2, "e2", 6))],
           "a": [("ack", A(3)), ("chal", A(2, ch="e3")), ("asig", A(2, sig="bad")), ("csig", C(2, "e2", sig="bad"))]}
    pre = {"n": (0, []), "o": (0, [con()]), "p": (2, [con()]), "k": (0, [con(), rd(C())]), "a": (0, [con(), rd(C()), ack()])}
    for md in MDS:
        for st, l in rej.items():
            pin, ops = pre[st]
            for nm, m in l:
                out.append(S("end-%s-%s-%s" % (md, st, nm), [new(md=md, pin=pin)] + ops + [br(m, few)] + complete(md), True))
            pairs = list(itertools.permutations(l, 2))
            for (n1, m1), (n2, m2) in rnd.sample(pairs, min(2, len(pairs))):
                out.append(S("end2-%s-%s-%s-%s" % (md, st, n1, n2), [new(md=md, pin=pin)] + ops + [br(m1, 130), br(m2, 130), br(m1, 130)] + complete(md), True))
        R = ready(md)
        # repeated acceptable negotiation messages, replays, altered messages, before and between genuine ones
        out.append(S("endA-%s" % md, [new(md=md), con(), rd(C()), ack(), rd(A()), br(A(), few)] + exchange(), True))
        out.append(S("endC-%s" % md, R + [br(C(), few), br(C(2, "e2"), few)] + exchange(), True))
        for nm, m in (("old", U(1)), ("gap", U(9)), ("hash", U(7, hash="bad")), ("flip", U(7, p=[P("post", "xor", 5, 3)]))):
            for c in (few, many):
                if nm in ("hash", "flip") and c == many and not t: c = 9000
                tw_ = nm != "gap" and nm != "old"
                out.append(S("endU-%s-%s-%d" % (md, nm, c), R + [rd(U(0)), rd(U(1)), rd(U(5))] + ([rd(U(9))] if nm == "gap" else []) + [br(m, c), rd(U(2)), rd(U(3)), wr(), rd(U(4)), rd(U(6)), rd(U(7)), rd(U(8)), rd(U(9)), rd(U(10)), br(U(10), few), wr(), cl(), rd(U(11), "A2"), br(U(2), few, "A2"), rd(U(11)), rd(U(12))], True))
        # everything that fails the layer, again and again
        for nm, m in (("rand", {"rand": 40}), ("len", C(2, p=[P("pre", "set", 8, be(3, 8))])), ("type", U(0, p=[P("pre", "set", 16, be(7, 2))])), ("low", {"t": "C", "by": 2, "ep": "low0", "d": 5})):
            out.append(S("endF-%s-%s" % (md, nm), [new(md=md), con(), br(m, few), bw(few), br(U(0), few)] + probes(md)))
            out.append(S("endG-%s-%s" % (md, nm), R + [br(m, few)] + exchange() + [cl(), br(m, few, "A2"), rd(U(2), "A2"), br(m, few, "A2"), rd(U(3), "A2")] + exchange(n=2)))
        # many written: the numbers go on, the messages remain readable
        for c in (255, 256, 257, few, many if md == "min" or t else 5000):
            out.append(S("endW-%s-%d" % (md, c), R + [wr(), bw(c), wr(), rd(U(0)), cl(), wr(), wr(h="A2"), bw(3), bw(c if c < 400 else 300, "A2"), wr(), wr(h="A2"), rd(U(0), "A2"), rd(U(1)), rd(U(1), "A2"), con(), ack(), wr()]))
        out.append(S("endWN-%s" % md, [new(md=md), bw(few), con(), bw(few), rd(C()), bw(few), ack(), rd(A())] + md_tk(md) + md_dr(md) + [bw(few), wr()]))
        # many received in order, then out of order, then again
        for c in (255, 256, 300, 9999, 10000, 10001, many - 1):
            out.append(S("endR-%s-%d" % (md, c), R + [bulk(0, c), rd(U(c + 1)), rd(U(c + 3)), br(U(c + 1), few), br(U(c + 3), few), br(U(0), few), br(U(c), few), rd(U(c + 2)), rd(U(c + 4)), wr(), cl(), rd(U(c + 5), "A2"), rd(U(c), "A2"), rd(U(c + 6), "A2"), rd(U(c + 5))]))
        # both directions, many times
        ops = list(R)
        for k in range(6 if t else 3): ops += [bw(rnd.choice([40, 257, 1000])), bulk(k * 1000, k * 1000 + 999), br(U(k * 1000 + 999), 50), wr(), br({"rand": 60}, 30), br(U(k * 1000 + 1000, hash="bad"), 30)]
        out.append(S("endX-%s" % md, ops + [rd(U(9000)), wr(), cl(), wr(h="A2"), rd(U((6 if t else 3) * 1000), "A2")]))
        # refused calls, again and again
        ops = [new(md=md), con()] + [con(d=3) for _ in range(280)] + [wr() for _ in range(20)] + [rd(C()), ack()] + [ack() for _ in range(280)] + [rd(A())] + md_tk(md) + md_dr(md)
        out.append(S("endN-%s" % md, ops + [con(), ack()] + exchange()))
        # clones of clones
        ops = R + [wr(), rd(U(0)), rd(U(3))]
        h = "A"
        for k in range(270 if t else 60):
            ops += [cl(h, "A_%d" % k)]; h = "A_%d" % k
            if k % 9 == 0: ops += [wr(h=h), rd(U(5 + k), h)]
        out.append(S("endK-%s" % md, ops + [con(h), ack(h), rd(U(1), h), rd(U(2), h), rd(U(1), h), rd(U(3), h), rd(U(4), h), wr(h=h), rd(U(1)), rd(U(2)), rd(U(3)), wr(), bw(300, h), bulk(1000, 1300, h=h)]))
        ops = R + [wr()]
        for k in range(270 if t else 60): ops += [cl("A", "B%d" % k)]
        ops += [wr(h="B%d" % k) for k in (0, 1, 9, 59)] + [rd(U(k), "B%d" % k) for k in range(20)] + [rd(U(0), "B%d" % k) for k in range(20)] + [wr(), rd(U(0)), rd(U(2)), rd(U(1))]
        out.append(S("endL-%s" % md, ops))
        # many layers in one process, completed in another order than created
        hs = ["L%d" % k for k in range(280 if t else 70)]
        ops = [new(h, 1 + k % 6 if k % 6 != 1 else 7, 0, md) for k, h in enumerate(hs)] + [con(h) for h in hs]
        for h in rnd.sample(hs, len(hs)): ops += [rd(C(2, "e1", 5), h), rd(A(2, h, 11), h)] + md_tk(md, h) + [ack(h)] + md_dr(md, h)
        for h in rnd.sample(hs, len(hs)): ops += [wr(h=h), rd(U(0, of=h), h)]
        out.append(S("endM-%s" % md, ops))
    return out

def known(t, rnd):
    """the histories of the recorded findings (known_findings.json), and nothing else"""
    out = []
    R = ready("min")
    out.append(S("KF-C12-reflection", [new("A", 1, 2, "min"), new("B", 2, 1, "min"), con("A", 3, "cA"), con("B", 3, "cB"), rd(W("cB"), "A"), rd(W("cA"), "B"), ack("A", 4, "aA"), ack("B", 4, "aB"), rd(W("aB"), "A"), rd(W("aA"), "B"),
                                   wr("A", 7000, "u"), rd(W("u"), "A")]))
    out.append(S("KF-C13-keystream-messages", R + [wr(d=7000), wr(d=7001)]))
    out.append(S("KF-C13-keystream-directions", [new("A", 1, 2, "min"), new("B", 2, 1, "min"), con("A", 3, "cA"), con("B", 3, "cB"), rd(W("cB"), "A"), rd(W("cA"), "B"), ack("A", 4, "aA"), ack("B", 4, "aB"), rd(W("aB"), "A"), rd(W("aA"), "B"),
                                             wr("A", 7000), wr("B", 7001)]))
    # the attacker (3) re-signs A's CONNECT: B takes A's session for the attacker's
    out.append(S("KF-C12-misbinding", [new("A", 1, 2, "min"), new("B", 2, 0, "min"), con("A", 3, "cA"), con("B", 3, "cB"), rd(C(3, "of:A", 3), "B"), rd(W("cB"), "A"), ack("A", 4, "aA"), ack("B", 4, "aB"),
                                   rd({"t": "A", "by": 3, "ch": "of:B", "d": 4}, "B"), rd({"t": "A", "by": 2, "ch": "of:A", "d": 4}, "A") if False else rd(W("aB"), "A"), wr("A", 7000, "u"), rd(W("u"), "B")]))
    # B gets the CONNECT of one layer of identity 1 and the ACK of another
    out.append(S("KF-C21-stale-connect", [new("A", 1, 2, "min"), new("Z", 1, 2, "min"), new("B", 2, 1, "min"), con("A", 3, "cA"), con("Z", 3, "cZ"), con("B", 3, "cB"), rd(W("cZ"), "B"), rd(W("cB"), "A"), ack("A", 4, "aA"), ack("B", 4, "aB"),
                                      rd(W("aA"), "B"), wr("B", 7000)]))
    return out


def variants(scns, n, rnd):
    """the scenarios of the other families with the crate compiled with each other set of features"""
    from . import run
    import copy
    code = {"json": 2, "cbor": 3, "bin": 4}
    heavy = {"bulk", "bw", "br"}
    pool = [s for s in scns if len(s["ops"]) < 80 and not s["id"].startswith("KF-") and not any(k in s for k in ("solo", "iso")) and not any(o["op"] == "seed" for o in s["ops"])
            and not any(o["op"] in heavy for o in s["ops"])]
    typed = [s for s in pool if any(o["op"] in ("tw", "tr") for o in s["ops"])]
    plain = [s for s in pool if not any(o["op"] in ("tw", "tr") for o in s["ops"])]
    minimal = [s for s in plain if all(o.get("md", "min") == "min" for o in s["ops"] if o["op"] == "new")]
    bulks_ = [s for s in scns if s["id"].split("-")[0] not in ("KF", "shro", "shrh") and "iso" not in s and "solo" not in s and any(o["op"] in heavy for o in s["ops"])]
    # under which format a typed value is written and read matters more than which value it is
    pref = {}
    for s in typed: pref.setdefault(s["id"].split("-")[0], []).append(s)
    def sample(l, k): return rnd.sample(l, min(k, len(l)))
    out = []
    for v, (_, fts) in run.VARIANTS.items():
        mine = []
        if v == "none": mine = sample(minimal, 2 * n)
        elif v == "release": mine = sample(plain, 6 * n) + sample(typed, 2 * n) + sample(bulks_, n)
        else:
            mine = sample(plain, n)
            if fts: mine += [s for l in pref.values() for s in sample(l, max(4, 2 * n // len(pref)))]
        names = [f for f, c in code.items() if c in fts]
        for s in mine:
            s = copy.deepcopy(s); s.pop("twin", None)
            swap = {f: f if f in names else (rnd.choice(names) if names and rnd.random() < 0.8 else "raw" if rnd.random() < 0.5 or not fts else "text") for f in code}
            if not fts: swap["text"] = "raw"
            for o in s["ops"]:
                c = o.get("cfg")
                if isinstance(c, dict) and c.get("fm") in swap: c["fm"] = swap[c["fm"]]
            out.append(dict(s, id="V-%s-%s" % (v, s["id"]), var=v, ft=fts))
    return out
