"""Building blocks of the scenarios executed by driver/ (format: see driver/src/ctx.rs)."""

def new(h="A", me=1, pin=0, md="min", cfg=None):
    o = {"op": "new", "h": h, "me": me, "pin": pin, "md": md}
    if cfg: o["cfg"] = cfg
    return o

def con(h="A", d=3, o=None, sink=None):  return _w("con", h, d, o, sink)
def ack(h="A", d=4, o=None, sink=None):  return _w("ack", h, d, o, sink)
def wr(h="A", d=80, o=None, sink=None):  return _w("wr", h, d, o, sink)
def _w(op, h, d, o, sink):
    r = {"op": op, "h": h, "d": d}
    if o: r["o"] = o
    if sink: r["sink"] = sink
    return r
def tw(k, t, h="A", o=None):
    r = {"op": "tw", "h": h, "k": k, "t": t}
    if o: r["o"] = o
    return r
def rd(m, h="A", op="rd", rej=False):
    r = {"op": op, "h": h, "m": m}
    if rej: r["rej"] = 1
    return r
def tk(h="A"): return {"op": "tk", "h": h}
def dr(h="A"): return {"op": "dr", "h": h}
def cl(h="A", to="A2"): return {"op": "cl", "h": h, "to": to}
def drop(h="A"): return {"op": "drop", "h": h}
def seed(k): return {"op": "seed", "k": k}
def cfg(c, h="A"): return {"op": "cfg", "h": h, "cfg": c}
def bulk(lo, hi, st=1, cb=1000000, h="A", e="e1", of="A"):
    return {"op": "bulk", "h": h, "k": [e, "of:" + of], "lo": lo, "hi": hi, "st": st, "cb": cb}

def bw(c, h="A", e="e1", of="A"): return {"op": "bw", "h": h, "k": [e, "of:" + of], "c": c}
def br(m, c, h="A"): return {"op": "br", "h": h, "m": m, "c": c}

def C(by=2, ep="e1", d=5, **k):
    m = {"t": "C", "by": by, "ep": ep, "d": d}; m.update(k); return m
def A(by=2, ch="A", d=11, **k):
    m = {"t": "A", "by": by, "ch": "of:" + ch if len(ch) <= 3 and not ch.startswith("e") and ch != "rand" else ch, "d": d}
    m.update(k); return m
def U(n, d=None, e="e1", of="A", **k):
    m = {"t": "U", "k": [e, "of:" + of], "n": n, "d": 200 + n if d is None else d}; m.update(k); return m
def W(w, p=None):
    m = {"w": w}
    if p: m["p"] = p
    return m

def P(at, k, off=0, v=None, to=None):
    p = {"at": at, "k": k, "off": off}
    if v is not None: p["v"] = v
    if to is not None: p["to"] = to
    return p
def be(n, size): return list(int(n).to_bytes(size, "big"))

def md_tk(md, h="A"): return [tk(h)] if md == "min" else []
def md_dr(md, h="A"): return [dr(h)] if md == "min" else []


def nego(md, h="A", e="e1", by=2, order="oCiA", pin=0, dC=5, dA=11, d1=3, d2=4):
    """negotiation with the reference peer; o: CONNECT issued, C: peer's CONNECT read, i: ACK issued,
    A: peer's ACK read. Valid orders: o before A (to know the challenge), C before i."""
    ops = []
    for s in order:
        if s == "o": ops.append(con(h, d1))
        elif s == "C":
            ops.append(rd(C(by, e, dC), h))
            if "A" in order[:order.index("C")] and pin == 0: ops += md_tk(md, h)
        elif s == "i": ops.append(ack(h, d2))
        else:
            ops.append(rd(A(by, h, dA), h))
            ops += md_dr(md, h)
    return ops

NEGO_ORDERS = ["oCiA", "CoiA", "CioA", "oACi", "oCAi", "CoAi"]

def ready(md, h="A", me=1, pin=0, e="e1", order="oCiA", cfg=None):
    return [new(h, me, pin, md, cfg)] + nego(md, h, e, order=order, pin=pin)

def exchange(h="A", e="e1", n=0, k=2, d=9000):
    """both directions"""
    ops = []
    for j in range(k):
        ops += [wr(h, d + j), rd(U(n + j, d + 50 + j, e, h), h)]
    return ops

def probes(md, h="A", e="e1", n=7, to="Ap"):
    """everything a failed layer must refuse"""
    ops = [rd(C(2, e, 5), h), rd(A(2, h, 11), h), rd(U(n, 9100 + n, e, h), h), wr(h, 9200), con(h, 9201), ack(h, 9202), cl(h, to)]
    if md == "min": ops += [tk(h), dr(h)]
    ops += [rd(U(n + 1, 9101 + n, e, h), h), rd(A(2, h, 11), h), rd(C(2, e, 5), h), ack(h, 9203), con(h, 9204), wr(h, 9205), cl(h, to)]
    return ops

def complete(md, h="A", e="e1", n=20):
    """tries to carry any negotiation to its end, then exchanges data: every refusal on the way is judged too"""
    ops = [con(h, 9300), rd(C(2, e, 5), h), ack(h, 9301)]
    if md == "min": ops += [tk(h)]
    ops += [rd(A(2, h, 11), h)]
    if md == "min": ops += [dr(h)]
    return ops + [wr(h, 9302), rd(U(n, 9310, e, h), h), rd(U(n + 1, 9311, e, h), h), rd(U(n, 9310, e, h), h), wr(h, 9303),
                  cl(h, h + "q"), rd(U(n + 2, 9312, e, h), h + "q"), wr(h + "q", 9304), rd(U(n + 1, 9311, e, h), h + "q"), wr(h, 9305)]

def S(id, ops, twin=False):
    s = {"id": id, "ops": ops}
    if twin: s["twin"] = 1
    return s
