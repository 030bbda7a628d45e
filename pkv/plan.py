"""Which scenarios a check executes, and which design model it checks."""
import concurrent.futures, random
from . import fam, model, run

FAMILIES = "flips_connect flips_ack resize_nego headers envelope flips_user pins permuted challenges keys numbers bulks contents typed typedvals formats clones orders large tamper reconnect sinks storms histories idents refused several shared endurance lives known".split()

# (configuration, share of its walks executed by a quick check) when the property is the focus, otherwise
MODELS = {"PkstlOneNego.cfg": (1.0, 1.0), "PkstlOneEarly.cfg": (1.0, 0.5), "PkstlOneWindow.cfg": (0.6, 0.15)}
FOCUS = {"PkstlOneWindow.cfg": {"C06", "C07", "C08", "C09", "C10", "C11", "C12", "C18", "C20", "C21", "C22"},
         "PkstlOneEarly.cfg": {"C04", "C05", "C07", "C08", "C09", "C10", "C11", "C22"},
         "PkstlOneNego.cfg": {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C15", "C20", "C21", "C22"}}

def scenarios(pid, thorough, seed):
    out, info = [], []
    for f in FAMILIES:
        out += getattr(fam, f)(thorough, random.Random("%s/%d" % (f, seed)))
    for cfg, (hi, lo) in MODELS.items():
        s, i = model.one(cfg, not thorough, seed, 10 ** 9, cover="edge" if thorough else "class")
        share = 1.0 if thorough else hi if pid in FOCUS[cfg] else lo
        if share < 1:
            s = random.Random("%s/%s/%d" % (cfg, pid, seed)).sample(s, int(len(s) * share))
        i["executed"] = len(s)
        info.append(i); out += s
    for s, i in nets(thorough, seed):
        info.append(i); out += s
    if pid in (None, "C17", "C26"):
        v = fam.variants(out, 400 if thorough else 100, random.Random("variants/%d" % seed))
        info.append({"sets_of_features": sorted(run.VARIANTS), "executed": len(v)})
        out = v if pid == "C26" else out + v
    return out, info

NETS = ["PkstlNetHonest.cfg", "PkstlNetHonestM.cfg", "PkstlNetCross.cfg", "PkstlNetWalkA.cfg", "PkstlNetWalkM.cfg", "PkstlNetWalkF.cfg",
        "PkstlNetWalkS.cfg", "PkstlNetWalkT.cfg"]

def nets(thorough, seed):
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        k = ex.submit(model.sinks, "PkstlSink.cfg", not thorough, seed)
        l = ex.submit(model.life, "PkstlLife.cfg", not thorough, seed)
        c = ex.submit(model.codec, "PkstlCodec.cfg", not thorough, seed)
        return list(ex.map(lambda cfg: model.net(cfg, not thorough, seed), NETS)) + [k.result(), c.result(), l.result()]

def design(pid, thorough):
    if thorough: return ["PkstlOneProps.cfg", "PkstlNetReplay.cfg", "PkstlWindowT.cfg", "PkstlNetSess.cfg", "PkstlLifeT.cfg", "PkstlChanLive.cfg", "PkstlChanLiveM.cfg", "PkstlChanCross.cfg",
                         "PkstlChanSess.cfg", "PkstlChanAttack.cfg", "PkstlNetAttackP.cfg", "PkstlNetAttack.cfg"]
    return ["PkstlOneQuick.cfg", "PkstlNetReplay.cfg", "PkstlWindow.cfg", "PkstlChanLive.cfg", "PkstlChanLiveM.cfg", "PkstlChanCross.cfg"]
