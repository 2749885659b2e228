"""One function per property: which modules are checked, what is generated, driven and validated."""
import json
import os
from concurrent.futures import ThreadPoolExecutor

from mbv import SPEC

CHECKS = {}


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


def par(*fs):
    """Run independent steps concurrently; the first error wins."""
    with ThreadPoolExecutor(max_workers=len(fs)) as ex:
        futs = [ex.submit(f) for f in fs]
        return [f.result() for f in futs]


@check("C03")
def c03(c):
    c.build("unspents")
    scripts, sim = par(lambda: c.gen_scripts("Unspents_mc", "Unspents_gen.cfg", limit=c.pick(1500, 12000)),
                       lambda: c.simulate("Unspents_mc", "Unspents_sim.cfg", num=c.pick(80, 600), depth=30, limit=c.pick(80, 600)))
    norestart = [s for s in scripts if not any(a["op"] == "restart" for a in s)]
    disk = c.sample([s for s in scripts if any(a["op"] == "restart" for a in s)], c.pick(60, 400))

    def inmem():
        c.validate("Unspents_trace", c.drive("unspents", "TestReplay", norestart + sim, dict(VH_BACKEND="inmem"), name="inmem"), label="inmem")

    def badger():
        s2 = [[a for a in s if a["op"] != "restart"] for s in sim]
        c.validate("Unspents_trace", c.drive("unspents", "TestReplay", norestart + s2, dict(VH_BACKEND="badger"), name="badger"), label="badger")

    def bdisk():
        c.validate("Unspents_trace", c.drive("unspents", "TestReplay", disk, dict(VH_BACKEND="badger", VH_DISK=1), name="disk"), label="badger-disk")

    def rnd(b, disk=""):
        def f():
            n = "rnd" + b + str(disk)
            c.validate("Unspents_trace", c.drive("unspents", "TestRandom", None, dict(VH_BACKEND=b, VH_DISK=disk,
                       VH_EPISODES=c.pick(40, 400) if not disk else c.pick(8, 60), VH_STEPS=40), name=n), label=n)
        return f
    par(inmem, badger, bdisk, rnd("inmem"), rnd("badger"), rnd("badger", 1))


@check("C01")
def c01(c):
    c.build("trade")
    scripts, sim = par(lambda: c.gen_scripts("Trade_mc", "Trade_gen.cfg", limit=c.pick(4000, 60000)),
                       lambda: c.simulate("Trade_mc", "Trade_sim.cfg", num=c.pick(300, 3000), depth=20, limit=c.pick(300, 3000)))
    par(lambda: c.validate("Trade_trace", c.drive("trade", "TestReplay", scripts + sim), label="model"),
        lambda: c.validate("Trade_trace", c.drive("trade", "TestRandom", env=dict(VH_EPISODES=c.pick(400, 5000))), label="random"))


def market(c, nq, model):
    c.build("market")
    steps = [lambda: c.validate("Market_trace", c.drive("market", "TestQuotes", env=dict(VH_EPISODES=nq)), label="quotes")]
    if model:
        scripts, sim = par(lambda: c.gen_scripts("Market_mc", "Market_gen.cfg", limit=c.pick(3000, 40000)),
                           lambda: c.simulate("Market_mc", "Market_sim.cfg", num=c.pick(200, 3000), depth=30, limit=c.pick(200, 3000)))
        steps.append(lambda: c.validate("Market_trace", c.drive("market", "TestReplay", scripts + sim), label="model"))
    else:
        c.model_check("Market_mc", "Market_check.cfg")
    par(*steps)


@check("C04")
def c04(c):
    market(c, c.pick(20, 200), True)


@check("C16")
def c16(c):
    market(c, c.pick(150, 2500), False)


@check("C17")
def c17(c):
    c.build("coinselect")
    scripts, sim = par(lambda: c.gen_scripts("CoinSelect_mc", "CoinSelect_gen.cfg", limit=c.pick(3000, 30000)),
                       lambda: c.simulate("CoinSelect_mc", "CoinSelect_sim.cfg", num=c.pick(10, 100), depth=25, limit=c.pick(200, 3000)))
    par(lambda: c.validate("CoinSelect_trace", c.drive("coinselect", "TestReplay", scripts + sim), label="model"),
        lambda: c.validate("CoinSelect_trace", c.drive("coinselect", "TestRandom", env=dict(VH_EPISODES=c.pick(150, 3000))), label="concurrent"),
        lambda: c.validate("CoinSelect_trace", c.drive("coinselect", "TestSizes", env=dict(VH_COINS=c.pick(14, 17))), label="sizes"))


REAL = [  # passphrase history on the real (slow) cipher
    [dict(op="create", p="p1", seed="s1"), dict(op="derive", ac=0, ch=0), dict(op="restart"), dict(op="seed"),
     dict(op="unlock", p="p2"), dict(op="seed"), dict(op="derive", ac=0, ch=0), dict(op="change", p="p2", np="p3"),
     dict(op="change", p="p1", np="p3"), dict(op="unlock", p="p1"), dict(op="seed"), dict(op="unlock", p="p3"),
     dict(op="seed"), dict(op="derive", ac=0, ch=0), dict(op="list", ac=0, ext=True), dict(op="lock"), dict(op="seed")],
]


def vault(c, real):
    c.build("vault")
    scripts, sim = par(lambda: c.gen_scripts("Vault_mc", "Vault_gen.cfg", limit=c.pick(2000, 20000)),
                       lambda: c.simulate("Vault_mc", "Vault_sim.cfg", num=c.pick(20, 300), depth=24, limit=c.pick(60, 1000)))

    def go(n, s, **env):
        return lambda: c.validate("Vault_trace", c.drive("vault", "TestReplay", s, env, name=n, timeout=840), label=n, timeout=800)
    disk = c.sample([s for s in scripts if any(a["op"] == "restart" for a in s)], c.pick(40, 400)) + sim[:c.pick(10, 100)]
    cut = lambda n: c.sample(scripts, n) + sim
    jobs = [go("inmem", cut(c.pick(500, 10000)), VH_BACKEND="inmem"), go("badger", cut(c.pick(900, 20000)), VH_BACKEND="badger"),
            go("disk", disk, VH_BACKEND="badger", VH_DISK=1)]
    if real:
        jobs.append(go("cipher", REAL, VH_BACKEND="badger", VH_DISK=1, VH_REAL=1))
    par(*jobs)


@check("C06")
def c06(c):
    vault(c, False)


@check("C07")
def c07(c):
    vault(c, True)


@check("C10")
def c10(c):
    c.build("securestore")
    scripts, sim = par(lambda: c.gen_scripts("SecureStore_mc", "SecureStore_gen.cfg", limit=c.pick(1500, 20000)),
                       lambda: c.simulate("SecureStore_mc", "SecureStore_sim.cfg", num=c.pick(80, 1500), depth=44, limit=c.pick(60, 1500)))

    def go(n, test, s, **env):
        return lambda: c.validate("SecureStore_trace", c.drive("securestore", test, s, env, name=n, timeout=840), label=n, timeout=800)
    par(go("model", "TestReplay", scripts), go("crash", "TestReplay", c.sample(scripts, c.pick(250, 5000)), VH_IMG=1),
        go("long", "TestReplay", sim), go("random", "TestRandom", None, VH_EPISODES=c.pick(30, 500)),
        go("rcrash", "TestRandom", None, VH_EPISODES=c.pick(6, 100), VH_IMG=1))


@check("C09")
def c09(c):
    c.build("mackeys")
    scripts, sim = par(lambda: c.gen_scripts("MacKeys_mc", "MacKeys_gen.cfg", limit=c.pick(1500, 20000)),
                       lambda: c.simulate("MacKeys_mc", "MacKeys_sim.cfg", num=c.pick(60, 1500), depth=34, limit=c.pick(60, 1500)))

    def go(n, test, s, **env):
        return lambda: c.validate("MacKeys_trace", c.drive("mackeys", test, s, env, name=n, timeout=840), label=n, timeout=800)
    steps = []
    for b in ("svc", "rks"):
        steps += [go("model-" + b, "TestReplay", c.sample(scripts, c.pick(800, 20000)) + sim, VH_BACKEND=b),
                  go("crash-" + b, "TestReplay", c.sample(scripts, c.pick(200, 4000)), VH_BACKEND=b, VH_IMG=1),
                  go("random-" + b, "TestRandom", None, VH_BACKEND=b, VH_EPISODES=c.pick(30, 500))]
    par(*steps)


@check("C08")
def c08(c):
    c.build("perms")
    scripts, sim = par(lambda: c.gen_scripts("Perms_mc", "Perms_gen.cfg"),
                       lambda: c.simulate("Perms_mc", "Perms_sim.cfg", num=c.pick(6, 60), depth=18, limit=c.pick(6, 60)))
    # histories that end in a round of calls of every method with every macaroon, and the others
    probes = [s for s in scripts if s[-1]["op"] == "probe"]
    rest = [[a for a in s if a["op"] != "probe"] for s in scripts if s[-1]["op"] != "probe"]
    half = len(probes) // 2

    def go(n, test, s, **env):
        return lambda: c.validate("Perms_trace", c.drive("perms", test, s, env, name=n, timeout=840), label=n, timeout=800)
    par(go("calls1", "TestReplay", probes[:half]), go("calls2", "TestReplay", probes[half:]), go("store", "TestReplay", rest),
        go("long", "TestReplay", sim), go("grants", "TestGrants", None, VH_GRANTS=c.pick(26, 300)))


@check("C11")
def c11(c):
    c.build("webhooks")
    scripts, sim = par(lambda: c.gen_scripts("Webhooks_mc", "Webhooks_gen.cfg", limit=c.pick(2500, 30000)),
                       lambda: c.simulate("Webhooks_mc", "Webhooks_sim.cfg", num=c.pick(80, 1500), depth=44, limit=c.pick(80, 1500)))

    def go(n, test, s, **env):
        return lambda: c.validate("Webhooks_trace", c.drive("webhooks", test, s, env, name=n, timeout=840), label=n, timeout=800)
    par(go("model", "TestReplay", scripts), go("crash", "TestReplay", c.sample(scripts, c.pick(500, 8000)), VH_IMG=1),
        go("long", "TestReplay", sim), go("busy", "TestBusy", None, VH_EPISODES=c.pick(40, 800)))


@check("C12")
def c12(c):
    c.build("crawler")
    scripts, sim = par(lambda: c.gen_scripts("Crawler_mc", "Crawler_gen.cfg", limit=c.pick(3000, 60000)),
                       lambda: c.simulate("Crawler_mc", "Crawler_sim.cfg", num=c.pick(150, 3000), depth=44, limit=c.pick(150, 3000)))

    def go(n, test, s, **env):
        return lambda: c.validate("Crawler_trace", c.drive("crawler", test, s, env, name=n, timeout=840), label=n, timeout=800)
    par(go("model", "TestReplay", scripts), go("long", "TestReplay", sim), go("busy", "TestBusy", None, VH_EPISODES=c.pick(60, 1500)))


@check("C13")
def c13(c):
    c.build("repos")
    scripts, sim = par(lambda: c.gen_scripts("Repos_mc", "Repos_gen.cfg", limit=c.pick(2400, 24000)),
                       lambda: c.simulate("Repos_mc", "Repos_sim.cfg", num=c.pick(40, 800), depth=34, limit=c.pick(40, 800)))

    def go(n, s, be, **env):
        return lambda: c.validate("Repos_trace", c.drive("repos", "TestReplay", s, dict(env, VH_BACKEND=be), name=n, timeout=1500), label=n, timeout=800)
    steps, part = [go("inmem", scripts + sim, "inmem")], c.pick(3, 6)
    for i in range(part):
        steps += [go("mem%d" % i, scripts[i::part] + sim[i::part], "mem"),
                  go("disk%d" % i, c.sample(scripts, c.pick(900, 9000))[i::part] + sim[i::part], "disk"),
                  go("crash%d" % i, c.sample(scripts, c.pick(540, 5400))[i::part] + sim[i::part][:c.pick(3, 100)], "disk", VH_IMG=1)]
    par(*steps)


@check("C21")
def c21(c):
    c.build("uow")
    scripts = c.gen_scripts("Uow_mc", "Uow_gen.cfg")
    c.validate("Uow_trace", c.drive("uow", "TestReplay", scripts), label="runs")


def swap(c, focus, n, nsim, busy=0, faults=0):
    """focus: the operations with which the scripts of this check end; a few scripts end with any other."""
    c.build("swap")
    ends = lambda s: (s[-1]["op"], s[-1].get("kind"), s[-1].get("dir"), s[-1].get("off"), s[0]["plug"])
    scripts, sim, faulty = par(lambda: c.gen_scripts("Swap_mc", "Swap_gen.cfg", timeout=900),
                               lambda: c.simulate("Swap_mc", "Swap_sim.cfg", num=nsim, depth=25, limit=nsim),
                               lambda: c.gen_scripts("Swap_mc", "Swap_fault.cfg", timeout=900) if faults else [])
    # a store access fails: every kind of action with every access, then anything
    first = lambda s: next((i for i, a in enumerate(s) if "fault" in a), 0)
    faulty = [s for s in faulty if first(s) and s[first(s)]["op"] in focus]
    faulty = c.spread(faulty, faults, lambda s: (s[first(s)]["op"], s[first(s)]["fault"], tuple(a["op"] for a in s[first(s) - 1:first(s) + 2])))
    mine = [s for s in scripts if s[-1]["op"] in focus]
    rest = [s for s in scripts if s[-1]["op"] not in focus]
    s = c.spread(mine, n, ends) + c.spread(rest, n // 4, ends) + faulty
    c.rng.shuffle(s)

    def go(i):
        return lambda: c.validate("Swap_trace", c.drive("swap", "TestReplay", s[i::8] + sim[i::8], name="model%d" % i, timeout=1200), label="model%d" % i, timeout=900)

    def together(i):
        be = ("badger", "inmem")[i % 2]
        return lambda: c.validate("Swap_trace", c.drive("swap", "TestBusy", None, dict(VH_EPISODES=busy, VH_BACKEND=be, VH_SEED=c.seed * 100 + i),
                                  name="%s%d" % (be, i), timeout=1200), label="%s%d" % (be, i), timeout=900)
    par(*[go(i) for i in range(8)])
    if busy:
        par(*[together(i) for i in range(8)])


@check("C02")
def c02(c):
    c.model_check("Swap_mc", "Swap_check.cfg", timeout=800)
    swap(c, {"propose", "complete", "fail", "tick"}, c.pick(480, 8000), c.pick(24, 400), busy=c.pick(10, 200), faults=c.pick(60, 1500))


@check("C14")
def c14(c):
    swap(c, {"complete", "fail"}, c.pick(800, 12000), c.pick(40, 500), busy=c.pick(4, 100))


@check("C15")
def c15(c):
    swap(c, {"confirm", "deposit", "observe", "restart", "tick"}, c.pick(960, 12000), c.pick(60, 600), faults=c.pick(200, 3000))


@check("C22")
def c22(c):
    swap(c, {"propose"}, c.pick(960, 12000), c.pick(60, 600))


@check("C23")
def c23(c):
    swap(c, {"propose", "open", "close", "lock", "unlock"}, c.pick(1000, 12000), c.pick(40, 400))


def operator(c, focus, n, nsim, stored, busy):
    """Operator and wallet service over the simulated chain: scripts of the model, on virtual time and over both stores, and concurrent requests."""
    c.build("operator")
    ends = lambda s: (s[-1]["op"], s[-1].get("q"), s[-1].get("base"), str(s[-1].get("outs", ""))[:60], str(s[-1].get("pts", "")))
    last2 = lambda s: ends(s) + (str(s[-2].get("outs", "")) if s[-1]["op"] == "claim" else s[-2]["op"],)
    scripts, sim = par(lambda: c.gen_scripts("Operator_mc", "Operator_gen.cfg", timeout=900),
                       lambda: c.simulate("Operator_mc", "Operator_sim.cfg", num=nsim, depth=28, limit=nsim))
    mine = [s for s in scripts if s[-1]["op"] in focus]
    rest = [s for s in scripts if s[-1]["op"] not in focus]
    s = c.spread(mine, n, last2) + c.spread(rest, n // 4, ends)
    c.rng.shuffle(s)
    kept, real = s[stored:], s[:stored]

    def go(i):
        return lambda: c.validate("Operator_trace", c.drive("operator", "TestReplay", kept[i::8] + sim[i::8], name="model%d" % i, timeout=1500), label="model%d" % i, timeout=900)

    def real_stores(i):
        be = ("badger", "inmem")[i % 2]
        return lambda: c.validate("Operator_trace", c.drive("operator", "TestStored", real[i::8] + sim[i::16], dict(VH_BACKEND=be), name="%s%d" % (be, i), timeout=1500),
                                  label="%s%d" % (be, i), timeout=900)

    def together(i):
        be = ("badger", "inmem")[i % 2]
        return lambda: c.validate("Operator_trace", c.drive("operator", "TestBusy", None, dict(VH_EPISODES=busy, VH_BACKEND=be, VH_SEED=c.seed * 100 + i), name="busy%s%d" % (be, i), timeout=1500),
                                  label="busy%s%d" % (be, i), timeout=900)
    for group in (go, real_stores, together):
        par(*[group(i) for i in range(8)])


@check("C05")
def c05(c):
    c.model_check("Operator_mc", "Operator_check.cfg", timeout=800)
    operator(c, {"new", "deposit", "fee", "addr", "open", "close", "pct", "fixed", "price", "strat", "drop", "claim", "restart"}, c.pick(900, 12000), c.pick(24, 500), c.pick(80, 1200), c.pick(6, 150))


@check("C18")
def c18(c):
    operator(c, {"claim", "claimfee", "pay", "mine", "reload", "feebal", "walletbal"}, c.pick(1000, 12000), c.pick(24, 500), c.pick(80, 1200), c.pick(6, 150))


@check("C19")
def c19(c):
    operator(c, {"withdraw", "send", "reserve", "release", "mine"}, c.pick(640, 12000), c.pick(24, 500), c.pick(80, 1200), c.pick(6, 150))


@check("C20")
def c20(c):
    c.build("restore")
    ends = lambda s: (s[-1]["op"], s[-1].get("fault"), s[-1].get("at"), s[-1].get("restore"), len(str(s[1])))
    n = c.pick(640, 8000)
    _, scripts, sim = par(lambda: c.model_check("Restore_mc", "Restore_check.cfg", timeout=900),
                          lambda: c.gen_scripts("Restore_mc", "Restore_gen.cfg", timeout=900),
                          lambda: c.simulate("Restore_mc", "Restore_sim.cfg", num=c.pick(64, 900), depth=26, limit=c.pick(64, 900)))
    dies = lambda s: any(a.get("fault") == "crash" for a in s)
    s = c.spread([x for x in scripts if not dies(x)], n, ends)
    d = c.spread([x for x in scripts if dies(x)], n // 4, ends)
    calm, rough = [x for x in sim if not dies(x)], [x for x in sim if dies(x)]
    gap = [json.loads(l) for l in open(os.path.join(SPEC, "Restore_known.ndjson"))]

    def go(i):
        return lambda: c.validate("Restore_trace", c.drive("restore", "TestReplay", s[i::8] + calm[i::8], name="model%d" % i, timeout=1500), label="model%d" % i, timeout=900)

    def stored(i):
        be = ("badger", "inmem")[i % 2]
        q = s[i::48] + calm[i::24]
        return lambda: c.validate("Restore_trace", c.drive("restore", "TestStored", q, dict(VH_BACKEND=be), name="%s%d" % (be, i), timeout=1500), label="%s%d" % (be, i), timeout=900)

    def died(i):
        return lambda: c.validate("Restore_trace", c.drive("restore", "TestStored", d[i::8] + rough[i::8], dict(VH_BACKEND="badger"), name="died%d" % i, timeout=1500), label="died%d" % i, timeout=900)
    for group in (go, stored, died):
        par(*[group(i) for i in range(8)])
    c.validate("Restore_trace", c.drive("restore", "TestReplay", gap, name="known"), label="known")


@check("C24")
def c24(c):
    c.build("views")
    scripts, sim = par(lambda: c.gen_scripts("Views_mc", "Views_gen.cfg", limit=c.pick(1200, 12000), key=lambda s: json.dumps([s[0]["big"], len(s[0]["mks"])] + [a["op"] for a in s[1:]])),
                       lambda: c.simulate("Views_mc", "Views_sim.cfg", num=c.pick(160, 2500), depth=61, limit=c.pick(160, 2500)))

    def go(n, backend, s):
        return lambda: c.validate("Views_trace", c.drive("views", "TestReplay", s, name=n, env=dict(VH_BACKEND=backend), timeout=840), label=n, timeout=800)
    par(go("steps", "inmem", scripts), *[go("long%d" % i, "inmem", sim[i::4]) for i in range(4)],
        go("badger", "badger", c.sample(scripts, c.pick(150, 1500)) + sim[:c.pick(20, 300)]))


@check("C25")
def c25(c):
    c.build("relay")
    scripts, sim = par(lambda: c.gen_scripts("Relay_mc", "Relay_gen.cfg"),
                       lambda: c.simulate("Relay_mc", "Relay_sim.cfg", num=c.pick(60, 1500), depth=61, limit=c.pick(60, 1500)))
    kept = [json.loads(l) for l in open(os.path.join(SPEC, "Relay_known.ndjson"))]

    def go(n, s):
        return lambda: c.validate("Relay_trace", c.drive("relay", "TestReplay", s, name=n, timeout=840), label=n, timeout=800)
    par(go("one0", scripts[::2]), go("one1", scripts[1::2]), go("many0", sim[::2]), go("many1", sim[1::2]), go("known", kept))
