"""C20: which firmware images are offered to a device."""
from __future__ import annotations

import asyncio
import itertools
import struct

import zigpy.config as conf
import zigpy.ota
import zigpy.ota.providers as zp
import zigpy.types as t
from zigpy.zcl.clusters.general import Ota

from ..clock import CLOCK
from ..explore import Violation, require
from ..loop import LoopCtx
from ..world import Driver, Ev, add_device, make_app

LEVEL = "model_checking"
VALIDATED = ("every combination runs through the real selection; the reference selection is an independent rule over metadata and header fields, replayed on the same "
             "image sets, and in the history scenarios every explored trace runs the real code")
ASSUMPTIONS = ["metadata takes precedence over the image's own header where both state a limit", "a download succeeds or fails in the same way whenever it is tried, except where stated",
               "asyncio runs ready callbacks in FIFO order"]

MANUF, TYPE, MODEL, VENDOR, HW, CUR = 0x1234, 0x5678, "mod.1", "Acme", 5, 100


def scenarios(tier, seed):
    th = tier == "thorough"
    out = [dict(fn="restrictions", kind="bulk", args=dict(part=i, parts=8)) for i in range(8)]
    out += [dict(fn="headers", kind="bulk", args=dict(part=i, parts=8)) for i in range(8)]
    out += [dict(fn="sets", kind="bulk", args=dict(part=i, parts=24, n=3, few=not th)) for i in range(24)]
    for case in range(len(CASES)):
        out.append(dict(fn="queries", bound=3 if th else 2, split=True, args=dict(case=case)))
    return out


def image_bytes(manuf=MANUF, typ=TYPE, version=CUR + 1, hw=None, data=b"A"):
    sub = struct.pack("<HI", 0, len(data)) + data
    opt = struct.pack("<HH", *hw) if hw else b""
    n = 56 + len(opt)
    return struct.pack("<IHHHHHIH", 0x0BEEF11E, 0x0100, n, 4 if hw else 0, manuf, typ, version, 2) + bytes(32) + struct.pack("<I", n + len(sub)) + opt + sub


class World:
    """What the servers have: url -> bytes, an exception, or a gate."""

    def __init__(self):
        self.files = {}
        self.downloads = {}
        self.good = {}
        self.gated = False
        self.gates = []
        self.loads = {}
        self.loop = None


W = World()


class Meta(zp.RemoteOtaImageMetadata):
    async def _fetch(self):
        W.downloads[self.url] = W.downloads.get(self.url, 0) + 1
        f = W.files[self.url]
        if W.gated:
            gate = W.loop.create_future()
            W.gates.append(("download " + self.url, gate))
            await gate
        if isinstance(f, Exception):
            raise f
        W.good[self.url] = W.good.get(self.url, 0) + 1
        return f


class Provider(zp.BaseOtaProvider):
    NAME = "mc"

    def __init__(self, name, metas, error=None):
        super().__init__(url="https://example.invalid/" + name)
        self.name, self.metas, self.error, self.loaded = name, metas, error, False

    async def load_index(self):
        if self.loaded and self.error is None:
            return None
        W.loads[self.name] = W.loads.get(self.name, 0) + 1
        if W.gated:
            gate = W.loop.create_future()
            W.gates.append(("index " + self.name, gate))
            await gate
        self.loaded = True
        if self.error:
            raise self.error
        return list(self.metas)


def fresh(loop):
    global W
    W.__init__()
    W.loop = loop
    app = make_app(coordinator=False)
    dev = add_device(app, 1, endpoints={1: (260, 0x0100, (0,), (0x19,))}, model=MODEL, manufacturer=VENDOR, manufacturer_code=MANUF)
    two = add_device(app, 2, endpoints={1: (260, 0x0100, (0,), (0x19,))}, model=MODEL, manufacturer=VENDOR, manufacturer_code=MANUF)
    loop.drain()
    return app, dev, two


def ota(app, providers):
    o = zigpy.ota.OTA({conf.CONF_OTA_ENABLED: False}, app)
    for p in providers:
        o.register_provider(p)
    return o


def query(hw=HW, current=CUR, manuf=MANUF, typ=TYPE):
    cmd = Ota.ServerCommandDefs.query_next_image.schema
    kw = dict(manufacturer_code=manuf, image_type=typ, current_file_version=current)
    if hw is None:
        return cmd(field_control=0, **kw)
    return cmd(field_control=1, hardware_version=hw, **kw)


# -- the reference -------------------------------------------------------------------------
def effective(meta, head):
    """(manufacturer, type, min hw, max hw), head: (manufacturer, type, hw or None) or None"""
    def pick(a, b):
        return a if a is not None else b
    h = head or (None, None, None)
    lo, hi = h[2] or (None, None)
    return (pick(meta.get("manufacturer_id"), h[0]), pick(meta.get("image_type"), h[1]),
            pick(meta.get("min_hardware_version"), lo), pick(meta.get("max_hardware_version"), hi))


def admits(meta, head, hw=HW, current=CUR, manuf=MANUF, typ=TYPE):
    m, ty, lo, hi = effective(meta, head)
    if m not in (None, manuf) or ty not in (None, typ):
        return False
    if meta.get("model_names") and MODEL not in meta["model_names"]:
        return False
    if meta.get("manufacturer_names") and VENDOR not in meta["manufacturer_names"]:
        return False
    if lo is not None and (hw is None or hw < lo) or hi is not None and (hw is None or hw > hi):
        return False
    return newer(meta, current)


def newer(meta, current):
    if meta["file_version"] <= current:
        return False
    lo, hi = meta.get("min_current_file_version"), meta.get("max_current_file_version")
    return (lo is None or current >= lo) and (hi is None or current <= hi)


def rank(meta, head):
    m, ty, lo, hi = effective(meta, head)
    s = 1000 * bool(meta.get("manufacturer_names")) + 1000 * bool(meta.get("model_names"))
    s += 100 * (m is not None) + 100 * (ty is not None)
    s += 10 * (meta.get("min_current_file_version") is not None) + 10 * (meta.get("max_current_file_version") is not None)
    s += (lo is not None) + (hi is not None) + (meta.get("specificity") or 0)
    return (meta["file_version"], s)


FIELDS = {
    "manufacturer_id": (None, MANUF, MANUF + 1),
    "image_type": (None, TYPE, 0),
    "model_names": ((), (MODEL, "other"), ("other",)),
    "manufacturer_names": ((), ("other", VENDOR), (VENDOR.lower(),)),
    "min_hardware_version": (None, HW, HW + 1),
    "max_hardware_version": (None, HW, HW - 1),
    "min_current_file_version": (None, CUR, CUR + 1),
    "max_current_file_version": (None, CUR, CUR - 1),
}


def ask(loop, o, dev, q):
    r = loop.run(o.get_ota_images(dev, q))
    return r


def urls(images):
    return [i.metadata.url for i in images]


def single(st, app, loop, dev, meta, head, hw, current, q, twice, what):
    W.__init__()
    W.loop = loop
    W.files["u"] = image_bytes(manuf=head[0], typ=head[1], hw=head[2])
    o = ota(app, [Provider("p", [Meta(url="u", **meta)])])
    want = ["u"] if admits(meta, head, hw, current) else []
    for n in range(2 if twice else 1):
        r = ask(loop, o, dev, q)
        got = urls(r.upgrades)
        require(got == want, f"query {n + 1} of a device with hardware {hw}, version {current}: the image with metadata {meta} and header {head} is "
                f"{'offered' if got else 'not offered'}", key="offered" if got else "withheld", data=dict(meta=str(meta), head=head))
        if got:
            require(bytes(r.upgrades[0].firmware.serialize()) == W.files["u"], "another image is offered", key="contents")
        require(not newer_down(r, current, meta) , "an upgrade that fits is listed as downgrade", key="downgrade")
    require(W.downloads.get("u", 0) <= 1, "the image was downloaded twice", key="downloaded-twice")
    st.executions += 1
    st.transitions += 1 + twice
    st.outcomes.add(hash((str(meta), head, hw, current)))


def newer_down(r, current, meta):
    return r.downgrades and newer(meta, current)


def restrictions(st, part, parts):
    with LoopCtx(0.0) as loop:
        app, dev, _ = fresh(loop)
        for i, combo in enumerate(itertools.product(*FIELDS.values())):
            if i % parts != part:
                continue
            meta = {k: v for k, v in zip(FIELDS, combo) if v not in (None, ())}
            for version in (CUR - 1, CUR, CUR + 1):
                for hw in (HW, None):
                    single(st, app, loop, dev, dict(meta, file_version=version), (MANUF, TYPE, None), hw, CUR, query(hw), i % 9 == 0, "")
            if i % 27 == 0:
                st.states.add(hash(combo))
        if loop.errors:
            raise Violation(f"{loop.errors[0]}", key="exception")


def headers(st, part, parts):
    heads = list(itertools.product((MANUF, MANUF + 1), (TYPE, TYPE + 1), (None, (HW, HW), (0, HW - 1), (HW + 1, 0xFFFF), (0, 0xFFFF), (HW, 0xFFFF), (0, HW))))
    keys = ("manufacturer_id", "image_type", "min_hardware_version", "max_hardware_version")
    with LoopCtx(0.0) as loop:
        app, dev, _ = fresh(loop)
        for i, (head, combo) in enumerate(itertools.product(heads, itertools.product(*(FIELDS[k] for k in keys)))):
            if i % parts != part:
                continue
            meta = {k: v for k, v in zip(keys, combo) if v is not None}
            for hw in (HW, None, 0, 0xFFFF):
                single(st, app, loop, dev, dict(meta, file_version=CUR + 1), head, hw, CUR, query(hw), True, "")
            single(st, app, loop, dev, dict(meta, file_version=CUR), head, HW, CUR, query(HW), False, "")


# -- sets of images ---------------------------------------------------------------------------
# name -> (metadata, header, contents or exception, provider)
def palette():
    A, B = b"A", b"BB"
    ok = (MANUF, TYPE, None)
    p = {
        "v1A": (dict(file_version=CUR + 1), ok, A),
        "v1A'": (dict(file_version=CUR + 1, changelog="same image, other text"), ok, A),
        "v1B": (dict(file_version=CUR + 1, changelog="b"), ok, B),
        "v1A-typed": (dict(file_version=CUR + 1, image_type=TYPE, manufacturer_id=MANUF), ok, A),
        "v1B-model": (dict(file_version=CUR + 1, model_names=(MODEL,)), ok, B),
        "v1A-vendor": (dict(file_version=CUR + 1, manufacturer_names=(VENDOR,)), ok, A),
        "v1B-boost": (dict(file_version=CUR + 1, specificity=7), ok, B),
        "v1B-cut": (dict(file_version=CUR + 1, specificity=-2000), ok, B),
        "v2B": (dict(file_version=CUR + 2), ok, B),
        "v2A-hw": (dict(file_version=CUR + 2, min_hardware_version=HW, max_hardware_version=HW), ok, A),
        "v2A-headhw": (dict(file_version=CUR + 2), (MANUF, TYPE, (HW, HW)), A),
        "v2B-badhw": (dict(file_version=CUR + 2), (MANUF, TYPE, (HW + 1, HW + 2)), B),
        "v2B-badtype": (dict(file_version=CUR + 2, changelog="t"), (MANUF, TYPE + 1, None), B),
        "v2A-othermodel": (dict(file_version=CUR + 2, model_names=("other",)), ok, A),
        "v3-broken": (dict(file_version=CUR + 3), ok, ValueError("no such file")),
        "v3-hang": (dict(file_version=CUR + 3, changelog="h"), ok, asyncio.TimeoutError()),
        "v0": (dict(file_version=CUR - 1), ok, A),
        "v0B": (dict(file_version=CUR), ok, B),
        "v3-window": (dict(file_version=CUR + 3, min_current_file_version=CUR + 1), ok, A),
    }
    return p


def put(name, entry):
    meta, head, data = entry
    W.files[name] = data if isinstance(data, Exception) else image_bytes(manuf=head[0], typ=head[1], hw=head[2], data=data)
    return Meta(url=name, **meta)


def reference(entries, broken=()):
    """The upgrades offered for these images, best first, as a set per rank."""
    fits = {n: e for n, e in entries.items() if admits(e[0], e[1]) and not isinstance(e[2], Exception) and n not in broken}
    ranks = {}
    for n, e in fits.items():
        ranks.setdefault(rank(e[0], e[1]), {}).setdefault(W.files[n], []).append(n)
    return [sorted(sum(b.values(), [])) for r, b in sorted(ranks.items(), reverse=True) if len(b) == 1]


def grouped(entries, images):
    got = [(rank(*entries[i.metadata.url][:2]), i.metadata.url) for i in images]
    return [sorted(n for _, n in g) for _, g in itertools.groupby(got, key=lambda x: x[0])]


def sets(st, part, parts, n, few):
    pal = palette()
    combos = [c for k in range(1, n + 1) for c in itertools.combinations(pal, k)]
    with LoopCtx(0.0) as loop:
        app, dev, two = fresh(loop)
        for i, names in enumerate(combos):
            if i % parts != part:
                continue
            for order in ((names, tuple(reversed(names))) if few else itertools.permutations(names)):
                for split in ((0, len(order)) if few and len(order) == 3 else range(len(order) + 1)):
                    for bad in (False, True):
                        W.__init__()
                        W.loop = loop
                        entries = {x: pal[x] for x in order}
                        metas = [put(x, entries[x]) for x in order]
                        provs = [Provider("a", metas[:split]), Provider("b", metas[split:] if not bad else [], ValueError("index") if bad else None)]
                        if bad:
                            if split == 0:
                                continue
                            entries = {x: pal[x] for x in order[:split]}
                            provs.reverse()
                        o = ota(app, provs)
                        want = reference(entries)
                        for turn, d in enumerate((dev, dev, two)):
                            r = ask(loop, o, d, query())
                            got = grouped(entries, r.upgrades)
                            require(got == want, f"query {turn + 1} over {order} offers {got}, expected {want}", key="set", data=dict(order=order, split=split))
                            require(set(urls(r.downgrades)).isdisjoint(urls(r.upgrades)), "an image is both an upgrade and a downgrade", key="both")
                            down = r.downgrades
                            require([d_.version for d_ in down] == sorted((d_.version for d_ in down), reverse=True), "downgrades are not best first", key="order")
                        for x, c in W.good.items():
                            require(c == 1, f"{x} was downloaded {c} times", key="downloaded-twice")
                        st.executions += 1
                        st.transitions += 3
                        st.states.add(hash(order))
                        st.outcomes.add(hash(str(want)))


# -- concurrent queries -------------------------------------------------------------------------
CASES = (
    (("v1A",), (), 2),
    (("v1A", "v2B"), (), 2),
    (("v1A", "v1B", "v2A-hw"), (), 2),
    (("v2A-headhw", "v2B-badhw", "v1A"), (), 2),
    (("v1A", "v3-broken", "v2B"), (), 2),
    (("v1A",), ("v2B",), 2),
    (("v1A", "v2B"), (), 3),
)


def queries(ch, case):
    """Devices ask at every moment of each other's index loads and downloads."""
    first, second, count = CASES[case]
    pal = palette()
    with LoopCtx(0.0) as loop:
        app, dev, two = fresh(loop)
        W.gated = True
        entries = {x: pal[x] for x in first + second}
        provs = [Provider("a", [put(x, entries[x]) for x in first])]
        if second:
            provs.append(Provider("b", [put(x, entries[x]) for x in second]))
        o = ota(app, provs)
        want = reference(entries)
        tasks = []

        def start():
            tasks.append(loop.create_task(o.get_ota_images((dev, two)[len(tasks) % 2], query())))

        def events():
            out = []
            for i, (label, gate) in enumerate(list(W.gates)):
                if gate.done():
                    continue

                def go(gate=gate):
                    W.gates[:] = [g for g in W.gates if g[1] is not gate]
                    if not gate.done():
                        gate.set_result(None)

                out.append(Ev(label, go, 0, 1, direct=True))
            if len(tasks) < count:
                out.append(Ev("ask", start, 0, 1, direct=True))
            return out

        def state():
            return (tuple(tk.done() for tk in tasks), tuple(g[0] for g in W.gates), tuple(sorted(W.good)))

        start()
        Driver(loop, ch, events, horizon=CLOCK.t, state=state).run()
        require(len(tasks) == count and all(tk.done() for tk in tasks), "a query never ends", key="hangs")
        if loop.errors:
            raise Violation(f"{loop.errors[0]}", key="exception")
        for i, tk in enumerate(tasks):
            if tk.exception():
                raise Violation(f"query {i + 1} raised {tk.exception()!r}", key="raised")
            got = grouped(entries, tk.result().upgrades)
            require(got == want, f"query {i + 1} of {count} over {first + second} offers {got}, expected {want}", key="concurrent")
        for x, c in W.good.items():
            require(c == 1, f"{x} was downloaded {c} times", key="downloaded-twice")
        for x, c in W.loads.items():
            require(c == 1, f"the index of {x} was loaded {c} times", key="index-twice")
        return tuple(sorted(W.downloads.items()))
