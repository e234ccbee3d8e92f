"""C24: device definitions (quirks) matched and applied, against a reference matcher."""
from __future__ import annotations

import itertools
import pathlib
import sys
import types

import zigpy.types as t
import zigpy.zcl
from zigpy.exceptions import MultipleQuirksMatchException
from zigpy.quirks import BaseCustomDevice, CustomCluster, CustomDevice, CustomEndpoint
import zigpy.quirks
import zigpy.quirks.v2
from zigpy.quirks.registry import DeviceRegistry
from zigpy.quirks.v2 import ClusterType, CustomDeviceV2, QuirkBuilder
from zigpy.zcl.clusters.general import Basic, OnOff, LevelControl
import zigpy.device
import zigpy.endpoint

from ..explore import Violation, require
from ..loop import LoopCtx
from ..world import ieee, make_app, node_desc

LEVEL = "exploration"
RULE = ("v1 matching: every choice of given and omitted signature keys x every device within one (thorough: two) edits of the signature; registries: every history of registrations and removals of overlapping definitions up to the stated depth; new-style definitions: every subset of filters, every set of up to three changes")
ASSUMPTIONS = ["a definition that is registered already is not registered a second time", "changes of one new-style definition do not touch the same cluster twice", "filters are pure"]

KEYS = ("manufacturer", "model", "p1", "t1", "i1", "o1", "p2", "i2")


def scenarios(tier, seed):
    out = [dict(fn="edits", kind="bulk", args=dict(part=i, parts=16, pairs=tier == "thorough")) for i in range(16)]
    out += [dict(fn="registry", kind="bulk", args=dict(first=i, depth=6 if tier == "thorough" else 5)) for i in range(len(DEFS))]
    out += [dict(fn="purge", kind="bulk", args=dict(depth=6 if tier == "thorough" else 5, first=i)) for i in range(len(FILES))]
    out += [dict(fn="replacement", kind="bulk", args=dict(part=i, parts=8)) for i in range(8)]
    out.append(dict(fn="wide", kind="bulk", args=dict()))
    out.append(dict(fn="ambiguous", kind="bulk", args=dict()))
    out += [dict(fn="changes", kind="bulk", args=dict(n=3, part=i, parts=16)) for i in range(16)]
    return out


class Clean:
    """Leaves the process-wide registry as it was."""

    def __enter__(self):
        self.ctx = LoopCtx()
        self.ctx.__enter__()
        self.app = make_app(coordinator=False)
        return self

    def __exit__(self, *a):
        zigpy.quirks.v2.UNBUILT_QUIRK_BUILDERS.clear()
        return self.ctx.__exit__(*a)


# -- devices -----------------------------------------------------------------------------
# A device: (manufacturer, model, {ep: (profile, type, (in...), (out...))})
def build(app, spec, n=1):
    manuf, model, eps = spec
    dev = zigpy.device.Device(app, ieee(n), t.NWK(0x1230 + n))
    dev.node_desc = node_desc()
    if manuf is not None:
        dev.manufacturer = manuf
    if model is not None:
        dev.model = model
    for eid, (profile, typ, ins, outs) in eps.items():
        ep = dev.add_endpoint(eid)
        ep.profile_id = profile
        ep.device_type = typ
        ep.status = zigpy.endpoint.Status.ZDO_INIT
        for c in ins:
            ep.add_input_cluster(c)
        for c in outs:
            ep.add_output_cluster(c)
    dev.lqi, dev.rssi = 200 + n, -40 - n
    dev.last_seen = 1700000000.25 + n
    dev.relays = [t.NWK(0x0A00 + n)]
    dev.status = zigpy.device.Status.ENDPOINTS_INIT
    return dev


def spec_of(dev):
    return (dev.manufacturer, dev.model, {
        eid: (ep.profile_id, ep.device_type, tuple(ep.in_clusters), tuple(ep.out_clusters))
        for eid, ep in dev.endpoints.items() if eid != 0
    })


IDENT = ("ieee", "nwk", "node_desc", "manufacturer", "model", "lqi", "rssi", "last_seen", "relays", "status", "skip_configuration")


def ident(dev):
    return {k: getattr(dev, k) for k in IDENT}


def definition(sig, replacement=None, name="Def", **attrs):
    """A v1 definition that is not registered anywhere yet."""
    body = dict(attrs)
    body["replacement"] = {} if replacement is None else replacement
    cls = type(name, (CustomDevice,), body)  # no signature yet: nothing registers
    cls.signature = sig
    return cls


# -- reference ---------------------------------------------------------------------------
def matches(sig, spec):
    manuf, model, eps = spec
    if "model" in sig and sig["model"] != model:
        return False
    if "manufacturer" in sig and sig["manufacturer"] != manuf:
        return False
    if "endpoints" not in sig:
        return False
    if set(sig["endpoints"]) != set(eps):
        return False
    for eid, want in sig["endpoints"].items():
        profile, typ, ins, outs = eps[eid]
        if "profile_id" in want and want["profile_id"] != profile:
            return False
        if "device_type" in want and want["device_type"] != typ:
            return False
        if set(want.get("input_clusters", ())) != set(ins) or set(want.get("output_clusters", ())) != set(outs):
            return False
    return True


class Ref:
    def __init__(self):
        self.lists = {}
        self.v2 = []

    def keys(self, cls):
        sig = cls.signature
        if sig.get("models_info"):
            return [tuple(k) for k in sig["models_info"]]
        return [(sig.get("manufacturer"), sig.get("model"))]

    def add(self, cls):
        for k in self.keys(cls):
            self.lists.setdefault(k, []).append(cls)

    def remove(self, cls):
        for k in self.keys(cls):
            self.lists[k].remove(cls)

    def find(self, spec):
        manuf, model, _ = spec
        tried = []
        for k in ((manuf, model), (manuf, None), (None, model), (None, None)):
            if k in tried:
                continue
            tried.append(k)
            for cls in reversed(self.lists.get(k, [])):
                if matches(cls.signature, spec):
                    return cls
        return None


def check_match(app, reg, ref, spec, ctx, n=1):
    dev = build(app, spec, n)
    before, shape = ident(dev), spec_of(dev)
    want = ref.find(spec)
    got = reg.get_device(dev)
    if want is None:
        require(got is dev, f"no definition matches {spec} but it became {type(got).__name__} ({ctx})")
    else:
        require(type(got) is want, f"{spec} became {type(got).__name__}, expected {want.__name__} ({ctx})")
        check_applied(got, want.replacement, before, shape, ctx)
    require(spec_of(dev) == shape and ident(dev) == before, f"matching changed the device itself ({ctx})")
    again = reg.get_device(got)
    require(again is got if want is not None else again is dev, f"matching again gave another device ({ctx})")
    return want


def check_applied(got, repl, before, shape, ctx):
    after = ident(got)
    for k in IDENT:
        w = repl.get(k, before[k])
        require(after[k] == w, f"replacement has {k}={after[k]!r}, expected {w!r} ({ctx})")
    eps = repl.get("endpoints", {})
    require(set(got.endpoints) - {0} == set(eps), f"replacement has endpoints {sorted(got.endpoints)}, expected {sorted(eps)} ({ctx})")
    for eid, data in eps.items():
        ep = got.endpoints[eid]
        cls = CustomEndpoint
        if isinstance(data, tuple):
            cls, data = data
        require(type(ep) is cls, f"endpoint {eid} is a {type(ep).__name__}, expected {cls.__name__} ({ctx})")
        old = shape[2].get(eid)
        require(ep.profile_id == data.get("profile_id", old and old[0]), f"endpoint {eid}: profile {ep.profile_id} ({ctx})")
        require(ep.device_type == data.get("device_type", old and old[1]), f"endpoint {eid}: type {ep.device_type} ({ctx})")
        require(ep.device is got and ep.endpoint_id == eid, f"endpoint {eid} belongs elsewhere ({ctx})")
        check_clusters(ep, ep.in_clusters, data.get("input_clusters", []), True, ctx)
        check_clusters(ep, ep.out_clusters, data.get("output_clusters", []), False, ctx)


def check_clusters(ep, have, want, server, ctx):
    ids = {}
    for c in want:
        ids[c if isinstance(c, int) else c.cluster_id] = None if isinstance(c, int) else c
    side = "server" if server else "client"
    require(set(have) == set(ids), f"endpoint {ep.endpoint_id} has {side} clusters {sorted(have)}, expected {sorted(ids)} ({ctx})")
    for cid, cls in ids.items():
        cl = have[cid]
        require(cl.cluster_id == cid and cl.endpoint is ep, f"{side} cluster {cid:#x} belongs elsewhere ({ctx})")
        require(cl.is_server == server, f"{side} cluster {cid:#x} of endpoint {ep.endpoint_id} is a {'server' if cl.is_server else 'client'} ({ctx})")
        if cls is not None:
            require(type(cl) is cls, f"{side} cluster {cid:#x} is a {type(cl).__name__}, expected {cls.__name__} ({ctx})")
        else:
            require(not isinstance(cl, CustomCluster), f"{side} cluster {cid:#x} is a {type(cl).__name__} ({ctx})")


class MyOnOff(CustomCluster, OnOff):
    pass


class MyBasic(CustomCluster, Basic):
    pass


class MyLevel(CustomCluster, LevelControl):
    pass


class MyEndpoint(CustomEndpoint):
    pass


# -- v1: one signature, devices around it --------------------------------------------------
BASE = ("Acme", "Lamp", {1: (0x0104, 0x0100, (0, 6), (0x19,)), 2: (0x0104, 0x0101, (0, 8), (6,))})
REPL = {"endpoints": {1: {"profile_id": 0x0104, "device_type": 0x0100, "input_clusters": [0, MyOnOff], "output_clusters": [0x19]}}}


def device_edits():
    def dev(manuf="Acme", model="Lamp", eps=None):
        return (manuf, model, dict(BASE[2] if eps is None else eps))

    def ep(eid, i, v):
        def f(s):
            m, mo, eps = s
            if eid not in eps:
                return None
            e = list(eps[eid])
            if e[i] == v:
                return None
            e[i] = v
            return m, mo, {**eps, eid: tuple(e)}
        return f

    def clus(eid, i, fn):
        def f(s):
            m, mo, eps = s
            if eid not in eps:
                return None
            e = list(eps[eid])
            e[i] = fn(e[i])
            return m, mo, {**eps, eid: tuple(e)}
        return f

    out = [lambda s: s]
    for v in ("Acme2", "acme", None, "Lamp", ""):
        out.append(lambda s, v=v: (v, s[1], s[2]))
    for v in ("Lamp2", "lamp", None, "Acme", ""):
        out.append(lambda s, v=v: (s[0], v, s[2]))
    for e in (1, 2):
        out.append(lambda s, e=e: (s[0], s[1], {k: v for k, v in s[2].items() if k != e}))
        out.append(lambda s, e=e: (s[0], s[1], {(k if k != e else 11): v for k, v in s[2].items()}))
    out.append(lambda s: (s[0], s[1], {**s[2], 3: (0x0104, 0x0100, (), ())}))
    out.append(lambda s: (s[0], s[1], {**s[2], 242: (0xA1E0, 0x0061, (), (0x21,))}))
    out.append(lambda s: (s[0], s[1], {}))
    out.append(lambda s: (s[0], s[1], {2: s[2][1], 1: s[2][2]} if set(s[2]) == {1, 2} else s[2]))
    for e in (1, 2):
        for v in (0xC05E, None, 0):
            out.append(ep(e, 0, v))
        for v in (0x0102, None, 0):
            out.append(ep(e, 1, v))
        for i in (2, 3):
            out.append(clus(e, i, lambda c: c[:-1]))
            out.append(clus(e, i, lambda c: c + (0x0402,)))
            out.append(clus(e, i, lambda c: ()))
            out.append(clus(e, i, lambda c: c[::-1]))
            out.append(clus(e, i, lambda c: c[:-1] + (0xFC00,)))
            out.append(clus(e, i, lambda c: c + (0,)))
        out.append(lambda s, e=e: (s[0], s[1], {**s[2], e: s[2][e][:2] + (s[2][e][3], s[2][e][2])}) if e in s[2] else None)
    return out


def dedup(spec):
    m, mo, eps = spec
    return m, mo, {e: (p, ty, tuple(dict.fromkeys(i)), tuple(dict.fromkeys(o))) for e, (p, ty, i, o) in eps.items()}


def signature(mask, form):
    given = {k for i, k in enumerate(KEYS) if mask >> i & 1}
    e1, e2 = {}, {}
    for k, d, key, v in (("p1", e1, "profile_id", 0x0104), ("t1", e1, "device_type", 0x0100), ("i1", e1, "input_clusters", [0, 6]),
                         ("o1", e1, "output_clusters", [0x19]), ("p2", e2, "profile_id", 0x0104), ("i2", e2, "input_clusters", [8, 0])):
        if k in given:
            d[key] = v
    e2["device_type"] = 0x0101
    e2["output_clusters"] = [6]
    sig = {"endpoints": {1: e1, 2: e2}}
    if form == "plain":
        if "manufacturer" in given:
            sig["manufacturer"] = "Acme"
        if "model" in given:
            sig["model"] = "Lamp"
    elif form == "info":
        sig["models_info"] = [("Acme" if "manufacturer" in given else None, "Lamp" if "model" in given else None), ("Other", "Lamp2")]
    elif form == "both":  # the list of models decides where the definition is looked up, the keys still have to match
        sig["models_info"] = [("Acme", "Lamp"), ("Acme2", "Lamp")]
        if "manufacturer" in given:
            sig["manufacturer"] = "Acme"
    elif form == "nothing":
        del sig["endpoints"]
    return sig


def edits(st, part, parts, pairs):
    ed = device_edits()
    specs = {}
    for combo in itertools.combinations(range(len(ed)), 2) if pairs else ((0, i) for i in range(len(ed))):
        s = BASE
        for i in combo:
            s = ed[i](s) if s is not None else None
        if s is not None:
            s = dedup(s)
            specs[repr(s)] = s
    # devices on which a lacking cluster list (meaning: none) is what matches
    for i1, o1, i2 in itertools.product(((), (0, 6)), ((), (0x19,)), ((), (0, 8))):
        s = ("Acme", "Lamp", {1: (0x0104, 0x0100, i1, o1), 2: (0x0104, 0x0101, i2, (6,))})
        specs[repr(s)] = s
        for e in ed[1:] if not pairs else ed[1:30]:
            r = e(s)
            if r is not None:
                r = dedup(r)
                specs[repr(r)] = r
    todo = [(m, f) for m in range(1 << len(KEYS)) for f in ("plain", "info", "both", "nothing")]
    with Clean() as c:
        for mask, form in todo[part::parts]:
            reg, ref = DeviceRegistry(), Ref()
            cls = definition(signature(mask, form), REPL)
            reg.add_to_registry(cls)
            ref.add(cls)
            hit = 0
            for s in specs.values():
                hit += check_match(c.app, reg, ref, s, f"signature {cls.signature}") is not None
                st.executions += 1
            st.transitions += len(specs)
            st.states.add((mask, form))
            st.outcomes.add((mask, form, hit))


# -- v1: several definitions, registered and removed in every order --------------------------
E1 = {1: {"profile_id": 0x0104, "device_type": 0x0100, "input_clusters": [0, 6], "output_clusters": [0x19]}}
E2 = {1: {"profile_id": 0x0104, "device_type": 0x0100, "input_clusters": [0, 6], "output_clusters": []}}
DEFS = [
    {"manufacturer": "A", "model": "x", "endpoints": E1},
    {"models_info": [("A", "x"), ("B", "x"), ("A", "y")], "endpoints": E1},
    {"manufacturer": "A", "endpoints": E1},
    {"model": "x", "endpoints": E1},
    {"endpoints": E1},
    {"manufacturer": "A", "model": "x", "endpoints": E2},
    {"models_info": [("A", None), (None, "x")], "endpoints": E1},
    {"models_info": [(None, None), ("C", "z")], "endpoints": E1},
]
QUERY = [(m, mo, {1: (0x0104, 0x0100, (0, 6), outs)}) for m in ("A", "B", None) for mo in ("x", "y", None) for outs in ((0x19,), ())]


def wide(st):
    """Definitions with up to four endpoints: what differs may be any of them, or any two."""
    base = {1: (260, 0x0100, (0, 4, 6), (0x19,)), 2: (260, 0x0101, (6, 8), ()), 11: (0xC05E, 0x0210, (0,), (5, 6)), 242: (0xA1E0, 0x61, (), (0x21,))}
    with Clean() as c:
        for order in itertools.permutations(base):
            for n in (3, 4):
                eids = order[:n]
                eps = {e: base[e] for e in eids}
                sig = {"models_info": [("m", "x")], "endpoints": {e: dict(zip(("profile_id", "device_type", "input_clusters", "output_clusters"), (p, d, list(i), list(o))))
                                                                  for e, (p, d, i, o) in eps.items()}}
                cls = definition(sig, {"endpoints": {1: {"profile_id": 260, "device_type": 1, "input_clusters": [0], "output_clusters": []}}})
                reg, ref = DeviceRegistry(), Ref()
                reg.add_to_registry(cls)
                ref.add(cls)
                edits = [(e, k) for e in eids for k in ("profile", "type", "in+", "in-", "out+", "out-", "gone", "moved")]
                for pick in [(), *[(x,) for x in edits], *[p for p in itertools.combinations(edits, 2) if p[0][0] != p[1][0]]] if n == 3 or order[0] == 1 else [()]:
                    dev = dict(eps)
                    for e, k in pick:
                        p, d, i, o = dev[e]
                        if k == "gone":
                            del dev[e]
                        elif k == "moved":
                            dev[e + 5] = dev.pop(e)
                        else:
                            dev[e] = {"profile": (p ^ 1, d, i, o), "type": (p, d ^ 1, i, o), "in+": (p, d, (*i, 0x300), o), "in-": (p, d, i[:-1], o),
                                      "out+": (p, d, i, (*o, 0x300)), "out-": (p, d, i, o[:-1])}[k]
                    check_match(c.app, reg, ref, ("m", "x", dev), f"definition with endpoints {eids}, device changed in {pick}")
                    st.executions += 1
                    st.outcomes.add((eids, pick))


def registry(st, first, depth):
    with Clean() as c:
        classes = [definition(s, {"endpoints": {1: {"input_clusters": [0], "output_clusters": []}}}, name=f"Def{i}") for i, s in enumerate(DEFS)]
        seen = set()

        def run(hist):
            reg, ref, on = DeviceRegistry(), Ref(), set()
            for i in hist:
                if i in on:
                    reg.remove(classes[i])
                    ref.remove(classes[i])
                    on.discard(i)
                else:
                    reg.add_to_registry(classes[i])
                    ref.add(classes[i])
                    on.add(i)
            res = []
            for q in QUERY:
                w = check_match(c.app, reg, ref, q, f"history {hist} over {DEFS}")
                res.append(w.__name__ if w else None)
            for i, k in enumerate(classes):
                if i in on:
                    require(k in reg or DEFS[i].get("model") and "manufacturer" not in DEFS[i] or "models_info" in DEFS[i], f"{k.__name__} is registered but not in the registry ({hist})")
            st.executions += 1
            st.transitions += len(hist)
            seen.add(tuple(res))

        def rec(hist):
            run(hist)
            if len(hist) < depth:
                for i in range(len(DEFS)):
                    rec(hist + [i])

        rec([first])
        st.states |= seen
        st.outcomes |= seen


# -- purging --------------------------------------------------------------------------------
# (file, style): which definitions come from which files
FILES = [
    ("/mcq/custom/a.py", 1), ("/mcq/custom/sub/b.py", 1), ("/mcq/custom2/c.py", 1), ("/mcq/lib/d.py", 1),
    ("/mcq/custom/e.py", 2), ("/mcq/custom/sub/f.py", 2), ("/mcq/custom2/g.py", 2), ("/mcq/lib/custom/h.py", 2),
]
ROOTS = ["/mcq/custom", "/mcq/custom/sub", "/mcq/lib", "/mcq"]


def purge(st, depth, first):
    with Clean() as c:
        classes, mods = {}, []
        for i, (f, style) in enumerate(FILES):
            if style == 1:
                name = f"mcq_mod_{i}"
                mod = types.ModuleType(name)
                mod.__file__ = f
                sys.modules[name] = mod
                mods.append(name)
                cls = definition({"manufacturer": "A", "model": "x", "endpoints": E1}, {"endpoints": {}}, name=f"P{i}")
                cls.__module__ = name
                classes[i] = cls
        spec = QUERY[0]
        alphabet = list(range(len(FILES))) + ROOTS

        def run(hist):
            reg, on1, on2 = DeviceRegistry(), [], set()
            for op in hist:
                if isinstance(op, str):
                    reg.purge_custom_quirks(pathlib.Path(op))
                    stale = {i for i, (f, _) in enumerate(FILES) if f.startswith(op + "/")}
                    on1 = [i for i in on1 if i not in stale]
                    on2 -= stale
                elif FILES[op][1] == 1:
                    reg.add_to_registry(classes[op])
                    on1.append(op)
                else:
                    add_v2(reg, "A", "x", FILES[op][0], op)
                    on2.add(op)
            check_v2(c.app, reg, spec, on2, classes[on1[-1]] if on1 else None, f"history {hist}", st)
            st.executions += 1
            st.transitions += len(hist)

        def rec(hist, on):
            run(hist)
            if len(hist) < depth:
                for op in alphabet:
                    if isinstance(op, str):
                        stale = {i for i, (f, _) in enumerate(FILES) if f.startswith(op + "/")}
                        rec(hist + [op], on - stale)
                    elif op not in on:
                        rec(hist + [op], on | {op})

        try:
            rec([first], {first})
        finally:
            for m in mods:
                del sys.modules[m]
        st.states |= st.outcomes


class V2Classes:
    cache = {}

    @classmethod
    def get(cls, i):
        if i not in cls.cache:
            cls.cache[i] = type(f"V2Dev{i}", (CustomDeviceV2,), {})
        return cls.cache[i]


ENTRIES = {}


def add_v2(reg, manuf, model, file, i, flt=None, more=()):
    """Registers definition number i, built once (building looks at the call stack, which is slow)."""
    key = manuf, model, file, i, repr(flt), tuple(more)
    if key not in ENTRIES:
        ENTRIES[key] = build_v2(DeviceRegistry(), manuf, model, file, i, flt, more)
    for m in ((manuf, model), *more):
        reg.add_to_registry_v2(*m, ENTRIES[key])


def build_v2(reg, manuf, model, file, i, flt=None, more=()):
    qb = QuirkBuilder(manuf, model, registry=reg)
    for m in more:
        qb = qb.also_applies_to(*m)
    qb = qb.device_class(V2Classes.get(i))
    if flt is not None:
        for f in flt if isinstance(flt, (list, tuple)) else [flt]:
            qb = qb.filter(f)
    qb.quirk_file = pathlib.Path(file)
    return qb.add_to_registry()


def check_v2(app, reg, spec, live, v1, ctx, st):
    """`live`: the new-style definitions that match; `v1`: the definition tried when none does."""
    dev = build(app, spec)
    before, shape = ident(dev), spec_of(dev)
    try:
        got = reg.get_device(dev)
    except MultipleQuirksMatchException:
        require(len(live) > 1, f"reported as ambiguous although only {sorted(live)} match ({ctx})")
        st.outcomes.add(("ambiguous", len(live)))
        return None
    require(len(live) <= 1, f"definitions {sorted(live)} all match but {type(got).__name__} was chosen ({ctx})")
    if live:
        (i,) = live
        require(type(got) is V2Classes.get(i), f"became {type(got).__name__}, expected {V2Classes.get(i).__name__} ({ctx})")
        require(spec_of(got) == shape, f"replaced device has {spec_of(got)}, expected {shape} ({ctx})")
        a = ident(got)
        for k in IDENT:
            require(a[k] == before[k], f"replacement has {k}={a[k]!r}, expected {before[k]!r} ({ctx})")
        st.outcomes.add("v2")
    elif v1 is not None:
        require(type(got) is v1, f"became {type(got).__name__}, expected {v1.__name__} ({ctx})")
        st.outcomes.add("v1")
    else:
        require(got is dev, f"became {type(got).__name__} although nothing matches ({ctx})")
        st.outcomes.add("none")
    require(reg.get_device(got) is got, f"matching again gave another device ({ctx})")
    require(spec_of(dev) == shape and ident(dev) == before, f"matching changed the device itself ({ctx})")
    return got


# -- new-style: which definition ----------------------------------------------------------------
FILTERS = {
    "none": lambda d: True, "yes": lambda d: True, "no": lambda d: False,
    "ep1": lambda d: 1 in d.endpoints, "ep7": lambda d: 7 in d.endpoints, "has19": lambda d: 1 in d.endpoints and 0x19 in d.endpoints[1].out_clusters,
}


def ambiguous(st):
    entries = [(key, flt) for key in (("A", "x"), ("A", "y"), ("B", "x")) for flt in ((), ("yes",), ("no",), ("ep1", "ep7"), ("has19",), ("has19", "no"))]
    with Clean() as c:
        for n in range(4):
            for combo in itertools.combinations(range(len(entries)), n):
                for with_v1 in (False, True):
                    reg = DeviceRegistry()
                    v1 = definition({"model": "x", "endpoints": E1}, {"endpoints": {}}, name="V1")
                    if with_v1:
                        reg.add_to_registry(v1)
                    for i in combo:
                        key, flt = entries[i]
                        add_v2(reg, *key, "/mcq/lib/x.py", i, [FILTERS[f] for f in flt])
                    for spec in QUERY:
                        dev = build(c.app, spec)
                        live = {i for i in combo if entries[i][0] == spec[:2] and all(FILTERS[f](dev) for f in entries[i][1])}
                        old = v1 if with_v1 and matches(v1.signature, spec) else None
                        got = check_v2(c.app, reg, spec, live, old, f"entries {[entries[i] for i in combo]}, device {spec}", st)
                        st.executions += 1
                        if live and got is not None:
                            # removed: the same device is not replaced by it again
                            reg.remove(got)
                            check_v2(c.app, reg, spec, set(), old, f"after removal of {entries[next(iter(live))]}", st)
                            (i,) = live
                            add_v2(reg, *entries[i][0], "/mcq/lib/x.py", i, [FILTERS[f] for f in entries[i][1]])
                            check_v2(c.app, reg, spec, live, old, f"after {entries[i]} came back", st)
                            st.transitions += 2
                st.states.add(combo)
        # one definition for several models
        for more in itertools.chain.from_iterable(itertools.combinations((("A", "y"), ("B", "x"), ("B", "y")), k) for k in range(4)):
            reg = DeviceRegistry()
            build_v2(reg, "A", "x", "/mcq/lib/x.py", 90, None, more)
            for spec in QUERY:
                live = {90} if spec[:2] in (("A", "x"), *more) else set()
                check_v2(c.app, reg, spec, live, None, f"one definition for A x and {more}", st)
                st.executions += 1


# -- v1: what the replacement is made of ------------------------------------------------------------
def replacement(st, part, parts):
    over = {"node_desc": node_desc(manufacturer_code=0x1111), "manufacturer": "New", "model": "Thing", "skip_configuration": True,
            "status": zigpy.device.Status.NEW}
    e1 = [None, {}, {"profile_id": 0xC05E}, {"device_type": 7, "input_clusters": [0, 6]}, {"input_clusters": [MyBasic, 6, MyLevel], "output_clusters": [MyOnOff, 0x19]},
          {"input_clusters": [0x0402, 0xFC01], "output_clusters": [6, MyBasic]}, (MyEndpoint, {"input_clusters": [MyOnOff], "output_clusters": [MyOnOff]}),
          (MyEndpoint, {"profile_id": 1, "device_type": 2})]
    e3 = [None, {"profile_id": 0x0104, "device_type": 5, "input_clusters": [MyBasic], "output_clusters": [6]}]
    todo = list(itertools.product(itertools.chain.from_iterable(itertools.combinations(over, k) for k in range(len(over) + 1)), e1, e1, e3, (False, True)))
    with Clean() as c:
        for names, a, b, d, copy in todo[part::parts]:
            eps = {i: x for i, x in ((1, a), (2, b), (3, d)) if x is not None}
            repl = {"endpoints": eps, **{k: over[k] for k in names}}
            cls = definition(signature(255, "plain"), repl, _copy_cluster_attr_cache=copy)
            reg, ref = DeviceRegistry(), Ref()
            reg.add_to_registry(cls)
            ref.add(cls)
            require(check_match(c.app, reg, ref, BASE, f"replacement {repl}") is cls, "the definition does not match its own device")
            if copy:
                caches(c.app, reg, f"replacement {repl}")
            st.executions += 1
            st.outcomes.add((names, len(eps)))
            st.states.add((names, repr(eps)))


def caches(app, reg, ctx):
    dev = build(app, BASE)
    for eid in (1, 2):
        for side in ("in_clusters", "out_clusters"):
            for cid, cl in getattr(dev.endpoints[eid], side).items():
                cl._attr_cache[1] = (eid, side, cid)
    got = reg.get_device(dev)
    for eid, ep in got.endpoints.items():
        if eid == 0:
            continue
        for side in ("in_clusters", "out_clusters"):
            for cid, cl in getattr(ep, side).items():
                had = eid in dev.endpoints and cid in getattr(dev.endpoints[eid], side)
                want = {1: (eid, side, cid)} if had else {}
                require(dict(cl._attr_cache) == want, f"{side} {cid:#x} of endpoint {eid} remembers {dict(cl._attr_cache)}, expected {want} ({ctx})")


# -- new-style: what the replacement is made of -------------------------------------------------------
def actions():
    out = []
    for side in (ClusterType.Server, ClusterType.Client):
        for eid in (1, 2):
            for cl in (0x0402, 6, MyOnOff, MyBasic, MyLevel, OnOff):
                out.append(("adds", cl, side, eid))
            for cid in (0, 6, 0x19, 0x0500):
                out.append(("removes", cid, side, eid))
            for cl, cid in ((MyOnOff, None), (MyBasic, 0), (MyLevel, 6), (MyOnOff, 0x19)):
                out.append(("replaces", cl, cid, side, eid))
    for cl in (MyOnOff, MyBasic, MyLevel):
        for s, k in ((True, True), (True, False), (False, True)):
            out.append(("occurrences", cl, s, k))
    out.append(("node_desc",))
    out.append(("skip",))
    return out


def touches(a):
    cid = lambda x: x if isinstance(x, int) else x.cluster_id
    if a[0] == "adds":
        return {(a[3], a[2], cid(a[1]))}
    if a[0] == "removes":
        return {(a[3], a[2], a[1])}
    if a[0] == "replaces":
        return {(a[4], a[3], a[1].cluster_id), (a[4], a[3], a[1].cluster_id if a[2] is None else a[2])}
    if a[0] == "occurrences":
        sides = ([ClusterType.Server] if a[2] else []) + ([ClusterType.Client] if a[3] else [])
        return {(e, s, a[1].cluster_id) for e in (1, 2) for s in sides}
    return {a}


BOTH = ("Acme", "Lamp", {1: (0x0104, 0x0100, (0, 6), (0x19, 6)), 2: (0x0104, 0x0101, (0, 8), (6, 8, 0))})


def changes(st, n, part, parts):
    acts = actions()
    combos = [k for r in range(n + 1) for k in itertools.combinations(range(len(acts)), r)]
    shape0 = {e: (p, ty) for e, (p, ty, _, _) in BOTH[2].items()}
    nd = node_desc(manufacturer_code=0x2222)
    with Clean() as c:
        for combo in combos[part::parts]:
            used, ok = set(), True
            for i in combo:
                tt = touches(acts[i])
                if used & tt:
                    ok = False
                used |= tt
            if not ok:
                continue
            ctx = f"changes {[acts[i] for i in combo]}"
            want = {}
            for e, (p, ty, ins, outs) in BOTH[2].items():
                for cid in ins:
                    want[e, ClusterType.Server, cid] = None
                for cid in outs:
                    want[e, ClusterType.Client, cid] = None
            reg = DeviceRegistry()
            qb = QuirkBuilder("Acme", "Lamp", registry=reg)
            over = {}
            for i in combo:
                a = acts[i]
                if a[0] == "adds":
                    qb.adds(a[1], cluster_type=a[2], endpoint_id=a[3])
                    if isinstance(a[1], int):
                        want.setdefault((a[3], a[2], a[1]), None)
                    else:
                        want[a[3], a[2], a[1].cluster_id] = a[1]
                elif a[0] == "removes":
                    qb.removes(a[1], cluster_type=a[2], endpoint_id=a[3])
                    want.pop((a[3], a[2], a[1]), None)
                elif a[0] == "replaces":
                    qb.replaces(a[1], cluster_id=a[2], cluster_type=a[3], endpoint_id=a[4])
                    want.pop((a[4], a[3], a[1].cluster_id if a[2] is None else a[2]), None)
                    want[a[4], a[3], a[1].cluster_id] = a[1]
                elif a[0] == "occurrences":
                    qb.replace_cluster_occurrences(a[1], replace_server_instances=a[2], replace_client_instances=a[3])
                    for k in touches(a):
                        if k in want:
                            want[k] = a[1]
                elif a[0] == "node_desc":
                    qb.node_descriptor(nd)
                    over["node_desc"] = nd
                else:
                    qb.skip_configuration()
                    over["skip_configuration"] = True
            qb.add_to_registry()
            dev = build(c.app, BOTH)
            before, shape = ident(dev), spec_of(dev)
            got = reg.get_device(dev)
            require(isinstance(got, CustomDeviceV2), f"the definition was not applied ({ctx})")
            a = ident(got)
            for k in IDENT:
                w = over.get(k, before[k])
                require(a[k] == w, f"replacement has {k}={a[k]!r}, expected {w!r} ({ctx})")
            require(set(got.endpoints) - {0} == {1, 2}, f"endpoints {sorted(got.endpoints)} ({ctx})")
            for e, ep in got.endpoints.items():
                if e == 0:
                    continue
                require((ep.profile_id, ep.device_type) == shape0[e], f"endpoint {e}: {ep.profile_id} {ep.device_type} ({ctx})")
                for side, have in ((ClusterType.Server, ep.in_clusters), (ClusterType.Client, ep.out_clusters)):
                    w = {cid: cl for (e2, s2, cid), cl in want.items() if e2 == e and s2 == side}
                    check_all(ep, side, have, w, ctx)
            require(reg.get_device(got) is got, f"matching again gave another device ({ctx})")
            require(spec_of(dev) == shape and ident(dev) == before, f"matching changed the device itself ({ctx})")
            st.executions += 1
            st.transitions += len(combo)
            st.outcomes.add(tuple(sorted(acts[i][0] for i in combo)))
            zigpy.quirks.v2.UNBUILT_QUIRK_BUILDERS.clear()
        st.states |= st.outcomes


def check_all(ep, side, have, want, ctx):
    name = "server" if side == ClusterType.Server else "client"
    require(set(have) == set(want), f"endpoint {ep.endpoint_id} has {name} clusters {sorted(have)}, expected {sorted(want)} ({ctx})")
    for cid, cls in want.items():
        cl = have[cid]
        require(cl.cluster_id == cid and cl.endpoint is ep, f"{name} cluster {cid:#x} belongs elsewhere ({ctx})")
        require(cl.cluster_type == side, f"{name} cluster {cid:#x} of endpoint {ep.endpoint_id} is a {cl.cluster_type.name} ({ctx})")
        if cls is None:
            require(not isinstance(cl, CustomCluster), f"{name} cluster {cid:#x} is a {type(cl).__name__} ({ctx})")
        else:
            require(type(cl) is cls, f"{name} cluster {cid:#x} is a {type(cl).__name__}, expected {cls.__name__} ({ctx})")
