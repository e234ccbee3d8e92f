"""C29: install codes against a reference, settings against a table of what they mean."""
from __future__ import annotations

import copy
import itertools
import warnings

from cryptography.hazmat.primitives.ciphers import Cipher
from cryptography.hazmat.primitives.ciphers.algorithms import AES
from cryptography.hazmat.primitives.ciphers.modes import ECB
import voluptuous as vol

import zigpy.config as conf
import zigpy.ota.providers as providers
import zigpy.types as t
import zigpy.util
import zigpy.zdo.types as zdo_t

from ..explore import Violation, require
from ..loop import LoopCtx
from ..world import FakeApp, ieee, make_app

LEVEL = "exploration"
RULE = ("install codes: lengths 0-20 x base codes x every damage of one and two bits, every checksum of a code; configurations: every value of every setting, alone and with every value of every other setting")
ASSUMPTIONS = ["AES of the cryptography package is trusted (used by both sides)", "values outside the table (such as an empty list of channels) are not judged"]


def scenarios(tier, seed):
    out = []
    for n in (8, 10, 14, 18):
        out.append(dict(fn="codes", kind="bulk", args=dict(n=n, bases=3, bits=2)))
    out.append(dict(fn="codes", kind="bulk", args=dict(n=8, bases=1, bits=3)))
    out += [dict(fn="checksums", kind="bulk", args=dict(n=n)) for n in (8, 18)]
    out.append(dict(fn="lengths", kind="bulk", args=dict()))
    out.append(dict(fn="permits", kind="bulk", args=dict()))
    out += [dict(fn="settings", kind="bulk", args=dict(part=i, parts=32)) for i in range(32)]
    if tier == "thorough":
        out += [dict(fn="settings", kind="bulk", args=dict(part=i, parts=64, triples=True)) for i in range(64)]
    return out


# -- install codes -----------------------------------------------------------------------
def crc(data):
    c = 0xFFFF
    for b in data:
        for i in range(8):
            bit = (b >> i & 1) ^ (c & 1)
            c >>= 1
            if bit:
                c ^= 0x8408
    return (c ^ 0xFFFF).to_bytes(2, "little")


def mmo(data):
    bits = len(data) * 8
    padded = data + b"\x80"
    while len(padded) % 16 != 14:
        padded += b"\x00"
    padded += (bits & 0xFFFF).to_bytes(2, "big")
    h = bytes(16)
    for i in range(0, len(padded), 16):
        block = padded[i:i + 16]
        e = Cipher(AES(h), ECB()).encryptor()
        h = bytes(x ^ y for x, y in zip(e.update(block) + e.finalize(), block))
    return h


def base_codes(n, k):
    body = [bytes((i * 37 + 5) & 0xFF for i in range(n - 2)), bytes(n - 2), bytes([0xFF] * (n - 2))][:k]
    return [b + crc(b) for b in body]


def verdict(code):
    if len(code) not in (8, 10, 14, 18) or crc(code[:-2]) != code[-2:]:
        return None
    return mmo(code)


def judge(code, what):
    want = verdict(code)
    for kind in (bytes, bytearray):
        got = zigpy.util.convert_install_code(kind(code))
        require((got is None) == (want is None), f"{what} {code.hex()}: {'refused' if got is None else 'accepted'}", key="accepted" if want is None else "refused")
        require(want is None or isinstance(got, t.KeyData) and got.serialize() == want, f"{what} {code.hex()}: the key is {got}, expected {want and want.hex()}", key="key")
    return want is not None


def codes(st, n, bases, bits):
    require(mmo(bytes.fromhex("83FED3407A939723A5C639B26916D505C3B5")).hex() == "66b6900981e1ee3ca4206b6b861c02bb", "the reference is wrong", key="reference")
    for code in base_codes(n, bases):
        require(judge(code, "code"), f"{code.hex()} is refused", key="refused")
        for k in range(1, bits + 1):
            for where in itertools.combinations(range(8 * n), k):
                bad = bytearray(code)
                for w in where:
                    bad[w // 8] ^= 1 << w % 8
                require(k > 2 or verdict(bytes(bad)) is None, "the reference is wrong", key="reference")
                if k < 3:
                    require(zigpy.util.convert_install_code(bytes(bad)) is None, f"damaged code {bytes(bad).hex()} is accepted", key="damage")
                else:
                    judge(bytes(bad), "damaged code")
                st.transitions += 1
        st.executions += 1
    st.outcomes.add((n, bits))


def checksums(st, n):
    body = base_codes(n, 1)[0][:-2]
    good = 0
    for c in range(1 << 16):
        good += judge(body + c.to_bytes(2, "big"), "code")
        st.transitions += 1
    require(good == 1, f"{good} checksums accepted", key="accepted")
    st.executions += 1
    st.outcomes.add(n)


def lengths(st):
    for n in range(0, 40):
        body = bytes((i * 11 + 3) & 0xFF for i in range(max(0, n - 2)))
        judge((body + crc(body))[:n], f"{n} bytes")
        data = bytes((i * 7 + 1) & 0xFF for i in range(n))
        for d in (data, bytes(n), data[::-1]):
            got = zigpy.util.aes_mmo_hash(d)
            require(n == 0 or got.serialize() == mmo(d), f"hash of {d.hex()} is {got}", key="hash")
        st.executions += 1
        st.outcomes.add(n)


def permits(st):
    """A joining permission is given exactly for the derived key."""
    for n in (8, 10, 14, 18):
        for code in base_codes(n, 3):
            for bad in (None, *range(0, 8 * n, 5)):
                c = bytearray(code)
                if bad is not None:
                    c[bad // 8] ^= 1 << bad % 8
                with LoopCtx() as loop, warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    app = make_app(FakeApp)
                    try:
                        loop.run(app.permit_with_key(ieee(5), bytes(c), 30))
                        ended = None
                    except Exception as e:  # noqa: BLE001
                        ended = e
                    calls = [x for x in app.radio_calls if isinstance(x, tuple) and x[0] == "permit_with_link_key"]
                    if bad is None:
                        require(ended is None and len(calls) == 1 and calls[0][1] == ieee(5) and calls[0][2].serialize() == mmo(code) and calls[0][3] == 30,
                                f"code {code.hex()}: {ended!r}, {calls}", key="permit")
                    else:
                        require(ended is not None and not calls and not app.sent, f"damaged code {bytes(c).hex()}: {ended!r}, {calls}", key="permit-damaged")
                    st.executions += 1
    st.outcomes.add("permits")


# -- configuration -----------------------------------------------------------------------
KEYBYTES = list(range(16))
E = t.EUI64.convert("11:22:33:44:55:66:77:88")
MASK = t.Channels.from_channel_list
BOOL = ([(True, True), (False, False), ("yes", True), (" ON ", True), ("Enable", True), ("true", True), ("1", True), (1, True), ("no", False), ("OFF", False), ("disable", False),
         ("False ", False), ("0", False), (0, False)], ["maybe", "", None, 1.5, [], {}])
OTAT = providers.OTA_PROVIDER_TYPES
DESC = dict(endpoint=3, profile=260, device_type=5, device_version=0, input_clusters=[0, 6], output_clusters=[25])
DESC_OBJ = zdo_t.SimpleDescriptor(**DESC)


class P:
    """A provider, compared by its class and settings."""

    def __init__(self, name, **kw):
        self.name, self.kw = name, kw

    def __eq__(self, o):
        return type(o) is OTAT[self.name] and all(getattr(o, k) == v for k, v in self.kw.items())

    def __repr__(self):
        return f"P({self.name}, {self.kw})"


# setting -> (default, [(written, normal form)], [refused])
TABLE = {
    ("network", "channel"): (None, [(None, None), (11, 11), (26, 26), ("11", 11), ("0x1a", 26), ("0x0B", 11)], [10, 27, 0, -11, "27", "0x1b", "x", "", 11.5, [11]]),
    ("network", "channels"): (MASK([11, 15, 20, 25]), [([11], MASK([11])), ([26, 11], MASK([11, 26])), (list(range(11, 27)), t.Channels.ALL_CHANNELS), (MASK([12, 13]), MASK([12, 13]))],
                              [[10], [27], [11, 27], [0], "11", None]),
    ("network", "extended_pan_id"): (None, [(None, None), ("11:22:33:44:55:66:77:88", E), ("AA:bb:00:00:00:00:00:01", t.EUI64.convert("aa:bb:00:00:00:00:00:01")), (t.ExtendedPanId(E), E)],
                                     ["11:22:33", "11:22:33:44:55:66:77:88:99", "xx:22:33:44:55:66:77:88", ""]),
    ("network", "key"): (None, [(None, None), (KEYBYTES, t.KeyData(KEYBYTES)), ([255] * 16, t.KeyData([255] * 16)), (t.KeyData(KEYBYTES), t.KeyData(KEYBYTES))],
                         [KEYBYTES[:15], KEYBYTES + [1], [256] + KEYBYTES[1:], KEYBYTES[:15] + [-1], ["1"] * 16, "0123456789abcdef", tuple(KEYBYTES), []]),
    ("network", "tc_link_key"): (t.KeyData(b"ZigBeeAlliance09"), [(KEYBYTES, t.KeyData(KEYBYTES)), ([0] * 16, t.KeyData([0] * 16)), (t.KeyData(KEYBYTES), t.KeyData(KEYBYTES))],
                                 [KEYBYTES[:15], KEYBYTES + [1], [256] + KEYBYTES[1:], KEYBYTES[:15] + [-1], ["1"] * 16, None, ""]),
    ("network", "key_sequence_number"): (0, [(0, 0), (1, 1), (255, 255)], [-1, 256, 1000]),
    ("network", "pan_id"): (None, [(None, None), (0x1234, 0x1234), ("0x1234", 0x1234), ("4660", 0x1234), (t.PanId(0xFFFE), 0xFFFE), (1, 1), (0xFFFE, 0xFFFE)], [0x10000, -1, "0x10000", "x", "0xzz", [1]]),
    ("network", "tc_address"): (None, [(None, None), ("11:22:33:44:55:66:77:88", E), (E, E)], ["11:22", "zz:22:33:44:55:66:77:88", ""]),
    ("network", "update_id"): (0, [(0, 0), (255, 255), ("0xff", 255), ("7", 7)], [-1, 256, "256", "0x100", "x", None]),
    ("topology_scan_period",): (240, [(20, 20), (21, 21), (100000, 100000)], [19, 0, -1, "30", 20.5, None]),
    ("topology_scan_enabled",): (True, *BOOL),
    ("topology_scan_skip_coordinator",): (False, *BOOL),
    ("backup_enabled",): (True, *BOOL),
    ("backup_period",): (1440, [(1, 1), ("1", 1), ("0x10", 16), (100000, 100000)], [0, -1, "0", "x", None]),
    ("validate_network_settings",): (False, *BOOL),
    ("source_routing",): (False, *BOOL),
    ("startup_energy_scan",): (True, *BOOL),
    ("watchdog_enabled",): (True, *BOOL),
    ("max_concurrent_requests",): (8, [(1, 1), (8, 8), (1000, 1000)], [-1, "8", 1.5, None]),
    ("additional_endpoints",): ([], [([], []), ([DESC], [DESC_OBJ]), ([DESC, DESC], [DESC_OBJ] * 2), ([DESC_OBJ], [DESC_OBJ])], [[{}], [5], [{"endpoint": 1}], DESC, None]),
    ("database_path",): (None, [(None, None), ("zigbee.db", "zigbee.db")], [5, ["x"]]),
    ("ota", "enabled"): (True, *BOOL),
    ("ota", "broadcast_enabled"): (True, *BOOL),
    ("ota", "broadcast_initial_delay"): (14040.0, [(0, 0.0), (1.5, 1.5), ("3", 3.0)], [-1, "x", None, "-0.5"]),
    ("ota", "broadcast_interval"): (14040.0, [(0, 0.0), (1.5, 1.5), ("3", 3.0)], [-1, "x", None, "-0.5"]),
    ("ota", "providers"): ([P("ledvance"), P("sonoff"), P("inovelli"), P("thirdreality")],
                           [([], []), ([{"type": "ikea"}], [P("ikea")]), ([{"type": "zigpy_remote", "url": "https://a.b/c", "manufacturer_ids": ["0x1234", 5]}], [P("zigpy_remote", url="https://a.b/c", manufacturer_ids=(0x1234, 5))]),
                            ([{"type": "salus"}, {"type": "sonoff", "override_previous": True}], [P("salus"), P("sonoff", override_previous=True)])],
                           [[{"type": "bogus"}], [{}], [{"type": "ikea", "url": "no url"}], [{"type": "zigpy_remote"}], [{"type": "z2m_local"}], [{"type": "z2m_local", "index_file": "/nonexistent/x.json"}],
                            [{"type": "ikea", "what": 1}], [{"type": "zigpy_remote", "url": "https://a.b/c", "manufacturer_ids": ["x"]}], [{"type": "advanced", "path": "/", "warning": "fine"}], None]),
    ("ota", "extra_providers"): ([], [([], []), ([{"type": "ikea"}], [P("ikea")])], [[{"type": "bogus"}], [{}]]),
    ("ota", "disable_default_providers"): ([], [([], []), (["ikea", "sonoff"], [OTAT["ikea"], OTAT["sonoff"]])], [["bogus"], [None], "ikea"]),
    ("device", "path"): (vol.UNDEFINED, [("/dev/ttyUSB0", "/dev/ttyUSB0"), ("socket://1.2.3.4:5", "socket://1.2.3.4:5")], [None, 5, ["x"]]),
    ("device", "baudrate"): (115200, [(115200, 115200), (9600, 9600)], ["9600", None, 1.5]),
    ("device", "flow_control"): (None, [(None, None), ("hardware", "hardware"), ("software", "software")], ["none", 1, ""]),
    ("network", "unknown"): (vol.UNDEFINED, [], [1, None]),
    ("device", "unknown"): (vol.UNDEFINED, [], [1]),
    ("something_else",): (vol.UNDEFINED, [(5, 5), ({"x": 1}, {"x": 1})], []),
}


def put(cfg, where, v):
    for k in where[:-1]:
        cfg = cfg.setdefault(k, {})
    cfg[where[-1]] = v


def get(cfg, where):
    for k in where:
        if not isinstance(cfg, dict) or k not in cfg:
            return vol.UNDEFINED
        cfg = cfg[k]
    return cfg


def show(x):
    return repr(x)[:80]


def settings(st, part, parts, triples=False):
    values = {w: [(v, n, True) for v, n in good] + [(v, None, False) for v in bad] for w, (_, good, bad) in TABLE.items()}
    some = {w: vs[:1] + [v for v in vs if not v[2]][:1] + vs[1:3] for w, vs in values.items()}
    n = 0
    if triples:
        combos = itertools.combinations(TABLE, 3)
        values = some
    else:
        combos = itertools.chain([()], ((a,) for a in TABLE), itertools.combinations(TABLE, 2))
    for where in combos:
        n += 1
        if n % parts != part:
            continue
        for vs in itertools.product(*(values[w] for w in where)):
            cfg = {"device": {"path": "/dev/null"}}
            for w, (v, _, _) in zip(where, vs):
                put(cfg, w, v)
            what = ", ".join(f"{'.'.join(w)}={show(v[0])}" for w, v in zip(where, vs))
            config(st, cfg, dict(zip(where, vs)), what)


def config(st, cfg, given, what):
    before = copy.deepcopy(cfg)
    ok = all(v[2] for v in given.values())
    st.transitions += 1
    try:
        got = conf.CONFIG_SCHEMA(cfg)
    except Exception as e:  # noqa: BLE001
        require(not ok, f"{what}: refused: {e!r}", key="refused:" + name(given))
        st.outcomes.add("refused")
        return
    finally:
        require(cfg == before, f"{what}: the written configuration was changed", key="mutated")
    require(ok, f"{what}: accepted as {[show(get(got, w)) for w in given]}", key="accepted:" + name(given))
    normal(got, given, what)
    again = conf.CONFIG_SCHEMA(got)
    normal(again, given, f"{what}, normalized twice")
    st.executions += 1
    st.outcomes.add(hash(str(sorted(given))))


def normal(got, given, what):
    for w, (default, good, _) in TABLE.items():
        want = given[w][1] if w in given else "/dev/null" if w == ("device", "path") else default
        have = get(got, w)
        if want is vol.UNDEFINED:
            require(have is vol.UNDEFINED, f"{what}: {'.'.join(w)} is {show(have)}", key="invented")
            continue
        require(have == want and (not isinstance(want, bool) or isinstance(have, bool)), f"{what}: {'.'.join(w)} is {show(have)}, expected {show(want)}", key=f"normal:{'.'.join(w)}")


def name(given):
    return "+".join(".".join(w) for w in given)
