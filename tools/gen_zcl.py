"""Write mc/data/zcl.json: for every command and attribute of every registered cluster its wire layout and sample
frames with the values they carry.  Run once on the pinned tree; an independent encoder (written from the wire format
of each kind, not the code under test) produces the frames, and the table is then the specification the check uses."""
import itertools, json, sys, inspect
sys.path.insert(0, "/repo")
sys.path.insert(0, "/verif")
import zigpy.types as t
from zigpy.zcl import foundation as f
from zigpy.zcl import clusters, Cluster

def kind(ty):
    """A structural description of a wire type."""
    if inspect.isclass(ty) and issubclass(ty, t.Struct):
        return ["struct", ty.__name__, [[x.name, kind(x.type), bool(x.optional), x.requires is not None] for x in ty.fields]]
    if issubclass(ty, t.FixedIntType):
        return ["int", ty._bits, bool(ty._signed), ty._byteorder]
    if issubclass(ty, t.CharacterString):
        return ["str", ty._prefix_length]
    if issubclass(ty, t.LVBytes):
        return ["bytes", ty._prefix_length]
    if issubclass(ty, t.FixedList):
        return ["fixed", kind(ty._item_type), ty._length]
    if issubclass(ty, t.LVList):
        return ["lv", kind(ty._item_type), kind(ty._length_type)]
    if issubclass(ty, t.List):
        return ["list", kind(ty._item_type)]
    if issubclass(ty, t.BaseFloat):
        return ["float", ty._size]
    return ["opaque", ty.__name__]

def vals(k):
    if k[0] == "int":
        b, s = k[1], k[2]
        asc = int.from_bytes(bytes(range(1, b // 8 + 1)), "little") if b >= 8 else 1
        v = [asc, (1 << b) - 1 if not s else -1, 0 if not s else -(1 << (b - 1))]
        return v
    if k[0] == "str": return ["ab", "", "é"]
    if k[0] == "bytes": return ["0102ff", ""]
    if k[0] == "fixed": return [[vals(k[1])[0] + i for i in range(k[2])], [vals(k[1])[1]] * k[2]]
    if k[0] == "lv": return [[x] for x in vals(k[1])[:1]] + [[], [vals(k[1])[-1], vals(k[1])[0]]]
    if k[0] == "list": return [[x] for x in vals(k[1])[:1]] + [[], [vals(k[1])[-1], vals(k[1])[0]]]
    if k[0] == "float": return [1.5, -2.0]
    if k[0] == "struct":
        out = []
        for i in range(2):
            out.append({n: vals(kk)[i % len(vals(kk))] for n, kk, o, r in k[2]})
        return out
    raise KeyError(k)

def opaque(k):
    if k[0] == "opaque": return True
    if k[0] == "struct": return any(opaque(x[1]) or x[3] for x in k[2])
    return any(opaque(x) for x in k[1:] if isinstance(x, list))

def enc(k, v):
    if k[0] == "int":
        b = (v % (1 << k[1])).to_bytes(k[1] // 8, "little")
        return b if k[3] == "little" else b[::-1]
    if k[0] == "str":
        b = v.encode(); return len(b).to_bytes(k[1], "little") + b
    if k[0] == "bytes":
        b = bytes.fromhex(v); return len(b).to_bytes(k[1], "little") + b
    if k[0] == "fixed" or k[0] == "list": return b"".join(enc(k[1], x) for x in v)
    if k[0] == "lv": return enc(k[2], len(v)) + b"".join(enc(k[1], x) for x in v)
    if k[0] == "float":
        import struct
        return struct.pack({2: "<e", 4: "<f", 8: "<d"}[k[1]], v)
    if k[0] == "struct": return encs(k, v)
    raise KeyError(k)

def encs(k, v):
    out, acc, bits = b"", 0, 0
    for n, kk, o, r in k[2]:
        if v.get(n) is None: continue
        if kk[0] == "int" and (bits or kk[1] % 8):
            acc |= (v[n] % (1 << kk[1])) << bits; bits += kk[1]
            if bits % 8 == 0:
                out += acc.to_bytes(bits // 8, "big"); acc = bits = 0
            continue
        assert not bits
        out += enc(kk, v[n])
    assert not bits
    return out

def frames(schema):
    k = kind(schema)
    if k[0] != "struct" or any(opaque(x[1]) for x in k[2]):
        return None, k
    fields = k[2]
    doms = [vals(x[1]) for x in fields]
    combos = []
    base = [d[0] for d in doms]
    combos.append(base)
    for i, d in enumerate(doms):
        for v in d[1:]:
            c = list(base); c[i] = v; combos.append(c)
    out = []
    for c in combos:
        full = dict(zip([x[0] for x in fields], c))
        out.append(full)
    nopt = 0
    for x in reversed(fields):
        if not x[2]: break
        nopt += 1
        d = dict(zip([y[0] for y in fields], base))
        for y in fields[len(fields) - nopt:]: d[y[0]] = None
        out.append(d)
    return out, k

res = {"clusters": {}, "general": {}}
skipped = []
for cid, cls in sorted(Cluster._registry.items()):
    e = {"class": cls.__name__, "ep_attribute": cls.ep_attribute, "attributes": {}, "client": {}, "server": {}}
    for aid, a in sorted(cls.attributes.items()):
        e["attributes"][str(int(aid))] = [a.name, int(a.zcl_type), bool(a.is_manufacturer_specific)]
    for side in ("client", "server"):
        for c, d in sorted(getattr(cls, side + "_commands").items()):
            fr, k = frames(d.schema)
            item = {"name": d.name, "direction": int(d.direction) if d.direction is not None else None}
            if k[0] == "struct":
                item["fields"] = [[x[0], x[2]] for x in k[2]]
            if fr is None or any(x[3] for x in k[2]):
                skipped.append((cls.__name__, side, d.name))
                # conditional layouts: keep only bytes that the pinned code and the reader agree on
                item["frames"] = None
            else:
                item["frames"] = []
                for v in fr:
                    item["frames"].append([encs(k, v).hex(), v])
            e[side][str(int(c))] = item
    res["clusters"][str(int(cid))] = e
print("skipped", skipped)
json.dump(res, open("/verif/mc/data/zcl.json", "w"), indent=None, separators=(",", ":"), ensure_ascii=True)
print(len(res["clusters"]), sum(len(e["client"]) + len(e["server"]) for e in res["clusters"].values()), sum(len(e["attributes"]) for e in res["clusters"].values()))
