"""Runs calls of the Python wrapper for the checks. Requests on fd 0, replies on fd 3: see pyco.hpp."""
import copy
import gc
import io
import json
import os
import struct
import sys
import urllib.parse
import warnings

warnings.simplefilter("ignore")
import numpy as np

import richdem as rd
import richdem.cli

SENT = 77


def view_of(layout, base, h, w):
    """The h x w raster within its storage"""
    if layout in ("C", "F"):
        return base
    if layout == "S":
        return base[1 : 1 + h, 2 : 2 + w]
    if layout == "R":
        return base[::-1]
    if layout == "X":
        return base[::2, ::3]
    if layout == "T":
        return base.T
    raise ValueError(layout)


def store(a, layout):
    h, w = a.shape[:2]
    if layout == "C":
        return np.array(a, order="C")
    if layout == "F":
        return np.array(a, order="F")
    if layout == "R":
        return np.array(a, order="C")
    if layout == "T":
        return np.full((w, h), SENT, a.dtype)
    shape = (h + 3, w + 4) if layout == "S" else (h * 2, w * 3)
    return np.full(shape + a.shape[2:], SENT, a.dtype)


def nodata(s, dtype):
    if s is None:
        return None
    kind, v = s.split(":", 1)
    if kind == "i":
        return int(v)
    if kind == "d":
        return float.fromhex(v)
    if kind == "n":
        return np.dtype(dtype).type(int(v) if np.dtype(dtype).kind in "iu" else float.fromhex(v))
    raise ValueError(s)


def gtval(g):
    if g is None:
        return None
    kind, v = g
    v = [float.fromhex(x) for x in v]
    return {"tuple": tuple, "list": list, "numpy": np.array}[kind](v)


def plain(a):
    return np.array(np.asarray(a), order="C")


class Input:
    def __init__(self, spec, raw):
        a = np.frombuffer(raw, dtype=spec["dtype"]).reshape(spec["shape"])
        self.layout, (self.h, self.w) = spec["layout"], a.shape[:2]
        self.base = store(a, self.layout)
        v = view_of(self.layout, self.base, self.h, self.w)
        v[...] = a
        if spec.get("cast"):
            v = v.astype(spec["cast"])
            self.base = v
            self.layout = "C"
        self.base0 = self.base.copy(order="K")
        if spec["kind"] == "rd":
            obj = rd.rdarray(v, no_data=nodata(spec["nd"], spec["dtype"]))
            obj.geotransform = gtval(spec["gt"])
            obj.projection = spec["proj"]
            obj.metadata = dict(spec["meta"])
        else:
            obj = v
        self.obj = obj
        self.was = self.state()

    def state(self):
        o = self.obj
        return plain(o).tobytes(), [repr(getattr(o, k, None)) for k in ("no_data", "geotransform", "projection")], copy.deepcopy(getattr(o, "metadata", None))

    def facts(self, name, put):
        now = self.state()
        put(name + ".same_values", now[0] == self.was[0])
        put(name + ".same_attrs", now[1] == self.was[1])
        put(name + ".same_meta", now[2] == self.was[2])
        tmp = self.base.copy(order="K")
        view_of(self.layout, tmp, self.h, self.w)[...] = view_of(self.layout, self.base0, self.h, self.w)
        put(name + ".outside_ok", tmp.tobytes() == self.base0.tobytes())


def arg(x, env):
    if isinstance(x, str) and x.startswith("$"):
        return env[x[1:]]
    if isinstance(x, dict) and "float" in x:
        return float.fromhex(x["float"])
    return x


def main():
    inp, out = os.fdopen(0, "rb"), os.fdopen(3, "wb")

    def read(n):
        b = inp.read(n)
        if len(b) < n:
            os._exit(0)
        return b

    while True:
        (n,) = struct.unpack("<Q", read(8))
        req = json.loads(read(n))
        facts, arrays, env, inputs = {}, [], {}, {}

        def put(k, v):
            facts[k] = str(int(v)) if isinstance(v, (bool, np.bool_)) else str(v)

        for spec in req["arrays"]:
            raw = read(spec["bytes"])
            try:
                i = Input(spec, raw)
            except Exception as e:
                put("exc", type(e).__name__ + ": " + str(e))
                put("exc_at", "input " + spec["name"])
                break
            inputs[spec["name"]] = i
            env[spec["name"]] = i.obj
        for k, c in enumerate(req["calls"]):
            if "exc" in facts:
                break
            try:
                fn = c["fn"]
                args = [arg(x, env) for x in c["args"]]
                kw = {a: arg(b, env) for a, b in c["kw"].items()}
                if fn.startswith("cli."):
                    keep, sys.argv = (sys.stdout, sys.argv), [fn] + args
                    sys.stdout = io.StringIO()
                    try:
                        getattr(richdem.cli, fn[4:])()
                        r = sys.stdout.getvalue()
                    finally:
                        sys.stdout, sys.argv = keep
                elif fn == "del":
                    args = kw = i = None
                    for a in c["args"]:
                        env.pop(a[1:], None)
                        inputs.pop(a[1:], None)
                    gc.collect()
                    junk = [np.full(64, SENT, "uint8") for _ in range(64)]
                    del junk
                    r = None
                elif fn == "getattr":
                    r = getattr(args[0], args[1])
                elif fn == "rdarray_like":
                    r = rd.rdarray(np.asarray(args[0]), meta_obj=args[0])
                elif fn == "labels":
                    r = rd.get_new_depression_hierarchy_labels(args[0].shape)
                else:
                    r = getattr(rd, fn)(*args, **kw)
            except Exception as e:
                put("exc", type(e).__name__ + ": " + str(e))
                put("exc_at", k)
                break
            name = c.get("as")
            if isinstance(name, list):
                for a, b in zip(name, r):
                    env[a] = b
            elif name:
                env[name] = r
        for name, i in inputs.items():
            i.facts(name, put)
        for name in req["out"]:
            if name not in env:
                continue
            v = env[name]
            put(name + ".none", v is None)
            put(name + ".type", type(v).__name__)
            if isinstance(v, np.ndarray):
                p = plain(v)
                arrays.append((name, p))
                nd = getattr(v, "no_data", None)
                put(name + ".nd", nd.hex() if isinstance(nd, float) else nd)
                gt = getattr(v, "geotransform", None)
                put(name + ".gt", "None" if gt is None else " ".join(float(x).hex() for x in gt))
                put(name + ".proj", getattr(v, "projection", None))
                for a, b in (getattr(v, "metadata", None) or {}).items():
                    put(name + ".meta." + a, b)
            elif isinstance(v, str):
                put(name, v)
            elif isinstance(v, list):
                put(name, "\n".join(" ".join([str(d.pit_cell), str(d.out_cell), str(d.parent), str(d.odep), str(d.geolink), float(d.pit_elev).hex(), float(d.out_elev).hex(), str(d.lchild), str(d.rchild), str(int(d.ocean_parent)), str(d.dep_label), str(d.cell_count), float(d.dep_vol).hex(), float(d.water_vol).hex(), float(d.total_elevation).hex()] + [str(x) for x in d.ocean_linked]) for d in v))
        for a, b in req["shares"]:
            if a in env and b in env and isinstance(env[a], np.ndarray):
                put("shares." + a + "." + b, np.shares_memory(env[a], env[b]))
        q = lambda s: urllib.parse.quote(s, safe="")
        head = ["F %s %s" % (q(k), q(v)) for k, v in facts.items()]
        head += ["A %s %s %d %s %d" % (q(k), p.dtype.name, p.ndim, " ".join(map(str, p.shape)), p.nbytes) for k, p in arrays]
        text = ("\n".join(head) + "\n").encode()
        out.write(struct.pack("<Q", len(text)) + text)
        for k, p in arrays:
            out.write(p.tobytes())
        out.flush()


main()
