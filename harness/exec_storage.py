"""Programs over assignment objects and layouts, on the real code (C01-C04)."""

import jax
import numpy as onp
from jax import numpy as jnp

from jaxfg.core import StorageLayout, VariableAssignments

from .vtypes import (BAD, DIM, LDIM, TYPES, dec, dec_delta, enc, enc_delta, enc_params,
                     name_of, params)  # fmt: skip
from .worker import attempt


def observe_layout(layout, names):
    """Everything a layout says about itself; `names` maps variables to numbers."""
    return {
        "local": bool(layout.local_flag),
        "dim": int(layout.dim),
        "order": [names[v] for v in layout.get_variables()],
        "start": [int(layout.index_from_variable[v]) for v in layout.get_variables()],
        "torder": [name_of(t) for t in layout.get_variable_types()],
        "tstart": [int(layout.index_from_variable_type[t]) for t in layout.get_variable_types()],
        "tcount": [int(layout.count_from_variable_type[t]) for t in layout.get_variable_types()],
    }


TRACE = "TraceStorage"

EMPTY_LAYOUT = dict(local=False, dim=0, order=[], start=[], torder=[], tstart=[], tcount=[])
UNREADABLE = dict(ok=False, err="", lay=EMPTY_LAYOUT, vals=[], gets=[], raw=[], stacked=[])


def observe(obj, names, unit=1):
    """Read an assignments object in every way there is."""

    def read():
        layout = observe_layout(obj.storage_layout, names)
        variables = list(obj.get_variables())
        storage = onp.asarray(obj.storage)
        assert storage.shape == (layout["dim"],)
        if layout["local"]:
            raw = []
            for v in variables:
                i = obj.storage_layout.index_from_variable[v]
                t = name_of(v)
                raw.append(enc_delta(t, unit * storage[i : i + LDIM[t]]))
            return dict(ok=True, err="", lay=layout, vals=raw, gets=raw, raw=raw, stacked=[])
        d = obj.as_dict()
        assert [names[v] for v in variables] == layout["order"]
        vals = [enc(name_of(v), d[v], unit) if v in d else [BAD] for v in variables]
        if len(d) != len(variables):
            vals.append([BAD])
        gets = [enc(name_of(v), obj.get_value(v), unit) for v in variables]
        raw = []
        for v in variables:
            i = obj.storage_layout.index_from_variable[v]
            t = name_of(v)
            raw.append(enc(t, type(v).unflatten(storage[i : i + DIM[t]]), unit))
        stacked = []
        for t in layout["torder"]:
            value = obj.get_stacked_value(TYPES[t])
            leaves = jax.tree_util.tree_leaves(value)
            count = leaves[0].shape[0]
            assert all(leaf.shape[0] == count for leaf in leaves)
            value = jax.tree_util.tree_map(onp.asarray, value)
            rows = [
                enc(t, jax.tree_util.tree_map(lambda leaf: leaf[i], value), unit) for i in range(count)
            ]
            stacked.append({"t": t, "rows": rows})
        return dict(ok=True, err="", lay=layout, vals=vals, gets=gets, raw=raw, stacked=stacked)

    ok, res, err = attempt(read)
    return res if ok else dict(UNREADABLE, err=err)


@jax.jit
def identity(x):
    return x


def execute_heap(s):
    variables = {i + 1: TYPES[t]() for i, t in enumerate(s["types"])}
    names = {v: i for i, v in variables.items()}
    types = {i + 1: t for i, t in enumerate(s["types"])}
    # Numbers in the scenario are multiples of 1 / unit
    unit = s.get("unit", 1)
    heap = []
    out = []
    for op in s["ops"]:
        vs = [variables[i] for i in op.get("vs", [])]
        mode = op.get("mode", "f32")
        given = {variables[i]: dec(types[i], x, mode, unit) for i, x in op.get("given", [])} if (
            op["op"] in ("partial", "dict")
        ) else None
        extra = {}
        o = heap[op["o"] - 1] if "o" in op else None
        if op["op"] == "defaults":
            # Any iterable of variables will do
            fn = lambda: VariableAssignments.make_from_defaults(
                iter(vs) if op.get("iter") else vs
            )
        elif op["op"] == "partial":
            fn = lambda: VariableAssignments.make_from_partial_dict(vs, given)
        elif op["op"] == "dict":
            fn = lambda: VariableAssignments.make_from_dict(given)
        elif op["op"] == "deltas":

            def fn():
                layout = StorageLayout.make(vs, local=True)
                deltas = {variables[i]: dec_delta(types[i], x) / unit for i, x in op["given"]}
                storage = onp.concatenate([deltas[v] for v in layout.get_variables()])
                if mode == "f32":
                    storage = jnp.array(storage, dtype=jnp.float32)
                return VariableAssignments(storage=storage, storage_layout=layout)

        elif op["op"] == "set":
            v = variables[op["v"]]
            extra["before"] = [names[w] for w in o.get_variables()]
            fn = lambda: o.set_value(v, dec(types[op["v"]], op["x"], mode, unit))
        elif op["op"] == "relayout":
            layout = StorageLayout.make(vs, local=op["local"])
            extra["target"] = observe_layout(layout, names)
            fn = lambda: o.update_storage_layout(layout)
        elif op["op"] == "retract":
            d = heap[op["d"] - 1]
            extra["before"] = [names[w] for w in o.get_variables()]
            fn = lambda: o.manifold_retract(d)
        elif op["op"] == "pass":
            # Denotes the same, wherever it has been
            fn = lambda: {
                "jit": identity,
                # Results are often moved to the host, eg for plotting or saving
                "host": lambda x: jax.tree_util.tree_map(onp.array, x),
                "tree": lambda x: jax.tree_util.tree_unflatten(*jax.tree_util.tree_flatten(x)[::-1]),
            }[op.get("how", "jit")](o)
        else:
            raise KeyError(op["op"])
        ok, res, err = attempt(fn)
        if ok:
            heap.append(res)
        e = {k: v for k, v in op.items() if k not in ("mode", "iter", "how")}
        e.update(extra)
        e["ok"] = ok
        e["err"] = err
        e["objs"] = [observe(h, names, unit) for h in heap]
        out.append(e)
    return {"kind": "heap", "types": s["types"], "ops": out}


def execute_layout(s):
    variables = {i + 1: TYPES[t]() for i, t in enumerate(s["types"])}
    names = {v: i for i, v in variables.items()}

    def fn():
        a = StorageLayout.make([variables[i] for i in s["avs"]], local=s["alocal"])
        b = StorageLayout.make((variables[i] for i in s["bvs"]), local=s["blocal"])
        return dict(
            a=observe_layout(a, names),
            b=observe_layout(b, names),
            eq=bool(a == b),
            hasheq=hash(a) == hash(b),
        )

    ok, res, err = attempt(fn)
    res = res if ok else dict(a=EMPTY_LAYOUT, b=EMPTY_LAYOUT, eq=False, hasheq=False)
    return {
        "kind": "layout", "types": s["types"], "ok": ok, "err": err,
        "avs": s["avs"], "bvs": s["bvs"], "alocal": s["alocal"], "blocal": s["blocal"], **res,
    }  # fmt: skip


def execute(s):
    return execute_heap(s) if s["kind"] == "heap" else execute_layout(s)
