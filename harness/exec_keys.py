"""Shared between generators (no JAX) and executors."""


def key_of(req):
    return "-".join(str(req.get(k, "")) for k in ("what", "kind", "p", "big", "lam4", "vs", "at"))
