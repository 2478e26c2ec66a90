"""Pose graph files (C21): written to a scratch directory, loaded, and recorded."""

import contextlib
import importlib.util
import io
import os
import pathlib
import shutil
import tempfile

import numpy as onp
from jax import numpy as jnp

import jaxfg
from jaxfg.core import StackedFactorGraph, VariableAssignments

from .vtypes import TYPES, params, to_fix, to_fixes
from .worker import attempt

TRACE = "TraceG2O"
FS, IS, RS, CS = 3000, 100, 400, 100
MOST = 5000  # entries kept of any observed list

_REPO = os.path.dirname(os.path.dirname(os.path.abspath(jaxfg.__file__)))


def loader():
    spec = importlib.util.spec_from_file_location("verif_g2o_utils", os.path.join(_REPO, "scripts", "_g2o_utils.py"))
    module = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(module)
    return module


def written(s):
    style = s["style"]
    planar = s["t"] == "SE2"
    number = lambda x: (f"{x:.6e}" if style["number"] == "exponent" else repr(float(x)))
    names = dict(vertex="VERTEX_SE2" if planar else "VERTEX_SE3:QUAT", edge="EDGE_SE2" if planar else "EDGE_SE3:QUAT")
    text = ""
    for line in s["lines"]:
        columns = [names.get(line["kind"], line["kind"])] + [str(i) for i in line["at"]]
        columns += [number(x) for x in line["nums"]] + [number(x / 100) for x in line["info"]]
        text += style["indent"] + (" " * style["gap"]).join(columns) + style["end"]
    return text if style["last"] else text.rstrip("\r\n")


def information(noise_model, n):
    """From what whitening does to unit vectors."""
    cols = [onp.asarray(noise_model.whiten_residual_vector(e), dtype=onp.float64) for e in onp.eye(n)]
    S = onp.stack(cols, axis=1)
    return [to_fixes(row, IS) for row in S.T @ S]


def load(s, path):
    t = s["t"]
    n = TYPES[t].get_local_parameter_dim()
    with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
        result = loader().parse_g2o(pathlib.Path(path))
    order = list(result.initial_poses)
    at = lambda v: order.index(v) if v in result.initial_poses else -1
    name = lambda v: next((k for k, c in TYPES.items() if c is type(v)), "?")
    poses = [dict(t=name(v), p=to_fixes(params(t, p), FS)) for v, p in result.initial_poses.items()]
    edges, priors, others = [], [], 0
    values = VariableAssignments.make_from_dict(result.initial_poses)
    for f in result.factors[:MOST]:
        if isinstance(f, jaxfg.geometry.BetweenFactor):
            v = f.get_variable_values_from_assignments(values)
            res = f.compute_residual_vector(v)
            a, b = f.variables
            edges.append({"from": at(a), "to": at(b), "p": to_fixes(params(t, f.T_a_b), FS),
                          "info": information(f.noise_model, n), "res": to_fixes(res, RS)})  # fmt: skip
        elif isinstance(f, jaxfg.geometry.PriorFactor):
            priors.append(dict(at=at(f.variables[0]), p=to_fixes(params(t, f.mu), FS), info=information(f.noise_model, n)))
        else:
            others += 1
    graph = StackedFactorGraph.make(result.factors)
    # Some poses may not be connected
    cost, _ = graph.compute_cost(VariableAssignments.make_from_dict({v: result.initial_poses[v] for v in graph.get_variables()}))
    return dict(poses=poses[:MOST], edges=edges, priors=priors, others=others, cost=to_fix(jnp.asarray(cost), CS))


def execute(s):
    t = s["t"]
    scratch = tempfile.mkdtemp(prefix="verif-g2o-")
    try:
        path = os.path.join(scratch, "graph.g2o")
        with open(path, "w", newline="") as f:
            f.write(written(s))
        ok, res, err = attempt(lambda: load(s, path))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    res = res or dict(poses=[], edges=[], priors=[], others=0, cost=0)

    def line(x):
        nums = [round(v * 1000) for v in x["nums"]]
        if t == "SE3" and x["kind"] in ("vertex", "edge"):
            nums = nums[:3] + [round(v * FS) for v in x["nums"][3:]]
        return dict(kind=x["kind"], at=x["at"], nums=nums, info=x["info"])

    return dict(t=t, lines=[line(x) for x in s["lines"]], refused=not ok, err=err, **res)
