"""Workload: every public GIRTH function as a JSON-described operation.

An operation is a dict {"op": name, "d": data seed, "ni":, "np":, "miss":,
"opts": {...}, "x": {...}}; build() turns it into a call with fresh inputs.
Nothing here uses GIRTH to make data.
"""
import copy
import importlib
import random

import numpy as np

INVALID = -99999


# --------------------------------------------------------- caller densities
class Density:
    """A caller-supplied latent density, freshly created for every call."""

    def __init__(self, kind, a=0.0, b=1.0, fail_at=None):
        self.kind, self.a, self.b, self.calls, self.fail_at = kind, a, b, 0, fail_at
        self.fail_exc = None
        self.hook = None

    def __call__(self, theta):
        self.calls += 1
        if self.hook is not None:
            self.hook(self.calls)
        if self.fail_at is not None and self.calls == self.fail_at:
            from .kernel import Kernel
            if Kernel.current is not None:
                Kernel.current.fired.append({"kind": "density", "at": self.fail_at})
            raise self.fail_exc("simulated failure in the caller's density")
        theta = np.asarray(theta, dtype=float)
        z = (theta - self.a) / self.b
        if self.kind == "norm":
            return np.exp(-0.5 * z * z) / (self.b * np.sqrt(2 * np.pi))
        if self.kind == "logis":
            e = np.exp(-np.abs(z))
            return e / (self.b * (1 + e) ** 2)
        if self.kind == "mix":
            n = lambda m: np.exp(-0.5 * ((z - m) / 0.6) ** 2) / (0.6 * np.sqrt(2 * np.pi))  # noqa
            return (0.5 * n(-0.8) + 0.5 * n(0.8)) / self.b
        if self.kind == "unif":
            return np.where(np.abs(z) <= 5, 0.1, 1e-12) / self.b
        raise ValueError(self.kind)

    def sim_probe(self):
        return (self.kind, self.a, self.b)


def density(desc):
    if desc[0] == "scipy":
        from scipy.stats import norm
        return norm(desc[1], desc[2]).pdf
    if desc[0] == "lambda":
        # a plain closure: new code-identical function object each time
        a, b = desc[1], desc[2]
        return lambda t: np.exp(-0.5 * ((t - a) / b) ** 2) / (b * np.sqrt(2 * np.pi))
    return Density(*desc)


# ------------------------------------------------------------------- data
def _theta(rs, n):
    return rs.standard_normal(n)


def dich_data(p):
    rs = np.random.RandomState(p["d"])
    ni, n = p["ni"], p["np"]
    theta = _theta(rs, n)
    b = np.linspace(-1.0, 1.0, ni) + 0.3 * rs.standard_normal(ni)
    a = 0.8 + 0.8 * rs.rand(ni)
    pr = 1 / (1 + np.exp(-a[:, None] * (theta[None] - b[:, None])))
    data = (rs.rand(ni, n) < pr).astype(int)
    # every item answered both ways, no degenerate item
    for i in range(ni):
        data[i, (2 * i) % n] = 1
        data[i, (2 * i + 1) % n] = 0
    return _finish(rs, data, p)


def poly_data(p):
    rs = np.random.RandomState(p["d"])
    ni, n, lv = p["ni"], p["np"], p.get("lv", 3)
    theta = _theta(rs, n)
    z = theta[None] * (0.8 + rs.rand(ni))[:, None] + rs.standard_normal((ni, n))
    cut = np.quantile(z, np.linspace(0, 1, lv + 1)[1:-1], axis=1).T
    data = 1 + (z[:, :, None] > cut[:, None, :]).sum(2)
    for i in range(ni):
        for lev in range(lv):
            data[i, (i * lv + lev) % n] = lev + 1
    return _finish(rs, data.astype(int), p)


def _finish(rs, data, p):
    if p.get("cell") is not None:
        i, j, v = p["cell"]
        data[i % data.shape[0], j % data.shape[1]] = v
    if p.get("miss"):
        mask = rs.rand(*data.shape) < p["miss"]
        # keep two valid answers of each kind per item
        mask[:, : 2 * data.shape[0] + 6] = False
        mask[0] = False
        data[mask] = INVALID
    if p.get("perm"):                    # the same persons in another order
        data = data[:, np.random.RandomState(p["perm"]).permutation(data.shape[1])]
    if p.get("rows"):                    # the same items in another order
        data = np.ascontiguousarray(np.roll(data, p["rows"], axis=0))
    dt = p.get("dt")
    if dt:
        data = data.astype(dt)
    if p.get("order") == "F":
        data = np.asfortranarray(data)
    elif p.get("order") == "S":          # strided view
        big = np.zeros((data.shape[0], data.shape[1] * 2), data.dtype)
        big[:, ::2] = data
        data = big[:, ::2]
    return data


def corr_matrix(p, n=None):
    rs = np.random.RandomState(p["d"])
    n = n or p["ni"] + 2
    load = rs.uniform(0.3, 0.8, (n, 2)) * np.where(rs.rand(n, 2) < 0.5, 0.4, 1.0)
    m = load @ load.T
    d = np.sqrt(np.diag(m) + rs.uniform(0.4, 0.8, n))
    m = m / d[:, None] / d[None]
    np.fill_diagonal(m, 1.0)
    if p.get("tweak"):
        i, j = p["tweak"]
        i, j = i % n, j % n
        if i != j:
            m[i, j] += 0.013
            m[j, i] += 0.013
    return m


def options(p):
    o = p.get("opts")
    if o is None:
        return None
    out = {}
    if p.get("full"):                    # a dictionary that names every option
        out = {"max_iteration": 2, "distribution": Density("norm"),
               "quadrature_bounds": (-4.5, 4.5), "quadrature_n": 11,
               "hyper_quadrature_n": 9, "use_LUT": True, "estimate_distribution": False,
               "number_of_samples": 9, "initial_guess": True, "num_processors": 1}
    for k, v in o.items():
        if k == "distribution":
            out[k] = density(v)
        elif k == "quadrature_bounds":
            out[k] = tuple(v)
        else:
            out[k] = v
    bad = p.get("bad")
    if bad == "list":
        return [("quadrature_n", 11)]
    if bad:
        out[bad[0]] = tuple(bad[1]) if isinstance(bad[1], list) else bad[1]
    return out


BAD = ["list", ["no_such_option", 1], ["quadrature_n", 3], ["max_iteration", 0],
       ["distribution", 4], ["quadrature_bounds", [3, -3]], ["use_LUT", 1],
       ["quadrature_n", 11.0], ["number_of_samples", 2], ["initial_guess", None]]


# ------------------------------------------------------------------- calls
class Call:
    """fn(*args, **kwargs) with its mutable inputs listed."""

    def __init__(self, fn, args, kwargs=None, post=None):
        self.fn, self.args, self.kwargs, self.post = fn, list(args), dict(kwargs or {}), post

    def __call__(self):
        out = self.fn(*self.args, **self.kwargs)
        if self.post is not None:
            out = self.post(out)
        return out

    def inputs(self):
        return [a for a in list(self.args) + list(self.kwargs.values())
                if isinstance(a, (np.ndarray, dict, list))]

    def densities(self):
        out = []
        for a in self.inputs():
            if isinstance(a, dict):
                out += [v for v in a.values() if isinstance(v, Density)]
        return out


def G(mod, name):
    return getattr(importlib.import_module(mod), name)


OPS = {}


def op(name, group, **defaults):
    def deco(f):
        OPS[name] = {"name": name, "group": group, "build": f, "defaults": defaults}
        return f
    return deco


def _item_op(name, group, gen, x=None, mod="girth", optkeys=()):
    def build(p):
        data = gen(p)
        args, kw = [data], {}
        xs = p.get("x", {})
        if "discrimination" in xs:
            kw["discrimination"] = (np.array(xs["discrimination"])
                                    if isinstance(xs["discrimination"], list)
                                    else xs["discrimination"])
        if "alpha" in xs:
            kw["alpha"] = xs["alpha"]
        if "delta_sign" in xs:
            kw["delta_sign"] = tuple(xs["delta_sign"])
        if p.get("opts") is not None:
            kw["options"] = options(p)
        return Call(G(mod, name), args, kw)
    OPS[name] = {"name": name, "group": group, "build": build, "data": gen.__name__,
                 "x": x or {}, "optkeys": optkeys}


_Q = ("distribution", "quadrature_bounds", "quadrature_n")
_M = ("max_iteration",)
_item_op("rasch_mml", "dich", dich_data, {"discrimination": [0.7, 1.0, 1.6]}, optkeys=_Q)
_item_op("onepl_mml", "dich", dich_data, {"alpha": [None, 1.2]}, optkeys=_Q)
_item_op("twopl_mml", "dich", dich_data, optkeys=_Q + _M + ("use_LUT", "estimate_distribution",
                                                          "number_of_samples"))
_item_op("twopl_mml_eap", "dich", dich_data, optkeys=_Q + _M + ("hyper_quadrature_n",))
_item_op("threepl_mml", "dich", dich_data, optkeys=_Q + _M)
_item_op("rasch_jml", "dich", dich_data, {"discrimination": [0.7, 1.0, 1.6]}, optkeys=_M)
_item_op("onepl_jml", "dich", dich_data, optkeys=_M)
_item_op("twopl_jml", "dich", dich_data, optkeys=_M)
_item_op("rasch_conditional", "dich", dich_data, {"discrimination": [0.7, 1.0, 1.6]},
         optkeys=_M)
_E = ("estimate_distribution", "number_of_samples")
_item_op("grm_mml", "poly", poly_data, optkeys=_Q + _M + _E + ("use_LUT",))
_item_op("grm_mml_eap", "poly", poly_data, optkeys=_Q + _M + _E + ("hyper_quadrature_n",))
_item_op("pcm_mml", "poly", poly_data, optkeys=_Q + _M + _E)
_item_op("gum_mml", "poly", poly_data, {"delta_sign": [[0, 1], [1, -1]]},
         optkeys=_Q + _M + _E)
_item_op("grm_jml", "poly", poly_data, optkeys=_M)
_item_op("pcm_jml", "poly", poly_data, optkeys=_M)


def _item_params(p, guessing=False):
    rs = np.random.RandomState(p["d"] + 77 + p.get("x", {}).get("pd", 0))
    ni = p["ni"]
    diff = np.linspace(-1.2, 1.2, ni) + 0.2 * rs.standard_normal(ni)
    disc = rs.uniform(0.7, 1.8, ni)
    diff[0] += p.get("x", {}).get("eps", 0)
    gs = rs.uniform(0.0, 0.25, ni)
    return (diff, disc, gs) if guessing else (diff, disc)


def _abil(name, guessing, opt, noest=False):
    def build(p):
        data = dich_data(p)
        args = [data, *_item_params(p, guessing)]
        kw = {}
        xs = p.get("x", {})
        if noest and "no_estimate" in xs:
            kw["no_estimate"] = xs["no_estimate"]
        if opt and p.get("opts") is not None:
            kw["options"] = options(p)
        return Call(G("girth", name), args, kw)
    xs = {"pd": [0, 1], "eps": [0, 1e-3, 1e-7]}
    if noest:
        xs["no_estimate"] = [3.5, 2.0]
    OPS[name] = {"name": name, "group": "abil", "build": build, "data": "dich_data",
                 "x": xs, "optkeys": opt, "deg": True}


_abil("ability_mle", False, (), True)
_abil("ability_map", False, ("distribution",))
_abil("ability_eap", False, _Q)
_abil("ability_3pl_mle", True, (), True)
_abil("ability_3pl_map", True, ("distribution",))
_abil("ability_3pl_eap", True, _Q)


def _md_params(p):
    rs = np.random.RandomState(p["d"] + 99 + p.get("x", {}).get("pd", 0))
    ni, lv = p["ni"], p.get("lv", 3)
    disc = rs.uniform(0.3, 1.5, (ni, 2))
    diff = np.sort(rs.standard_normal((ni, lv - 1)), axis=1)[:, ::-1].copy()
    disc[0, 0] += p.get("x", {}).get("eps", 0)
    return diff, disc


def _md_abil(name, opt):
    def build(p):
        kw = {"options": options(p)} if p.get("opts") is not None else {}
        return Call(G("girth", name), [poly_data(p), *_md_params(p)], kw)
    OPS[name] = {"name": name, "group": "md", "build": build, "data": "poly_data",
                 "x": {"pd": [0, 1], "eps": [0, 1e-3, 1e-7]}, "optkeys": opt}


_md_abil("multidimensional_ability_map", ("distribution",))
_md_abil("multidimensional_ability_eap", _Q)


def _md_item(name, gen):
    def build(p):
        kw = {"options": options(p)} if p.get("opts") is not None else {}
        return Call(G("girth", name), [gen(p), 2], kw)
    OPS[name] = {"name": name, "group": "md", "build": build, "data": gen.__name__,
                 "x": {}, "optkeys": _Q + _M + ("use_LUT", "initial_guess"), "np": 24,
                 "nomiss": True}


def dich_data12(p):
    return dich_data(p)


_md_item("multidimensional_grm_mml", poly_data)
_md_item("multidimensional_twopl_mml", dich_data12)


@op("initial_guess_md", "md")
def _b(p):
    kw = {"options": options(p)} if p.get("opts") is not None else {}
    return Call(G("girth.multidimensional", "initial_guess_md"), [poly_data(p), 2], kw)


OPS["initial_guess_md"].update(data="poly_data", x={}, optkeys=(), np=40, nomiss=True)


# --------------------------------------------------------------- utilities
@op("mml_approx", "util")
def _b(p):
    return Call(G("girth", "mml_approx"), [dich_data(p)],
                {"discrimination": p.get("x", {}).get("discrimination", 1)})


OPS["mml_approx"].update(data="dich_data", x={"discrimination": [1, 1.5]}, optkeys=())


@op("tag_missing_data", "util")
def _b(p):
    return Call(G("girth", "tag_missing_data"),
                [poly_data(p), list(p.get("x", {}).get("valid", [1, 2, 3]))])


OPS["tag_missing_data"].update(data="poly_data", x={"valid": [[1, 2], [1, 2, 3], [2, 3]]},
                               optkeys=())


@op("get_true_false_counts", "util")
def _b(p):
    return Call(G("girth.utilities", "get_true_false_counts"), [dich_data(p)])


@op("convert_responses_to_kernel_sign", "util")
def _b(p):
    return Call(G("girth.utilities", "convert_responses_to_kernel_sign"), [dich_data(p)])


@op("trim_response_set_and_counts", "util")
def _b(p):
    sets, counts = np.unique(dich_data(p), axis=1, return_counts=True)
    return Call(G("girth.utilities", "trim_response_set_and_counts"), [sets, counts])


@op("condition_polytomous_response", "util")
def _b(p):
    return Call(G("girth", "condition_polytomous_response"), [poly_data(p)],
                {"trim_ends": p.get("x", {}).get("trim_ends", True)})


OPS["condition_polytomous_response"].update(x={"trim_ends": [True, False]})


def _probe_interp(f):
    return [np.array([float(f(a, b)) for a in (0.4, 0.9, 2.2) for b in (0.1, 0.45, 0.8)]),
            f(1.1, np.array([0.2, 0.5, 0.7]))]


@op("create_beta_LUT", "util")
def _b(p):
    xs = p.get("x", {})
    return Call(G("girth", "create_beta_LUT"),
                [tuple(xs.get("alpha", [0.2, 3, 20])), tuple(xs.get("beta", [-4, 4, 40]))],
                {"options": options(p)} if p.get("opts") is not None else {},
                post=_probe_interp)


OPS["create_beta_LUT"].update(
    x={"alpha": [[0.2, 3, 20], [0.2, 4, 20], [0.3, 3, 20]],
       "beta": [[-4, 4, 40], [-5, 5, 40], [-4, 4, 41]]}, optkeys=_Q)


@op("classical_test_statistics", "util")
def _b(p):
    return Call(G("girth", "classical_test_statistics"), [poly_data(p)])


@op("validate_estimation_options", "util")
def _b(p):
    return Call(G("girth", "validate_estimation_options"), [options(p)])


OPS["validate_estimation_options"].update(optkeys=_Q + _M + _E + (
    "use_LUT", "initial_guess", "num_processors", "hyper_quadrature_n"))


@op("default_options", "util")
def _b(p):
    return Call(G("girth", "default_options"), [])


def _latent_steps(p):
    def go(opts):
        pdf = G("girth", "LatentPDF")(opts)
        rs = np.random.RandomState(p["d"])
        out = []
        for it in range(p.get("x", {}).get("steps", 2)):
            part = rs.uniform(0.05, 0.9, (12, pdf.quadrature_locations.size))
            out.append(pdf(part, it))
            out.append(pdf.compute_metrics(part, out[-1], 3))
        out.append(pdf)
        return out
    return go


@op("LatentPDF", "util")
def _b(p):
    return Call(_latent_steps(p), [options(p)])


OPS["LatentPDF"].update(x={"steps": [1, 2, 3]}, optkeys=_Q + _E, estimate=True)


def _spline(p):
    def go(o):
        cs = G("girth", "CubicSplinePDF")(o)
        rs = np.random.RandomState(p["d"])
        co = rs.rand(o["number_of_samples"])
        cs.update_coefficients(co / co.sum())
        return [cs, cs.continuous_pdf((-3, 3), 21), cs.filter_matrix(np.linspace(-2, 2, 5)),
                cs(np.array([-0.5, 0.25]))]
    return go


@op("CubicSplinePDF", "util")
def _b(p):
    xs = p.get("x", {})
    return Call(_spline(p), [{"number_of_samples": xs.get("ns", 9),
                              "quadrature_bounds": tuple(xs.get("qb", [-4.5, 4.5]))}])


OPS["CubicSplinePDF"].update(x={"ns": [7, 9, 11], "qb": [[-4.5, 4.5], [-4, 4], [-5, 4]]})


def _resample(p):
    def go(n, m):
        cs = G("girth", "CubicSplinePDF")({"number_of_samples": n,
                                           "quadrature_bounds": (-4.5, 4.5)})
        rs = np.random.RandomState(p["d"])
        co = np.exp(-0.5 * cs.sample_space[2:-2] ** 2) * rs.uniform(0.8, 1.2, n)
        cs.update_coefficients(co / co.sum())
        return [G("girth.utilities.latent_ability_distribution", "resample")(cs, m), cs]
    return go


@op("resample", "util")
def _b(p):
    xs = p.get("x", {})
    return Call(_resample(p), [xs.get("n", 7), xs.get("m", 9)])


OPS["resample"].update(x={"n": [7, 11], "m": [9, 13]})


# ------------------------------------------------------------------ common
@op("cronbach_alpha", "common")
def _b(p):
    return Call(G("girth.common", "cronbach_alpha"), [poly_data(p)])


@op("entropy", "common")
def _b(p):
    rs = np.random.RandomState(p["d"])
    return Call(G("girth.common", "entropy"), [rs.standard_normal((p["ni"], 4))],
                {"axis": p.get("x", {}).get("axis", 1)})


OPS["entropy"].update(x={"axis": [0, 1]})


@op("hyperspherical_vector", "common")
def _b(p):
    rs = np.random.RandomState(p["d"])
    return Call(G("girth.common", "hyperspherical_vector"), [rs.uniform(0, 3, p["ni"])])


@op("hyperspherical_angles", "common")
def _b(p):
    rs = np.random.RandomState(p["d"])
    return Call(G("girth.common", "hyperspherical_angles"), [rs.standard_normal(p["ni"])])


@op("polychoric_correlation_serial", "common")
def _b(p):
    q = dict(p, ni=min(p["ni"], 4), np=min(p["np"], 30))
    return Call(G("girth.common", "polychoric_correlation_serial"), [poly_data(q)],
                {"start_val": 1, "stop_val": p.get("x", {}).get("stop", 3)})


OPS["polychoric_correlation_serial"].update(nomiss=True, x={"stop": [3, 4]})


@op("polychoric_correlation", "common")
def _b(p):
    q = dict(p, ni=min(p["ni"], 4), np=min(p["np"], 30))
    return Call(G("girth.common", "polychoric_correlation"), [poly_data(q)],
                {"start_val": 1, "stop_val": 3,
                 "num_processors": p.get("x", {}).get("procs", 1)})


OPS["polychoric_correlation"].update(nomiss=True)


@op("contingency_table", "common")
def _b(p):
    d = poly_data(p)
    return Call(G("girth.common", "contingency_table"), [d[0], d[1]],
                {"start_val": p.get("x", {}).get("start", 1), "stop_val": 4})


OPS["contingency_table"].update(nomiss=True, x={"start": [0, 1]})


@op("validate_contingency_table", "common")
def _b(p):
    rs = np.random.RandomState(p["d"])
    t = rs.randint(0, 5, (4, 5)).astype(float)
    t[rs.randint(4)] = 0
    t[:, rs.randint(5)] = 0
    return Call(G("girth.common", "validate_contingency_table"), [t])


@op("polyserial_correlation", "common")
def _b(p):
    d = poly_data(p)
    rs = np.random.RandomState(p["d"] + 5)
    return Call(G("girth.common", "polyserial_correlation"),
                [d[0] + rs.standard_normal(d.shape[1]), d[0].copy()])


OPS["polyserial_correlation"].update(nomiss=True)


@op("procrustes_rotation", "common")
def _b(p):
    rs = np.random.RandomState(p["d"])
    return Call(G("girth.common", "procrustes_rotation"),
                [rs.standard_normal((p["ni"], 3)), rs.standard_normal((p["ni"], 3))])


@op("reverse_score", "common")
def _b(p):
    rs = np.random.RandomState(p["d"])
    d = poly_data(p)
    return Call(G("girth.common", "reverse_score"),
                [d, rs.rand(d.shape[0]) < 0.5, p.get("x", {}).get("max", 5)])


OPS["reverse_score"].update(x={"max": [3, 5]})


# ---------------------------------------------------------- factor analysis
@op("principal_components_analysis", "fa")
def _b(p):
    return Call(G("girth.factoranalysis", "principal_components_analysis"),
                [corr_matrix(p), p.get("x", {}).get("nf", 2)])


@op("principal_axis_factor", "fa")
def _b(p):
    m = corr_matrix(p)
    xs = p.get("x", {})
    kw = {}
    if xs.get("guess"):
        kw["initial_guess"] = np.full(m.shape[0], xs["guess"])
    if "tol" in xs:
        kw["tolerance"] = xs["tol"]
    return Call(G("girth.factoranalysis", "principal_axis_factor"),
                [m, xs.get("nf", 2)], kw)


@op("minimum_rank_factor_analysis", "fa")
def _b(p):
    m = corr_matrix(p)
    xs = p.get("x", {})
    kw = {"n_iter": xs.get("n_iter", 20)}
    if xs.get("guess"):
        kw["initial_guess"] = np.full(m.shape[0], xs["guess"])
    return Call(G("girth.factoranalysis", "minimum_rank_factor_analysis"),
                [m, xs.get("nf", 2)], kw)


@op("maximum_likelihood_factor_analysis", "fa")
def _b(p):
    m = corr_matrix(p)
    xs = p.get("x", {})
    kw = {"max_iter": xs.get("max_iter", 30)}
    if xs.get("guess"):
        kw["initial_guess"] = np.full(m.shape[0], xs["guess"])
    if "tol" in xs:
        kw["tolerance"] = xs["tol"]
    return Call(G("girth.factoranalysis", "maximum_likelihood_factor_analysis"),
                [m, xs.get("nf", 2)], kw)


for _n in ("principal_components_analysis", "principal_axis_factor",
           "minimum_rank_factor_analysis", "maximum_likelihood_factor_analysis"):
    OPS[_n].update(x={"nf": [1, 2, 3]}, matrix=True)
    if _n != "principal_components_analysis":
        OPS[_n]["x"]["guess"] = [0.4, 0.5]
    if _n in ("principal_axis_factor", "maximum_likelihood_factor_analysis"):
        OPS[_n]["x"]["tol"] = [1e-2, 1e-3, 1e-5]
OPS["maximum_likelihood_factor_analysis"]["x"]["max_iter"] = [3, 30]
OPS["minimum_rank_factor_analysis"]["x"]["n_iter"] = [5, 20]


@op("sparsify_loadings", "fa")
def _b(p):
    rs = np.random.RandomState(p["d"])
    xs = p.get("x", {})
    kw = {"seed": xs.get("seed", 3), "alpha": xs.get("alpha", 0.5),
          "orthogonal": xs.get("orthogonal", False)}
    if xs.get("guess"):
        kw["initial_guess"] = np.array([0.3, 1.5])
    return Call(G("girth.factoranalysis", "sparsify_loadings"),
                [rs.uniform(-0.8, 0.8, (p["ni"], 2))], kw)


OPS["sparsify_loadings"].update(x={"seed": [1, 3, 4], "alpha": [0.5, 1.0],
                                   "orthogonal": [False, True], "guess": [0, 1]}, slow=True)


# --------------------------------------------------------------- synthesis
def _seed_obj(p):
    s = p.get("x", {}).get("seed", 11)
    kind = p.get("x", {}).get("seedkind", "int")
    if kind == "gen":
        return np.random.default_rng(s)
    if kind == "seq":
        return np.random.SeedSequence(s)
    return s


@op("create_synthetic_irt_dichotomous", "syn")
def _b(p):
    rs = np.random.RandomState(p["d"])
    xs = p.get("x", {})
    ni, n = p["ni"], p["np"]
    diff = rs.standard_normal(ni)
    if xs.get("md"):
        disc, theta = rs.uniform(0.3, 1.5, (ni, 2)), rs.standard_normal((2, n))
    else:
        disc = rs.uniform(0.5, 2, ni) if xs.get("vec", 1) else 1.3
        theta = rs.standard_normal(n)
    guess = rs.uniform(0, 0.3, ni) if xs.get("guess") else 0
    return Call(G("girth.synthetic", "create_synthetic_irt_dichotomous"),
                [diff, disc, theta], {"guessing": guess, "seed": _seed_obj(p)})


OPS["create_synthetic_irt_dichotomous"].update(
    x={"md": [0, 1], "vec": [0, 1], "guess": [0, 1], "seed": [11, 12, 0],
       "seedkind": ["int", "gen", "seq"]})


@op("create_synthetic_irt_polytomous", "syn")
def _b(p):
    rs = np.random.RandomState(p["d"])
    xs = p.get("x", {})
    ni, n = p["ni"], p["np"]
    model = xs.get("model", "grm")
    if model == "gum":
        half = -np.sort(rs.uniform(0.2, 2, (ni, 2)), axis=1)[:, ::-1]
        off = rs.standard_normal((ni, 1))
        diff = np.hstack([half, np.zeros((ni, 1)), -half[:, ::-1]]) + off
    elif model == "grm_md":
        diff = np.sort(rs.standard_normal((ni, 3)), axis=1)[:, ::-1].copy()
    else:
        diff = np.sort(rs.standard_normal((ni, 3)), axis=1)
    if model == "grm_md":
        disc, theta = rs.uniform(0.3, 1.5, (ni, 2)), rs.standard_normal((2, n))
    else:
        disc = rs.uniform(0.5, 2, ni) if xs.get("vec", 1) else 1.3
        theta = rs.standard_normal(n)
    return Call(G("girth.synthetic", "create_synthetic_irt_polytomous"),
                [diff, disc, theta], {"model": model, "seed": _seed_obj(p)})


OPS["create_synthetic_irt_polytomous"].update(
    x={"model": ["grm", "pcm", "gum", "grm_md"], "vec": [0, 1], "seed": [11, 12, 0],
       "seedkind": ["int", "gen", "seq"]})


# --------------------------------------------------------------- bootstrap
@op("standard_errors_bootstrap", "boot")
def _b(p):
    from . import models
    xs = p.get("x", {})
    return Call(G("girth", "standard_errors_bootstrap"),
                [dich_data(p), models.MODELS[xs.get("model", "quick")]],
                {"bootstrap_iterations": xs.get("iters", 4), "n_processors": 1,
                 "seed": xs.get("seed", 5), "options": options(p)})


OPS["standard_errors_bootstrap"].update(
    data="dich_data", x={"iters": [3, 4], "seed": [5, 6, 0], "model": ["quick", "rasch_mml"]},
    optkeys=_Q)

GROUPS = {}
for _n, _o in OPS.items():
    GROUPS.setdefault(_o["group"], []).append(_n)
    _o.setdefault("data", "poly_data")
    _o.setdefault("x", {})
    _o.setdefault("optkeys", ())


# -------------------------------------------------------------- generation
_OPTVALS = {
    "quadrature_n": [9, 11, 15],
    "quadrature_bounds": [[-4.5, 4.5], [-4, 4], [-3.5, 4.0], [-5, 5], [-4, 5], [-3.5, 4.5],
                          [-5, 4]],
    "max_iteration": [1, 2, 3],
    "use_LUT": [True, False],
    "estimate_distribution": [False, True],
    "number_of_samples": [7, 9, 11],
    "initial_guess": [True, False],
    "hyper_quadrature_n": [9, 11],
    "num_processors": [1],
}


def gen_dist(r):
    kind = r.choice(["norm", "logis", "mix", "scipy", "lambda", "norm"])
    a, b = r.choice([0.0, 0.3, -0.4]), r.choice([1.0, 1.2, 0.8])
    if kind == "mix":
        return ["mix", a, 1.0]
    return [kind, a, b]


# iteration and quadrature counts that keep one call cheap
CHEAP = {"max_iteration": 1, "quadrature_n": 9, "hyper_quadrature_n": 9}
LUT_SLOW = ("grm_mml", "grm_mml_eap", "twopl_mml", "multidimensional_grm_mml",
            "multidimensional_twopl_mml")


def gen(r, names, light=True):
    """Draw one operation from `names` with random.Random r."""
    name = r.choice(names)
    o = OPS[name]
    p = {"op": name, "d": r.randrange(1000), "ni": r.choice([3, 4, 5, 5, 6]),
         "np": o.get("np") or r.choice([20, 24, 30, 36])}
    if r.random() < 0.06:                # now and then something larger
        p["ni"], p["np"] = r.choice([8, 10]), o.get("np") or r.choice([48, 70])
    if o["group"] == "md":
        p["ni"] = r.choice([4, 5])
    if o["data"] == "poly_data":
        p["lv"] = r.choice([3, 3, 3, 4, 5, 2]) if name in (
            "grm_mml", "pcm_mml", "grm_jml", "pcm_jml", "grm_mml_eap", "cronbach_alpha",
            "condition_polytomous_response", "classical_test_statistics") else 3
    if not o.get("nomiss") and r.random() < 0.35:
        p["miss"] = 0.2
    if r.random() < 0.2:
        p["order"] = r.choice(["F", "S"])
    keys = o["optkeys"]
    if keys:
        opts = {}
        for k in keys:
            if k == "distribution":
                if r.random() < 0.5:
                    opts[k] = gen_dist(r)
            elif k in CHEAP:
                opts[k] = r.choice(_OPTVALS[k][:2]) if light else r.choice(_OPTVALS[k])
            elif r.random() < 0.5:
                opts[k] = r.choice(_OPTVALS[k])
        if name in ("LatentPDF",):
            opts["estimate_distribution"] = True
        if opts.get("estimate_distribution") and "max_iteration" in keys:
            opts["max_iteration"] = 2
        if r.random() < 0.1 and name in ("rasch_mml", "ability_eap", "ability_map"):
            opts = None
        elif r.random() < 0.15 and o["group"] != "md":
            p["full"] = 1
        elif r.random() < 0.04:
            p["bad"] = r.choice(BAD)
        p["opts"] = opts
    x = {}
    for k, vals in o["x"].items():
        if r.random() < 0.5:
            v = r.choice(vals)
            if v is not None:
                x[k] = v
    p["x"] = x
    return p


def neighbour(r, p):
    """A near-collision: exactly one aspect of the call changes."""
    o = OPS[p["op"]]
    q = copy.deepcopy(p)
    choices = ["seed", "cell"]
    if o["group"] in ("fa",) and o.get("matrix"):
        choices = ["seed", "tweak"]
    keys = [k for k in o["optkeys"] if k != "num_processors"]
    if keys and p.get("opts") is not None:
        choices += ["opt"] * 4
    if o["x"]:
        choices += ["x"] * 3
    if o["data"] in ("dich_data", "poly_data", "dich_data12"):
        choices += ["dtype", "perm", "rows"]
    c = r.choice(choices)
    if c == "seed":
        q["d"] = (p["d"] + 1 + r.randrange(5)) % 1000
    elif c == "cell":
        lo = 0 if o["data"] != "poly_data" else 1
        q["cell"] = [r.randrange(p["ni"]), r.randrange(8, p["np"]), lo + r.randrange(2)]
    elif c == "tweak":
        q["tweak"] = [r.randrange(8), r.randrange(8)]
    elif c == "dtype":
        q["dt"] = r.choice(["int32", "int64", "float64"])
    elif c == "perm":
        q["perm"] = 1 + r.randrange(9)
    elif c == "rows":
        q["rows"] = 1 + r.randrange(p["ni"] - 1)
    elif c == "opt":
        k = r.choice(keys)
        if k == "distribution":
            q["opts"][k] = gen_dist(r)
        else:
            vals = [v for v in _OPTVALS[k] if v != q["opts"].get(k)]
            if k in ("max_iteration",):
                vals = vals[:2]
            q["opts"][k] = r.choice(vals)
    elif c == "x":
        k = r.choice(list(o["x"]))
        vals = [v for v in o["x"][k] if v != q["x"].get(k) and v is not None]
        if vals:
            q["x"][k] = r.choice(vals)
    return q


def build(p):
    return OPS[p["op"]]["build"](p)


def key(p):
    import json
    return json.dumps(p, sort_keys=True)


def rng_for(*parts):
    return random.Random("/".join(map(str, parts)))
