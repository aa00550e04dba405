"""
C14: samplers and optimizers respect bounds under any randomness.

One sampler and one optimizer live through a history of calls, user failures, retries and restarts; every model they
build is recorded by the user code and compared with the declared bounds and values.
"""
import itertools
import json
import math

from simkit import faults, models

NAMES = ["p0", "p1", "p2", "p3"]
CRITERIA = ["center", "c", "maximin", "m", "centermaximin", "correlation", "corr", None]
METHODS = ["L-BFGS-B", "L-BFGS-B", "SLSQP", "Powell", "Nelder-Mead"]  # the TNC of scipy evaluates NaN on kinked costs
MONOTONE = ("L-BFGS-B", "Nelder-Mead")
ERRORS = [e for e in faults.EXCEPTIONS if e not in ("Cancelled", "KeyboardInterrupt")]


def gen(rng, tier):
    names = rng.sample(NAMES, 4)
    varied = rng.choice([1, 1, 2, 2, 3, 4])
    bounds = []
    for name in names[:varied]:
        low = rng.choice([0., -1., 150., -3.5e4, 1e-6, 7])
        bounds.append([name, low, low + rng.choice([1., 0.25, 100, 1e-3, 5e5, 1. / 3]), rng.choice([1, 2, 2, 3, 4, 5])])
    if rng.random() < 0.1:
        bounds[0][2] = bounds[0][1]
    fixed = [[name, rng.choice([0., 42, -1.5, 1e6])] for name in names[varied:] if rng.random() < 0.7]
    history = []
    for _ in range(rng.choice([2, 3, 5, 8])):
        action = rng.choice(["fullfact", "fullfact", "lhs", "lhs", "montecarlo", "montecarlo", "gradient", "gradient", "cma", "both",
                             "random", "reload"])
        if varied == 1 and action in ("cma", "both"):  # the CMA library needs two dimensions
            action = "gradient"
        op = {"do": action}
        if action in ("lhs", "montecarlo"):
            op["samples"] = rng.choice([1, 2, 3, 7, 20, 60])
        if action == "lhs":
            op["criterion"] = rng.choice(CRITERIA)
            if op["criterion"] in ("correlation", "corr") and (varied == 1 or op["samples"] < 7) or op["samples"] == 1:
                op["criterion"] = rng.choice(["center", "c", None])  # limits of pyDOE2
        if action in ("gradient", "both"):
            op["method"] = rng.choice(METHODS)
        if action == "gradient" and rng.random() < 0.5:
            op["x0"] = [rng.choice([0., 1., 0.5, round(rng.random(), 3)]) for _ in bounds]
        if action != "random" and rng.random() < 0.35:
            op["fail"] = [rng.choice([1, 2, 3, 5, 11, 40, rng.randrange(1, 400)]), rng.choice(ERRORS)]
        history.append(op)
    return {"bounds": bounds, "fixed": fixed, "history": history, "shape": rng.choice(["bowl", "bowl", "vee", "flat", "step", "waves", "slope"]),
            "base": rng.choice([0., 0.3, -2., 5.]), "best": [rng.choice([0.5, 0., 1., -0.4, 1.7, rng.random()]) for _ in bounds],
            "seam": {"seed": rng.getrandbits(32), "clock": {"start": 1.6e9 + rng.random(), "steps": [0.01]}},
            "shrink": ["history", "fixed"]}


def describe(plan):
    return {k: plan[k] for k in ("bounds", "fixed", "shape", "history")}


class Judge:
    """ Records every model the library builds and judges it. """

    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.built, self.costs, self.starts = [], [], []
        self.bounds = {name: (low, high) for name, low, high, _ in plan["bounds"]}
        self.fixed = dict(plan["fixed"])

    def clear(self):
        self.built, self.costs, self.starts = [], [], []

    def __call__(self, what, args):
        if what == "Trial.__init__":
            values = {name: getattr(args[0], name) for name in NAMES}
            self.built.append(values)
            self.judge(values)
        elif what == "TrialOptimizer.objective":
            self.costs.append(({name: getattr(args[0], name) for name in NAMES}))
        elif what == "TrialOptimizer.gradient":
            self.starts.append([len(self.costs), None if args[0] is None else [float(v) for v in args[0]]])

    def judge(self, values):
        for name, value in values.items():
            if name in self.bounds:
                low, high = self.bounds[name]
                slack = 1e-9 * max(abs(low), abs(high), 1e-9)
                self.ctx.check(low - slack <= value <= high + slack, "out-of-bounds", lambda: f"{name} = {value!r} not in [{low}, {high}]")
            else:
                wanted = self.fixed.get(name, models.TRIAL_DEFAULT)
                self.ctx.check(value == wanted, "fixed-value", lambda: f"{name} = {value!r} instead of {wanted!r}")


def optimizer_of(plan):
    from dessia_common.optimization import BoundedAttributeValue, FixedAttributeValue
    targets = {name: [(high - low) or 1., low, best] for (name, low, high, _), best in zip(plan["bounds"], plan["best"])}
    return models.TrialOptimizer([FixedAttributeValue(n, v) for n, v in plan["fixed"]],
                                 [BoundedAttributeValue(n, low, high, k) for n, low, high, k in plan["bounds"]],
                                 shape=plan["shape"], targets=targets, base=plan["base"], name="optimizer")


def sampler_of(plan):
    from dessia_common.datatools.sampling import ClassSampler
    from dessia_common.optimization import BoundedAttributeValue, FixedAttributeValue
    return ClassSampler(models.Trial, [BoundedAttributeValue(n, low, high, k) for n, low, high, k in plan["bounds"]],
                        [FixedAttributeValue(n, v) for n, v in plan["fixed"]], name="sampler")


def view(thing):
    """ Declared data of a sampler or an optimizer. """
    bounds = getattr(thing, "optimization_bounds", None) or getattr(thing, "sampled_attributes", [])
    fixed = getattr(thing, "fixed_parameters", None) or getattr(thing, "constant_attributes", [])
    return [[[b.attribute_name, b.min_value, b.max_value, b.number] for b in bounds], [[f.attribute_name, f.value] for f in fixed],
            thing.name, str(getattr(thing, "sampled_class", "")), list(getattr(thing, "attributes", []))]


def close(a, b):
    return math.isclose(a, b, rel_tol=1e-9, abs_tol=1e-9)


def judge_doe(plan, ctx, op, dataset):
    """ Number of samples, combinations, strata. """
    rows = [{name: getattr(m, name) for name in NAMES} for m in dataset.dessia_objects]
    if op["do"] == "fullfact":
        grids = [[low + (high - low) * i / max(1, number - 1) for i in range(number)] for _, low, high, number in plan["bounds"]]
        wanted = sorted(itertools.product(*grids))
        got = sorted(tuple(row[b[0]] for b in plan["bounds"]) for row in rows)
        ctx.check(len(got) == len(wanted), "number-of-samples", lambda: f"{len(got)} samples instead of {len(wanted)} combinations")
        scale = [max(abs(b[1]), abs(b[2]), 1e-9) for b in plan["bounds"]]
        missing = list(got)
        for combination in wanted:
            found = next((g for g in missing if all(abs(x - y) <= 1e-9 * s for x, y, s in zip(g, combination, scale))), None)
            ctx.check(found is not None, "combination-missing", lambda: f"{combination} not among {missing}")
            missing.remove(found)
    else:
        ctx.check(len(rows) == op["samples"], "number-of-samples", lambda: f"{len(rows)} samples instead of {op['samples']}")
    if op["do"] == "lhs":
        for name, low, high, _ in plan["bounds"]:
            if high == low:
                continue
            strata = sorted(min(op["samples"] - 1, max(0, math.floor((row[name] - low) / (high - low) * op["samples"])))
                            for row in rows)
            near = [abs(((row[name] - low) / (high - low) * op["samples"]) % 1 - 0.5) > 0.499999 for row in rows]
            if not any(near):  # rounding could move a value at the border of its stratum
                ctx.check(strata == list(range(op["samples"])), "not-a-latin-hypercube", lambda: f"{name}: strata {strata}")
    return [[row[n] for n in NAMES] for row in rows]


def judge_optimum(plan, ctx, op, judge, optimizer, answer):
    model, cost = answer
    judge.judge({name: getattr(model, name) for name in NAMES})
    reference = optimizer.cost(model)
    ctx.check(close(reference, cost), "cost-of-another-model", lambda: f"returned {cost!r}, its model costs {reference!r}")
    costs = [optimizer.cost(models_row(values)) for values in judge.costs]
    ctx.check(bool(costs), "nothing-evaluated", "no model was evaluated")
    tolerance = 1e-9 * max(1., abs(cost))
    if op["do"] == "cma":
        ctx.check(cost <= min(costs) + tolerance, "better-model-discarded", lambda: f"returned {cost}, evaluated {min(costs)}")
    elif op["do"] == "gradient":
        start = costs[0]
        if op.get("x0") is not None:
            start = optimizer.cost(models_row({**dict(plan["fixed"]), **{b[0]: b[1] + x * (b[2] - b[1])
                                                                        for b, x in zip(plan["bounds"], op["x0"])}}))
        if op["method"] in MONOTONE:
            ctx.check(cost <= start + tolerance, "worse-than-start", lambda: f"started from {start}, returned {cost}")
    elif judge.starts:
        split, x0 = judge.starts[-1]
        ctx.check(cost <= min(costs[:split]) + tolerance, "better-model-discarded",
                  lambda: f"returned {cost}, the global search had found {min(costs[:split])}")
        ctx.check(x0 is not None, "polishes-another-model", "the gradient search started from a random point")
        best = min(range(split), key=costs.__getitem__)
        start = optimizer.cost(models_row({**dict(plan["fixed"]), **{b[0]: b[1] + x * (b[2] - b[1]) for b, x in zip(plan["bounds"], x0)}}))
        ctx.check(abs(start - costs[best]) <= 1e-6 * max(1., abs(start)), "polishes-another-model",
                  lambda: f"the global search found a cost of {costs[best]}, the gradient search started from one of {start}")
    return [[getattr(model, n) for n in NAMES], float(cost)]


class models_row:
    """ Values of a model, without building one. """

    def __init__(self, values):
        for name in NAMES:
            setattr(self, name, values.get(name, models.TRIAL_DEFAULT))


def program(plan, ctx):
    """ The twin (``fresh``) has a new sampler and a new optimizer for each operation: calls leave no trace in them. """
    judge = Judge(plan, ctx)
    things = {"sampler": sampler_of(plan), "optimizer": optimizer_of(plan)}
    results = []
    for op in plan["history"]:
        if plan.get("fresh"):
            things = {"sampler": sampler_of(plan), "optimizer": optimizer_of(plan)}
        ctx.state(op["do"], op.get("criterion"), op.get("method"), plan["shape"], len(plan["bounds"]), "fail" in op)
        before = {k: view(v) for k, v in things.items()}
        kind, number = op.get("fail", (None, None))[::-1] if "fail" in op else (None, None)
        user = faults.UserCode(ctx, [(number, kind)] if kind else (), observer=judge,
                               only=lambda what: what in ("Trial.__init__", "TrialOptimizer.objective")).install()
        for attempt in range(2):
            judge.clear()
            try:
                answer = call(plan, things, op)
            except Exception as exc:  # noqa
                if not user.fired or not faults.in_chain(exc, user.fired[-1]) or attempt:
                    raise
                ctx.count("failed-calls")
                continue
            ctx.check(attempt or not user.fired, "failure-hidden", lambda: f"{op} succeeded although a model failed: {user.fired}")
            break
        user.armed = False
        if op["do"] in ("fullfact", "lhs", "montecarlo"):
            results.append(judge_doe(plan, ctx, op, answer))
        elif op["do"] in ("gradient", "cma", "both"):
            user.observer = None
            results.append(judge_optimum(plan, ctx, op, judge, things["optimizer"], answer))
        elif op["do"] == "random":
            results.append(judge_random(plan, ctx))
        after = {k: view(v) for k, v in things.items()}
        ctx.check(before == after, "definition-changed", lambda: f"{op['do']} modified the sampler or the optimizer")
        user.remove()
        ctx.ev(op["do"], json.dumps(results[-1:]))
    return results


def judge_random(plan, ctx):
    from dessia_common.core import Parameter
    values = []
    for name, low, high, _ in plan["bounds"]:
        parameter = Parameter(low, high, name=name)
        for _ in range(5):
            value = parameter.random_value()
            ctx.check(low - 1e-12 * abs(low) <= value <= high + 1e-12 * abs(high), "out-of-bounds", lambda: f"{value!r} not in [{low}, {high}]")
            if high > low:
                unit = parameter.normalize(value)
                ctx.check(-1e-9 <= unit <= 1 + 1e-9, "out-of-bounds", lambda: f"normalized to {unit!r}")
                back = parameter.original_value(unit)
                ctx.check(abs(back - value) <= 1e-9 * max(abs(low), abs(high)), "normalization", lambda: f"{value!r} becomes {back!r}")
            values.append(value)
    return values


def call(plan, things, op):
    action = op["do"]
    if action in ("fullfact", "lhs", "montecarlo"):
        return things["sampler"].make_doe(op.get("samples", 7), method=action, lhs_criterion=op.get("criterion"), name="doe")
    if action == "cma":
        return things["optimizer"].optimize_cma()
    if action == "gradient":
        return things["optimizer"].optimize_gradient(method=op["method"], x0=op.get("x0"))
    if action == "both":
        return things["optimizer"].optimize_cma_then_gradient(method=op["method"])
    if action == "reload":
        for name, thing in list(things.items()):
            things[name] = type(thing).dict_to_object(json.loads(json.dumps(thing.to_dict())))
    return None


def run(plan, ctx):
    first = ctx.restart(__name__, "program", plan, plan["seam"])
    seam = plan["seam"]
    if not any(op["do"] in ("cma", "both") for op in plan["history"]):  # the cma library takes its seed from the clock
        seam = dict(seam, clock={"start": 1.9e9, "steps": [3.7, 0.2]}, layout=seam["seed"] ^ 1)
    second = ctx.restart(__name__, "program", dict(plan, fresh=True), seam)
    ctx.check(json.dumps(first) == json.dumps(second), "not-reproducible", "the same random streams gave other results")
