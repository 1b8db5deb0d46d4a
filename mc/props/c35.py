"""C35: analysis plots can be drawn for every model and do not touch it."""
import io
import itertools
import logging
import os
import re
import shutil
import tempfile
import warnings

import matplotlib

matplotlib.use("Agg")
import matplotlib.figure  # noqa: E402
import matplotlib.pyplot as plt  # noqa: E402
import numpy as np  # noqa: E402
import pandas as pd  # noqa: E402

from cyclic_boosting import flags, plots  # noqa: E402
from cyclic_boosting.binning import BinNumberTransformer  # noqa: E402
from cyclic_boosting.observers import PlottingObserver  # noqa: E402
from cyclic_boosting.utils import ConvergenceError  # noqa: E402
from mc import est  # noqa: E402
from mc.core import close, ensure, fail, is_close, snapshot  # noqa: E402
from mc.est import ADD, C, GENERIC, HM, LOGIT, MNL, O, U, warm_basic  # noqa: E402
from mc.run import Space  # noqa: E402

NAN = float("nan")
ASSUMPTIONS = ["The report has one page per feature group in training order, one with the in-sample diagonal (not for the dispersion model) and one with the loss."]

# columns: every pattern is a table of six rows
TABLES = {
    "full": {"a": [0, 1, 2, 0, 1, 2], "b": [0, 0, 0, 1, 1, 1], "c": [0, 1, 0, 1, 1, 0]},
    "gap": {"a": [0, 1, 2, 0, 1, 0], "b": [0, 0, 0, 1, 1, 1], "c": [0, 1, 0, 0, 1, 0]},
    "missing": {"a": [0, 1, NAN, 0, NAN, 2], "b": [0, NAN, 0, 1, 1, 1], "c": [0, 1, 0, 1, NAN, 0]},
    "nothing": {"a": [NAN] * 6, "b": [0, 0, 0, 1, 1, 1], "c": [NAN] * 6},
    "constant": {"a": [0] * 6, "b": [0] * 6, "c": [0] * 6},
}
STRUCTS = {
    "one": ["a"],
    "two": [["a", "b"]],
    "mixed": ["a", ["a", "b"], "b"],
    "three": [["a", "b", "c"], "c"],
}
PROPS = {
    "unordered": {"a": U | HM, "b": U | HM, "c": U | HM},
    "plain": {"a": U, "b": O, "c": C},
    "continuous": {"a": C | HM, "b": O | HM, "c": C | MNL},
    "linear": {"a": flags.IS_LINEAR | HM, "b": C | HM, "c": O | HM},
}
WEIGHTS = {"none": None, "uneven": [1.0, 2.0, 0.5, 1.0, 3.0, 1.0], "zero": [1.0, 0.0, 1.0, 2.0, 0.0, 1.0]}


def target(kind, how="mixed"):
    if kind in ("classifier", "gclf"):
        return np.array([1.0, 0.0, 1.0, 0.0, 0.0, 1.0] if how == "mixed" else [1.0] * 6)
    if kind in ("location", "gbs", "aquant", "agen"):
        return np.array([-2.0, 0.5, 3.0, 1.0, 1.0, -0.5] if how == "mixed" else [2.0] * 6)
    return np.array([2.0, 0.0, 5.0, 1.0, 1.0, 3.0] if how == "mixed" else [2.0] * 6)


def table(case):
    d = {k: np.array(v, dtype=float) for k, v in TABLES[case["table"]].items()}
    if case["kind"] == "expo":
        d["price"] = np.array([0.6, 1.0, 0.8, 0.9, 1.0, 0.7])
    if case["kind"] == "nbinomc":
        d["mu"] = np.array([2.0, 3.0, 1.0, 2.5, 1.0, 2.0])
    if WEIGHTS[case["weights"]] is not None:
        d["w"] = np.array(WEIGHTS[case["weights"]])
    return pd.DataFrame(d)


def frozen(observer):
    """Everything an observer has recorded."""
    out = {"loss": list(observer.loss), "change": list(observer.factor_change), "bins": dict(observer.n_feature_bins)}
    means, centres, errors, counts = observer.histograms
    out["histogram"] = [np.array(means), np.array(centres), None if errors is None else [np.array(e) for e in errors], np.array(counts)]
    for i, f in enumerate(observer.features):
        for k, v in vars(f).items():
            if isinstance(v, (np.ndarray, int, float, str, tuple, list, type(None))):
                out["%d.%s" % (i, k)] = v
    return {k: snapshot(v) for k, v in out.items()}


class Pages:
    """Records what is drawn on every page that is written."""

    def __enter__(self):
        self.pages = []
        self.real = matplotlib.figure.Figure.savefig
        real, pages = self.real, self.pages

        def savefig(fig, *args, **kw):
            pages.append(content(fig))
            return real(fig, *args, **kw)

        matplotlib.figure.Figure.savefig = savefig
        return self

    def __exit__(self, *exc):
        matplotlib.figure.Figure.savefig = self.real


def inside(values, limits):
    """The finite values lie within the limits of the axis."""
    low, high = min(limits), max(limits)
    slack = 1e-6 * max(abs(low), abs(high), high - low)
    v = values[np.isfinite(values)]
    return bool(np.all((v >= low - slack) & (v <= high + slack)))


def content(fig):
    lines, images = [], []
    for ax in fig.axes:
        for line in ax.get_lines():
            x, y = np.array(line.get_xdata(), dtype=float), np.array(line.get_ydata(), dtype=float)
            lines.append((x, y, inside(x, ax.get_xlim()) and inside(y, ax.get_ylim())))
        for img in ax.get_images():
            images.append(np.ma.filled(np.ma.asarray(img.get_array(), dtype=float), np.nan))
    return {"lines": lines, "images": images, "axes": len(fig.axes)}


def has_line(page, y, x=None, visible=False):
    y = np.asarray(y, dtype=float)
    for xs, ys, inside_axes in page["lines"]:
        if visible and not inside_axes:
            continue
        if len(ys) == len(y) and is_close(ys, y, 1e-9, 1e-9) and (x is None or is_close(xs, np.asarray(x, dtype=float), 1e-9, 1e-9)):
            return True
    return False


def has_image(page, a):
    for img in page["images"]:
        if img.shape == a.shape and is_close(img.ravel(), a.ravel(), 1e-9, 1e-9):
            return True
    return False


def response(kind, effects):
    if kind in ADD:
        return effects
    if kind in LOGIT:
        return 1.0 / (1.0 + np.exp(-effects))
    return np.exp(effects)


def has_flag(f):
    return "MISSING" in flags._convert_flags_to_string(f.feature_property[0])


def judge_feature(tag, kind, page, f, n_bins):
    name = "%s: page of group %s" % (tag, list(f.feature_group))
    effects = np.asarray(f.factors_link)
    if len(f.feature_group) == 1 and len(effects) <= 400:
        shown = response(kind, effects)
        ok = has_line(page, shown, visible=True) or (len(shown) > 1 and has_line(page, shown[:-1], visible=True))
        ensure(ok, lambda: "%s does not show the effects %s" % (name, shown))
        ensure(has_line(page, np.bincount(f.lex_binned_data)), lambda: "%s does not show the number of rows per bin" % name)
        if has_flag(f) and len(shown) > 1:
            ensure(has_line(page, shown[-1:], visible=True), lambda: "%s does not show the effect of missing values" % name)
    elif len(f.feature_group) == 2:
        grid = np.reshape(effects[:-1], n_bins)
        if grid.size:
            ensure(has_image(page, grid.T), lambda: "%s does not show the effects %s" % (name, grid))
    else:
        ensure(page["axes"] >= 2, lambda: "%s is empty" % name)


def case_tag(case):
    return ", ".join("%s=%s" % kv for kv in sorted(case.items()))


def fit(case, observers, X, y):
    kind = case["kind"]
    kw = {"maximal_iterations": case.get("cycles", 3), "observers": observers}
    if "w" in getattr(X, "columns", ()):
        kw["weight_column"] = "w"
    groups, props = case["groups"], case["props"]
    if kind == "expo":
        kw["external"] = [groups[0]]
    m = est.make(kind, groups, props, **kw)
    logging.disable(logging.CRITICAL)
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        return m.fit(X, y)


def draw(observer, target, **kw):
    plt.close("all")
    with warnings.catch_warnings(), np.errstate(all="ignore"), Pages() as p:
        warnings.simplefilter("ignore")
        plots.plot_analysis(observer, target, **kw)
    plt.close("all")
    return p.pages


def n_pages(data):
    return len(re.findall(rb"/Type /Page\b", data))


def judge_report(tag, kind, pages, observer, data):
    want = len(list(observer.features)) + (1 if kind == "nbinomc" else 2)
    ensure(len(pages) == want, lambda: "%s: the report has %d pages, expected %d" % (tag, len(pages), want))
    if data is not None:
        ensure(data.startswith(b"%PDF") and n_pages(data) == want, lambda: "%s: the file has %d pages, expected %d" % (tag, n_pages(data), want))
    first = 0
    if kind != "nbinomc":
        means, centres, _, _ = observer.histograms
        ensure(has_line(pages[0], np.asarray(means), np.asarray(centres), visible=True), lambda: "%s: the diagonal page does not show the recorded means" % tag)
        first = 1
    for page, f in zip(pages[first:], observer.features):
        judge_feature(tag, kind, page, f, observer.n_feature_bins[f.feature_group])
    ensure(has_line(pages[-1], observer.loss), lambda: "%s: the last page does not show the loss %s" % (tag, observer.loss))


def check_report(case, rec):
    kind = case["kind"]
    X, y = table(case), target(kind, case["target"])
    full = dict(case, groups=STRUCTS[case["struct"]], props=PROPS[case["props"]])
    observers = [PlottingObserver(1), PlottingObserver(-1)]
    tag = case_tag(case)
    try:
        m = fit(full, observers, X, y)
    except (ConvergenceError, ValueError, ZeroDivisionError) as e:
        rec.op()
        rec.trace()
        rec.outcome("no model (%s)" % type(e).__name__)
        return
    rec.op()
    before = est.raw_predict(kind, m, X)
    style = dict(matplotlib.rcParams)
    for n, ob in zip((1, -1), observers):
        if n == 1 and not case.get("first"):
            continue
        try:
            ob.check_fitted()
        except ValueError:
            ensure(m.iteration_ <= 1 and n == 1, lambda: tag + ": the observer is not filled")
            continue
        held = frozen(ob)
        out = io.BytesIO()
        pages = draw(ob, out, use_tightlayout=case["tight"], plot_yp=case["yp"])
        rec.op()
        judge_report("%s, observer %d" % (tag, n), kind, pages, ob, out.getvalue())
        rec.trace()
        now = frozen(ob)
        for k, v in held.items():
            ensure(now.get(k) == v, lambda: "%s: drawing changed the recorded %s" % (tag, k))
    after = est.raw_predict(kind, m, X)
    ensure(np.array_equal(before, after, equal_nan=True), lambda: "%s: predictions %s before, %s after drawing" % (tag, before, after))
    changed = [k for k, v in style.items() if repr(matplotlib.rcParams[k]) != repr(v)]
    ensure(not changed, lambda: "%s: drawing changed the plot settings %s" % (tag, changed))
    rec.state(case)
    rec.outcome("drawn")


def report_cases(tier):
    out = []

    def add(kind, struct, tab, props, weights="none", tgt="mixed", yp=True, tight=False, first=False):
        c = {"kind": kind, "struct": struct, "table": tab, "props": props, "weights": weights, "target": tgt, "yp": yp, "tight": tight, "first": first}
        if c not in out:
            out.append(c)

    kinds = est.ALL
    structs = list(STRUCTS)
    for i, (kind, struct, tab) in enumerate(itertools.product(kinds, structs, TABLES)):
        slow = kind in GENERIC
        if tab == "constant" and struct == "three":
            continue
        add(kind, struct, tab, list(PROPS)[i % 4], yp=True, first=i % 3 == 0)
        if tier != "quick":
            for j, props in enumerate(PROPS):
                add(kind, struct, tab, props, ("none", "uneven", "zero")[(i + j) % 3], yp=(i + j) % 2 == 0, tight=j == 0, first=True)
    for i, kind in enumerate(kinds):
        if kind not in ("gbs", "nbinomc"):
            for w in ("uneven", "zero"):
                add(kind, "mixed", "full" if w == "zero" else "missing", list(PROPS)[i % 4], w, yp=i % 2 == 0)
        add(kind, "mixed", "missing", "continuous", tgt="constant")
        add(kind, "mixed", "gap", "unordered", yp=False, tight=True)
        add(kind, "one", "missing", "plain", yp=False)
    return out


# --- axis labels, files, arrays, many bins -------------------------------


def other_cases(tier):
    out = []
    for kind in ("poisson", "location", "classifier"):
        for groups in (["a"], ["a", "b"], ["a", ["a", "b"]]):
            for prop in ("unordered", "continuous"):
                out.append({"what": "binners", "kind": kind, "groups": groups, "props": prop})
        out.append({"what": "many", "kind": kind})
        for groups in ([0], [0, [0, 1]], [[0, 1, 2]]):
            out.append({"what": "array", "kind": kind, "groups": groups})
    for name in ("report", "report.pdf", "dir.x/report"):
        out.append({"what": "file", "kind": "poisson", "name": name})
    for chosen in ([], ["a"], ["b"], [["a", "b"]], ["b", "a"], [["a", "b"], "a"], ["a", "b", ["a", "b"]]):
        for per_row in (1, 2, 3):
            if chosen or per_row < 3:
                out.append({"what": "factors", "kind": "poisson", "chosen": chosen, "per_row": per_row})
    for kind in ("poisson", "nbinomc", "mquant", "expo"):
        out.append({"what": "single", "kind": kind})
    out.append({"what": "unfilled", "kind": "poisson"})
    return out


def check_other(case, rec):
    kind, what = case["kind"], case["what"]
    tag = case_tag(case)
    ob = PlottingObserver()
    X, y = table({"kind": kind, "table": "missing", "weights": "none"}), target(kind)
    full = {"kind": kind, "groups": case.get("groups", STRUCTS["mixed"]), "props": PROPS["continuous"]}
    binners = None
    if what == "binners":
        raw = X.copy()
        raw["a"], raw["b"] = raw["a"] * 10.0 + 0.5, raw["b"] * 3.0
        full["props"] = {k: PROPS[case["props"]][k] for k in ("a", "b")}
        b = BinNumberTransformer(n_bins=5, feature_properties=full["props"])
        X = b.fit_transform(raw[["a", "b"]])
        binners = [b]
    elif what == "many":
        X = pd.DataFrame({"a": np.arange(450.0), "b": np.arange(450.0) % 2})
        y = np.tile(target(kind), 75)
        full["groups"], full["props"] = ["a", "b"], {"a": U, "b": U}
    elif what == "array":
        X = X[["a", "b", "c"]].to_numpy()
        full["props"] = {0: C | HM, 1: O | HM, 2: U | HM}
    if what == "unfilled":
        out = io.BytesIO()
        try:
            draw(ob, out)
        except ValueError:
            rec.op()
            rec.trace()
            rec.state(case)
            rec.outcome("rejected")
            plt.close("all")
            return
        fail("%s: an observer that saw no training is drawn" % tag)
    m = fit(full, [ob], X, y)
    rec.op()
    held = frozen(ob)
    before = est.raw_predict(kind, m, X)
    plt.close("all")
    if what == "file":
        scratch = tempfile.mkdtemp(prefix="mc35-")
        try:
            os.makedirs(os.path.join(scratch, "dir.x"))
            path = os.path.join(scratch, case["name"])
            pages = draw(ob, path)
            want = path if path.endswith(".pdf") else path + ".pdf"
            found = sorted(os.path.relpath(os.path.join(d, f), scratch) for d, _, fs in os.walk(scratch) for f in fs)
            ensure(found == [os.path.relpath(want, scratch)], lambda: "%s: files %s were written" % (tag, found))
            with open(want, "rb") as f:
                judge_report(tag, kind, pages, ob, f.read())
        finally:
            shutil.rmtree(scratch)
    elif what == "factors":
        chosen = case["chosen"]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            fig = plt.figure()
            names = [tuple(c) if isinstance(c, list) else c for c in chosen]
            plots.plot_factors(ob, feature_groups_or_ids=names or None, features_per_row=case["per_row"], use_tightlayout=False)
            page = content(fig)
            fig.canvas.draw()
        for f in ob.features:
            wanted = not chosen or [list(f.feature_group)] == [[c] if isinstance(c, str) else c for c in chosen if ([c] if isinstance(c, str) else c) == list(f.feature_group)]
            if wanted:
                judge_feature(tag, kind, page, f, ob.n_feature_bins[f.feature_group])
        groups = [list(f.feature_group) for f in ob.features] if not chosen else [[c] if isinstance(c, str) else c for c in chosen]
        if not any(len(g) == 2 for g in groups):
            ensure(not page["images"], lambda: "%s: a group that was not asked for is drawn" % tag)
            ensure(page["axes"] == 2 * len(groups), lambda: "%s: %d panels" % (tag, page["axes"]))
    elif what == "single":
        for fn in (plots.plot_loss, plots.plot_factor_change, plots.plot_iteration_info, plots.plot_in_sample_diagonal_plot):
            fig = plt.figure()
            fn(ob)
            page = content(fig)
            if fn in (plots.plot_loss, plots.plot_iteration_info):
                ensure(has_line(page, ob.loss, np.arange(len(ob.loss))), lambda: "%s: the loss is not shown" % tag)
            if fn in (plots.plot_factor_change, plots.plot_iteration_info):
                ensure(has_line(page, ob.factor_change, np.arange(1, len(ob.factor_change) + 1)), lambda: "%s: the changes are not shown" % tag)
            rec.op()
            plt.close("all")
    else:
        out = io.BytesIO()
        pages = draw(ob, out, binners=binners, use_tightlayout=False)
        judge_report(tag, kind, pages, ob, out.getvalue())
    rec.op()
    plt.close("all")
    now = frozen(ob)
    for k, v in held.items():
        ensure(now.get(k) == v, lambda: "%s: drawing changed the recorded %s" % (tag, k))
    ensure(np.array_equal(before, est.raw_predict(kind, m, X), equal_nan=True), lambda: tag + ": drawing changed the predictions")
    rec.trace()
    rec.state(case)
    rec.outcome(what)


def spaces(tier):
    return [
        Space("reports", lambda: report_cases(tier), check_report, "all estimators x 4 group structures x 5 missing-value patterns (flags, weights, observers alternating)", warm=warm_basic, chunk=1),
        Space("other", lambda: other_cases(tier), check_other, "axis labels from binners, arrays, 450 bins, file names, every selection of groups, single plots", warm=warm_basic, chunk=1),
    ]
