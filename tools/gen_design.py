"""Writes section 2 of DESIGN.md (between its markers) from the checks, the texts below and measured counts."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

# property: (what is specified and monitored, oracle, why this reaches what tests cannot)
TEXT = {
    "C01": ("Fits both binners on every small training column and looks up training values, values between, at and beyond them and every missing code.", "Naive reference of equal-frequency and of category bins; every bin number, boundary and the inverse direction are compared.", "Ties, dtype limits (255/256, 65535/65536 categories), extreme and infinite values and mixed containers occur only in a few rows of real data."),
    "C02": ("Fits equal-frequency bins on every multiplicity vector.", "A quota model: how many bins may be opened, which values they hold, tolerance for under-full bins, weights as multiplicities.", "Needs specific tie patterns around the quota."),
    "C03": ("Numbers cells of every grid shape and trains models on interaction groups.", "Row-major arithmetic on Python integers; a model on a group must equal a model on one precomputed column.", "Collisions appear only for certain shapes, missing members and out-of-range members."),
    "C04": ("Asks the fitted model for prediction, contributions, factor tables and the base value.", "Prediction = inverse link of base plus looked-up effects, recomputed row by row from the tables the model reports.", "All routes must agree on every row type at once, including missing and unseen."),
    "C05": ("Compares the in-sample prediction of training with a later predict on the training rows.", "Equality after every route: normal stops, divergences that are repeated, hierarchical groups.", "The two are computed by different code; they only drift apart on rare paths (divergence, clipping)."),
    "C06": ("Predicts every ordered batch of rows and containers that mean the same.", "Each row alone, same row anywhere, same result; call sequences leave nothing behind.", "Tests predict one batch once."),
    "C07": ("Codes the same training and query data with every representation of missing and unknown.", "Equivalence of codes; missing behaves like a bin of its own or is neutral, depending on the flag; unknown bins are neutral.", "Each combination of flag, code, dimension and estimator is a separate path."),
    "C08": ("Trains on degenerate tables: one row, constant targets, outliers, zero and huge weights, priors at the ends of the link.", "Finite results inside the range of the estimator, no crash.", "Degenerate data is not in the test data."),
    "C09": ("Calls every entry point with every kind of invalid input.", "The documented exception and an unchanged object.", "Tests cover single examples."),
    "C10": ("Trains on every row permutation and on re-represented tables.", "Same predictions and effects for the matching rows.", "Order dependence shows only for certain ties and containers."),
    "C11": ("Trains with weights against repeated and dropped rows.", "Metamorphic: integer weights = repetition, zero weight = absence, also where a bin or cell has no weight at all.", "Tests use random weights on one data set and compare numbers recorded once."),
    "C12": ("Runs all operation sequences on an object before a final fit, and on objects sharing parameters.", "The result of a fresh object trained in a process of its own.", "State leaks need a specific history; the space holds all of them up to the depth."),
    "C13": ("Copies (clone, copy, pickle, get/set of parameters) at every point of a history and continues on both sides.", "Copy and original answer like separately built objects.", "Aliasing shows only after a later operation on the other side."),
    "C14": ("Explicit state machine of the training loop (cycle, diverged, repeated, stopped) explored over all loss histories; every trace is replayed on the implementation through observers.", "Machine and implementation agree on every visited state, iteration count and outcome.", "Stop rules interact with divergence and hierarchical phases only on specific loss sequences."),
    "C15": ("Watches every cycle of trainings with extreme targets and learning rates.", "Per-cycle and total limits of effects, centring of additive models.", "Limits are never reached by the test data."),
    "C16": ("Attaches every set of observers and records all calls.", "Tape of the reference training; the model must equal one trained without observers.", "Needs comparing two trainings cell by cell for each estimator."),
    "C17": ("Trains models with reordered, neutral and repeated groups.", "Importances recomputed from the tables: non-negative, sum to one, zero for groups without effect, attached to the right name.", "A permutation of names is invisible to a test on one number."),
    "C18": ("Trains on all small tables and reads prediction, loss and effects after every cycle.", "Textbook implementation of the estimates (plain loops, `mc/reference.py`), smoothing off and default.", "The estimates of empty, zero-weight, missing and clipped bins in each cycle are not observable in end-to-end numbers."),
    "C19": ("Evaluates every learning-rate schedule for all limits and watches its use in training.", "Closed formulas, monotone, ends at one; effects scale with the rate.", "Off-by-one errors at the first or last cycle need all limits."),
    "C20": ("Runs one cycle of quantile and custom-loss models on tables with every occupancy pattern.", "Loss in every bin against exact candidate minima and against an independent minimiser.", "Mixing up bins needs particular sets of empty cells."),
    "C21": ("Runs the dispersion model on small count tables.", "Exhaustive likelihood over the candidate grid in plain Python, per bin and cycle.", "One number per data set cannot show which bin received which estimate."),
    "C22": ("Trains the price model on tables of ratios and demands and queries all ratios.", "Functional form, sign, neutrality at ratio one, reference estimate per step.", "Ratios that are missing or exactly one and prior signs are separate paths."),
    "C23": ("Fits each one-dimensional smoother on all small tables.", "Independent references and contracts (null space, bounds, monotone, periodic, extrapolation).", "Tests fit each smoother on one or two tables."),
    "C24": ("Fits each multi-dimensional smoother on all small grids with empty cells.", "Naive dictionaries by coordinates; group-wise against one by one.", "Confusing coordinates shows only on non-square grids with gaps."),
    "C25": ("Wraps smoothers and queries every cell.", "Wrapped result plus the normalisation and the trust rule recomputed.", "Weights straddling the threshold and empty borders are needed."),
    "C26": ("Goes through all flag combinations.", "Documented precedence and text written down independently.", "8192 combinations."),
    "C27": ("Builds every quantile-parameterised distribution.", "Quantile and distribution function are inverse, monotone, hit the given quantiles, respect bounds; vectors equal single ones.", "Symmetric, near-symmetric and array inputs take different branches."),
    "C28": ("Fits distributions to quantiles over parameter grids and runs chains on stub order-statistic models.", "Known parameters are recovered; chains equal a direct computation.", "Start values and bounds matter only for certain ranges."),
    "C29": ("Builds and selects interaction terms on small tables.", "Reference of binning, statistic and ranking.", "The order of ties and groups with missing members needs enumeration."),
    "C30": ("Builds every pipeline with single, paired and tripled settings.", "The estimator and binner put together by hand.", "A dropped or misrouted setting is invisible unless that setting is changed."),
    "C31": ("Deterministic scheduler (`mc/sched.py`) that runs two callers line by line; every preemption point, two preemptions around writing lines.", "Results of the callers alone.", "Races need a switch between two particular lines."),
    "C32": ("Passes every container to every entry point and overwrites results and training data afterwards.", "Byte-level snapshots; later predictions unchanged.", "Tests never look at their inputs again."),
    "C33": ("Trains with all prior columns.", "Base value per row from the definition; scaling and constant priors.", "No test trains with a prior column."),
    "C34": ("Evaluates every helper on all small tables and the statistics observers receive after all small trainings.", "Textbook formulas in plain Python.", "Ties, equal and zero weights select different code."),
    "C35": ("Draws the report for every estimator and structure and reads back the drawn lines and images.", "Recorded effects, means and losses; snapshots of observer, model and settings.", "Plots are drawn for two models in tests and never looked at."),
    "C36": ("Evaluates the loss on all small vectors of predictions, targets and weights and recomputes the recorded loss of every cycle of enumerated trainings.", "The documented loss summed row by row in plain Python.", "A wrong loss changes no single update, only when training stops or is called diverging."),
}


def main():
    out = []
    for line in open(os.path.join(HERE, "properties.jsonl")):
        p = json.loads(line)
        pid = p["id"]
        what, oracle, why = TEXT[pid]
        mod = importlib.import_module("mc.props." + pid.lower())
        out.append("### %s %s\n" % (pid, p["title"]))
        out.append("* Monitored: %s" % what)
        out.append("* Oracle: %s" % oracle)
        for s in mod.spaces("quick"):
            out.append("* Space `%s`: %s." % (s.name, s.bound.rstrip(".")))
        for a in getattr(mod, "ASSUMPTIONS", []):
            out.append("* Assumed: %s" % a)
        try:
            ev = json.load(open(os.path.join(HERE, "evidence", pid + ".json")))
            c = ev["coverage"]
            out.append("* Cost (%s tier, 8 cores): %d states, %d transitions, %d traces in %d s." % (ev["tier"], c["states"], c["transitions"], c["traces_validated_against_impl"], round(ev["wall_s"])))
        except FileNotFoundError:
            pass
        out.append("* Beyond tests: %s\n" % why)
    path = os.path.join(HERE, "DESIGN.md")
    text = open(path).read()
    a, b = "<!-- checks -->\n", "<!-- end of checks -->"
    i, j = text.index(a) + len(a), text.index(b)
    with open(path, "w") as f:
        f.write(text[:i] + "\n" + "\n".join(out) + "\n" + text[j:])


main()
