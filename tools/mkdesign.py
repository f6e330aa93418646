"""DESIGN.md from tools/design_head.md, the property texts, the oracles below, the obligations of the last quick run, the seeds and the findings"""
import json, os, re, collections
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
O = {
"A01": "Oracle: the *same* obligation evaluated with parallel=False (or without threads). The interpreter runs the code's own splitting with `POOL` of t threads (2, 3, 8; thorough 1..8); column lengths sit around multiples of t, the symbolic string / coordinate sits at the first and last row and at either side of the first and last split boundary, columns have one or two chunks; also with a literal second argument. Reaches what tests cannot: the test host has one thread count.",
"B01": "Oracle: the recursive definition of each distance (Levenshtein, OSA, Damerau-Levenshtein, LCS, Hamming incl. padding) over code-point terms, each comparison of two characters a solver query. Characters range over all of Unicode (non-ASCII included, which is where byte/char mix-ups live).",
"B02": "Oracle: 1 - d/max(len) etc. on the distance oracle of B01; Jaro and Jaro-Winkler from their definition (matches in the window, transpositions, prefix weight up to 4 letters above the threshold); two empty strings are equal.",
"B03": "Oracle: distance <= bound with the B01 distance, bound chosen at 0..max and beyond, column and literal second argument, null rows.",
"B04": "Oracle: sets of n-grams built from the definition (code-point windows), coefficient by its formula; n-gram sizes 1..3, sets compared by solver equality of characters.",
"B05": "Oracle: the answer is a member of the vocabulary whose distance is minimal over the (non-null) vocabulary and within the threshold, null when there is none; similar_to_vocab by the stated strategy over the B02 similarities.",
"B06": "Oracle: direct definitions over code points (split at white space, membership in lists, ASCII range), fixed sample texts for the normal forms (their tables are a library's).",
"B07": "Oracle: an independent implementation of the published Porter2 algorithm (`checks/b07.py: stem`) on words whose free letters are symbolic; the code's generated Snowball automaton (its tables, cursor arithmetic and among-lists) is interpreted from MIR. One obligation per suffix, per step-2/3/4 ending, per exceptional word with a free letter, so that every rule of the automaton is entered from both sides.",
"C01": "Oracle: brute-force distances; the k smallest, compared by their distance terms (ties may be taken in either order). The kd-tree build (median splits, sphere/box bounds) and search are interpreted; `query_*` with leaf size as in the code, `KDTree` with small leaves so that a few points split; one symbolic coordinate among fixed points for deeper trees (obligations `split tree`, `line`), all coordinates symbolic for small sets.",
"C02": "Oracle: brute-force distance <= radius, radius symbolic or a column; points exactly on the sphere are solver cases by construction (the branch d = r is one of the paths).",
"C03": "Oracle: brute-force k nearest within [min_bound, max_bound], mean / inverse-distance weighted mean of the targets.",
"D01": "Oracle: the normal equations X'W(y - Xb) = lam*b (intercept unpenalised) as polynomial identities in the data, and pred = Xb, resid = y - pred. The solver/normal form shows them identically zero under det != 0.",
"D02": "Oracle: cyclic coordinate descent by exact coordinate minimisation (soft threshold) step by step, and the KKT conditions at the point the code stops at; symbolic targets and penalties on fixed designs, or all data with one sweep.",
"D03": "Oracle: refitting from scratch on rows 0..i (recursive), the last `window` rows (rolling) or all rows given so far (online), by the closed form; prefix nulls and the documented minimum sizes included. Sherman-Morrison updates are expanded to rational functions and shown equal.",
"D04": "Oracle: the policy (skip, raise, fill with a number, ignore) applied to the rows by hand, then D01's closed form; every null pattern of the rows is enumerated by the path search.",
"D05": "Oracle: as D01/D04 for the python classes; coefficients/bias setters and getters, predict = Xb + bias, fit_df/predict_df, OnlineLR updates, errors for unfitted / mismatched input. The Rust side of the classes (`_polars_ds.PyLR` ...) is interpreted from MIR through stand-in arrays.",
"D06": "Oracle: coefficients by D01, sigma^2 (X'X)^-1 for `se`, HC0-HC3 sandwich, t, p as the (uninterpreted) survival function at the right statistic and degrees of freedom, confidence limits at the right quantile, R^2 and adjusted R^2.",
"E01": "Oracle: the textbook sum for each metric, over all rows; mad/medians through sorted order (sorting networks on terms, ties are paths).",
"E02": "Oracle: ROC AUC and average precision from pair counts / thresholds (ties get half), confusion matrix cells by counting, MCC, log losses, fairness gap, NDCG from the sorted relevances and averaged discounts; labels and scores symbolic.",
"F01": "Oracle: the statistic by definition (rank statistics by pair counting), and p = tail(statistic, df) where the tail is an uninterpreted symbol that the replays evaluate with scipy.",
"F02": "Oracle: textbook formula of each statistic, weights positive and not normalised.",
"F03": "Oracle: support and dependence of each draw: every value the generator can return is a symbolic number of the generator's range; nulls kept; the column is independent of the input values except for nulls/length; parameters outside the domain are errors.",
"F04": "Oracle: exact rational/algebraic tail area by integrating the density in closed form for even degrees of freedom, compared with the code's incomplete-beta continued fraction, which terminates exactly there (`ln_gamma` pinned to its exact value, exp/ln combined exactly). Odd degrees of freedom, the chi-squared tail (incomplete gamma: series and continued fraction, `ln_gamma` executed) and the normal tail (every rational approximation of erfc, reached through the Mann-Whitney function with chosen inputs) become constant expressions per path: exact rational iteration, transcendental constants enclosed with a 1e-11 margin, compared with the reference tail within 1e-9. Symmetry of the normal tail for every deviate. digamma: recurrence, reflection, asymptotic polynomial, poles.",
"G01": "Oracle: the mathematical function with explicit NaN/inf/null cases; integers are 64-bit with wrap-around.",
"G02": "Oracle: U S V' = centred matrix properties: singular values squared are the eigenvalues of X'X (one symbolic column), components orthonormal eigenvectors in descending order, projections = X V; explained variance = s^2/(n-1).",
"G03": "Oracle: direct sums; FFT by the definition of the DFT at lengths whose roots of unity are algebraic of degree <= 2; both `fft` and `direct` methods against the same sum.",
"G04": "Oracle: max-min formula of isotonic regression and, separately, optimality (KKT) against an arbitrary monotone competitor.",
"G05": "Oracle: one entry per bin, each value in the bin whose half-open interval holds it, counts by comparison, smoothed log ratio (uninterpreted ln at the right argument), sum.",
"G06": "Oracle: the formula of the statement per category, categories symbolic (equal or not is decided by the solver), rows permuted.",
"G07": "Oracle: set intersection/union counts by pairwise equality; lists of pairs / subsets in the documented order.",
"H01": "Oracle: definition of each feature (window sums, longest runs, LZ phrase parsing, peak by comparison with neighbours).",
"H02": "Oracle: template counting by brute force over all pairs (approximate, sample), ordinal pattern counts (permutation), counts (entropy), nearest-neighbour distances for the k-NN entropies with uninterpreted ln/digamma at the right arguments.",
"I01": "Oracle: statistics of the fitted frame by definition, applied to another (symbolic) frame; unseen categories and nulls included.",
"I02": "Oracle: the documented meaning of each step applied by hand to (fit frame, new frame); pairs and triples of steps in sequence, pipelines after JSON round trip / pickling / append of another pipeline equal the original, input frames unchanged.",
"J01": "Oracle: sample sizes, disjointness, exhaustiveness and class counts of the pieces for *every* permutation the random generator could return (the permutation is symbolic); PartitionHelper by definition.",
"L01": "Oracle: counts, order statistics and correlations taken directly from the columns' cells (null = missing), rule by rule and pair by pair. The package's python runs on symbolic frames (eager and lazy); altair / graphviz / great_tables are stand-ins in the symbolic run only. Values with an ambiguous definition are left out: quartiles half way between two values, the histogram edges the code moves by 1e-5, thresholds hit exactly.",
"K01": "Oracle: the data type the plugin returns (from the interpreted Rust code and, in replays, the real build) equals the declared output field for each input dtype, and the declared name/length flags agree with the values.",
"K02": "Oracle: group_by().agg and over() equal calling the function on each group's rows by itself, with polars' semantics of the plugin flags (elementwise, returns_scalar, changes_length) modelled; a wrong flag changes the result.",
"K03": "The package's own argument checks are executed on symbolic numbers (every comparison branches, the solver decides which branches exist); oracle: a call is refused exactly outside the documented range, for every whole number or real in the stated interval; names and lengths are cases of a finite choice. Whether other arguments fail later, when the expression runs, is the business of the property of that function.",
"K04": "Relational: the compatibility call and the expression on a frame are executed symbolically on the same symbolic columns (the package's own _compat.py runs on stand-in series; literal series become columns of the expression evaluator) and the solver decides that every value is equal on every path. About 150 functions across metrics, statistics, time series, strings, neighbours, regression and transforms, given as Series, numpy arrays and __array__ objects; what the values must be is decided by the property of the function.",
}
LIM = open(os.path.join(R, "tools", "design_limits.md")).read()
out = [open(os.path.join(R, "tools", "design_head.md")).read().rstrip(), "", "## 2. The properties", ""]
for l in open(os.path.join(R, "properties.jsonl")):
    d = json.loads(l); i = d["id"]
    out += [f"### {i} {d['title']}", "", d["statement"], "", f"*Why tests cannot:* {d['why_tests_cant']}.", "", O[i], ""]
    try:
        e = json.load(open(os.path.join(R, "evidence", i + ".json")))
    except OSError:
        continue
    if e["tier"] != "quick":
        continue
    c = e["coverage"]
    fam = collections.OrderedDict()
    for n, b in c["obligation_bounds"].items():
        fam.setdefault(re.sub(r"[\[(/:].*", "", n).strip(), []).append(b)
    out.append(f"Quick: {c['obligations']} obligations, {c['assertions']} assertions, {c['queries']} queries, about {round(e['wall_s'] / 5 + 0.5) * 5} s on 8 cores.")
    by = collections.OrderedDict()
    for k, bs in fam.items():
        by.setdefault("; ".join(dict.fromkeys(bs[-2:])), []).append(k)
    rows = [f"{', '.join(ks)}: {b}" for b, ks in by.items()]
    out += ["Bounds (all in the evidence): " + "; ".join(rows[:12]) + (f"; {len(rows) - 12} more in the evidence." if len(rows) > 12 else "."), ""]
out += [LIM.rstrip(), "", "## 4. Planted bugs (`seeded/`)", "", "| id | property | needs | caught by |", "|---|---|---|---|"]
S = os.path.join(R, "seeded")
for n in sorted(os.listdir(S)):
    m = json.load(open(os.path.join(S, n, "meta.json")))
    out.append(f"| {n} | {m['property']} | {m['needs']} | {m.get('caught_by', m['property'] + ' quick')} |")
k = json.load(open(os.path.join(R, "known_findings.json")))
out += ["", "## 5. Defects found and repaired", "", f"Known findings that are not repaired: {len(k['findings'])}.",
        f"The checks found {len({x.split()[2] for x in k['fixed']})} defects on the original tree; each was reproduced on the real build, then repaired by one `fix:` commit (list with commits in `known_findings.json`):", ""]
seen = collections.OrderedDict()
for x in k["fixed"]:
    _, p, c, w = x.split(" ", 3)
    seen.setdefault((c, w), []).append(p.split("=")[1])
out += [f"* {', '.join(ps)} `{c}` {w}" for (c, w), ps in seen.items()]
open(os.path.join(R, "DESIGN.md"), "w").write("\n".join(out) + "\n")
