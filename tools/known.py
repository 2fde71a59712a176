"""Write known_findings.json (run by hand)."""
import json, os
F = [
 ("C05", "c26d584", "diff=True kept a view of the caller's row: reusing the buffer corrupted the differences"),
 ("C05", "c246d7f", "location_ returned the estimator's own running mean: writing to it changed the estimator"),
 ("C06", "6c19e20", "correlation_ of small-scale data lost its unit diagonal (variance floored at 1e-12); a variable without variance divided by zero"),
 ("C01", "385947e", "ShrunkCovariance (constant correlation) with a zero-variance variable was not finite"),
 ("C18", "b6cf3d6", "Diagonal, PartialMoments, DCC and Factor counted the first observation as a deviation from zero, so the estimate depended on the origin"),
 ("C01", "612db43", "TylerCovariance became NaN after an observation equal to its location (constant or repeated rows, first row)"),
 ("C01", "b410f36", "precision_ overflowed to inf/nan for a covariance with subnormal entries"),
 ("C03", "5cb0e64", "get_state/set_state dropped the previous row of a diff=True estimator: one difference was lost on resume"),
 ("C08", "0464300", "an observation of the wrong length was accepted or broadcast, or corrupted the state before failing"),
 ("C21", "cd6aaf1", "an observation with no names created an empty universe (raised with BlockCovariance, occupied a slot)"),
 ("C01", "GEO", "geodesic update between widely different matrices was indefinite through rounding"),
 ("C01", "BLK", "BlockCovariance.precision_ raised LinAlgError for a numerically singular block"),
 ("C33", "db10018", "an exported recommender had all-zero leaf weights (recent scikit-learn stores fractions) and could not be imported (np.str_ class names)"),
 ("C29", "a696bc1", "seeded out-of-sample and bake-off runs were not reproducible with randomcov installed (its matrices came from global randomness)"),
 ("C28", "CAN", "canonical_corr2 took the eigenvalues of the symmetric part of the whitened product, not the canonical correlations"),
 ("C28", "DEL", "snr_delta's variance counted the off-diagonal entries of the gradient twice"),
 ("C01", "NPD", "nearest_pos_def did not terminate for matrices whose Frobenius norm underflows"),
]
import subprocess
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout
def find(t): return next(l.split()[0] for l in log.splitlines() if t in l)
m = {"GEO": find("geodesic_step floors"), "BLK": find("numerically singular block"), "NPD": find("nearest_pos_def terminates"),
     "CAN": find("canonical corr"), "DEL": find("delta-method variance")}
out = []
for prop, c, what in F:
    c = m.get(c, c)
    out.append({"property": prop, "status": "fixed", "id": f"{prop}-{c}", "commit": c,
                "what": f"fixed: property={prop} {c} {what}"})
out.append({"property": "C33", "status": "open", "id": "C33-shipped-leaves",
            "match": {"leaves": "7419aeddd1840537"},
            "what": "the shipped frozen tree (precise/_recommender_model.py) has weight 0 in 23 of its 24 "
                    "leaves (exported before db10018), so it decides nothing there and suggest falls back to "
                    "the heuristics; repairing it means retraining, which changes recommendations"})
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
json.dump({"findings": out}, open(os.path.join(root, "known_findings.json"), "w"), indent=1)
