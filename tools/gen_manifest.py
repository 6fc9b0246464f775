"""Write MANIFEST.json from the checks that exist. Run with `python3-vt`."""

import json
import os

ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")

TECH = (
    "symbolic execution of the real stheno code (exact rational arithmetic over uninterpreted "
    "means and kernels), assertions discharged by z3; counterexamples replayed on floats"
)
COMMON = (
    "Decided for all values of inputs, observations, noises, means, kernels and cross-covariances "
    "at the stated numbers of points and steps, on every path through the code. Reals stand in for "
    "floats, the jitter is zero, Cholesky pivots are positive, and LAPACK, automatic "
    "differentiation and random draws are replaced by exact symbolic versions; every explored path "
    "is also run unpatched on floats. "
)
NOTE = {
    "C01": "Two- and three-step programs of all linear operations over correlated bases.",
    "C02": "All pairs of two-step programs, and all single early queries in a five-process history.",
    "C03": "Moments of products of jointly Gaussian processes, incl. nested products, and products made under posteriors.",
    "C04": "Products of two to four outputs, nested up to three levels, before and after conditioning.",
    "C05": "Every pair of views asked for first, then all, for 14 kinds of distributions and 10 forms of noise.",
    "C06": "Up to three observations; every way to state the data; processes made before and after conditioning.",
    "C07": "Up to three steps of conditioning, in every order.",
    "C08": "Every pattern of missing values of up to four observations.",
    "C09": "Dimensions up to three; every form in which observations are given.",
    "C10": "Up to two inducing points and two observations on any processes.",
    "C11": "Derivatives of uninterpreted functions are uninterpreted functions; finite differences have their exact coefficients up to order 6.",
    "C12": "Histories of conditioning, building and evaluating of up to three steps.",
    "C13": "Programs of entering, leaving, raising and constructing of up to five steps.",
    "C14": "Programs of naming, renaming, constructing and conditioning of up to four steps.",
    "C15": "Every form of mean and variance, dimensions one and two, pairs of operations.",
    "C16": "Dense normals up to dimension two, structured ones up to three; Wasserstein distances where the root is rational or of dimension one or two.",
    "C17": "Samples are affine in the draws with the stated factor; every forms of arguments.",
    "C18": "Tables of up to three keys with up to four rules, and histories of lookups.",
    "C19": "Products nested up to three levels, tuples of inputs and distributions.",
    "C20": "Up to three operands in every position.",
    "C21": "Variances of any sign, also zero; 18 forms of normals and 15 kinds of processes.",
    "C22": "Batches of two sets of one or two inputs.",
    "C23": "Every mask of up to three rows.",
    "C24": "One and two operations before and after conditioning.",
    "C27": "Every form of mean and kernel, and every way to attach a process.",
    "C28": "Two operations on stationary and other processes; posteriors and Cartesian products.",
    "C29": "At most three elements; the structures and kernels listed in symgp/checks/c29.py; low-rank variances that are singular to within 1e-9 are out of scope.",
    "C30": "Up to three points and columns; a noise or a vector of values of length one broadcasts, which is not covered.",
    "C31": "Up to three points, derived processes of one or two operations, approximations with one inducing point.",
}
NA = {
    "C25": (
        "TensorFlow, PyTorch and JAX execute compiled kernels that cannot be run on symbolic values, "
        "so there is no real code to encode on those backends; running them on concrete numbers would "
        "be sampling, not this technique."
    ),
    "C26": (
        "Rounding errors of compiled LAPACK/BLAS routines and running times are outside the exact real "
        "arithmetic in which the code is executed symbolically; encoding IEEE semantics of matrix "
        "factorisations is out of reach of the solvers at any useful size."
    ),
}

props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, missing = [], []
for p in props:
    if os.path.exists(os.path.join(ROOT, "symgp", "checks", p.lower() + ".py")):
        checks.append(
            {
                "property": p,
                "quick_cmd": f"./check.sh {p}",
                "thorough_cmd": f"./check.sh {p} --tier thorough",
                "evidence_file": f"evidence/{p}.json",
                "technique": TECH,
                "level": "model_checking",
                "level_note": COMMON + NOTE.get(p, ""),
            }
        )
    elif p not in NA:
        missing.append({"property": p, "reason": "The check is not built yet."})
m = {
    "version": 1,
    "setup_cmd": "true",
    "checks": checks,
    "not_applicable": [{"property": p, "reason": r} for p, r in NA.items()] + missing,
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
