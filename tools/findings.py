#!/usr/bin/env python3
"""Regenerates the 'fixed' entries of known_findings.json from the fix: commits of /repo (run by hand, never by a check)."""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [("SVC and SVR outputs drew","C02"),("SV","C20"),("LogisticRegression","C19"),("gradients of the losses","C19"),("BayesianRidge","C18"),("ElasticNet","C18"),("SGDRegressor shared","C02"),("SGDRegressor","C18"),("linear models","C18"),
 ("MakeBlobs","C28"),("LoadOctaveBin","C28"),("Pipeline","C27"),("Interp1d","C25"),("GaussianNB","C26"),("confusion","C15"),("micro average","C16"),("MeanSquaredError","C17"),("GridSearchCV","C14"),("ParameterGrid","C13"),("CrossValidate","C14"),("LockedSource","C02"),("row slices","C29"),
 ("LabelEncoder","C11"),("LabelBinarizer negative","C11"),("KBins","C11"),("PCA","C12"),("PowerTransformer","C12"),("QuantileTransformer","C12"),("Normalizer","C10"),("MaxAbsScaler","C10"),("Binarizer of","C11"),("Shuffler","C12"),("OneHot","C11"),("RobustScaler","C10"),("MeanStdDev","C10"),("StandardScaler","C10"),("MinMaxScaler","C10"),
 ("Rectangle","C07"),("KMeans","C09"),("DBSCAN","C09"),("NearestCentroid","C08"),("KNeighborsClassifier","C08"),("KNeighborsGraph","C07"),("NearestNeighbors","C07"),("KDTree","C07"),("Minkowski","C07")]
EXTRA = os.path.join(ROOT, "tools", "fixmap.txt")
if os.path.exists(EXTRA):
    for l in open(EXTRA):
        l = l.rstrip("\n")
        if l:
            MAP.insert(0, tuple(l.split("\t"))[::-1])
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True)
path = os.path.join(ROOT, "known_findings.json")
old = json.load(open(path)) if os.path.exists(path) else []
out = [e for e in old if e["status"] == "open"]
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    s = s[5:]
    p = next((p for k, p in MAP if k in s), None)
    if p is None:
        sys.exit("no property for " + l)
    out.append(dict(property=p, status="fixed", commit=h, what=s, line="fixed: property=%s %s %s" % (p, h, s)))
json.dump(out, open(path, "w"), indent=1)
open(path, "a").write("\n")
