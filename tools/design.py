"""Writes DESIGN.md from design_head.md, the properties, the scenarios and the notes below."""
import ast, json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOW = {
 "R02": "Encoded: rt_merge.merge2/merge_lookup/merge/merge_indices with their jitted kernels (from their Python bodies), ismember and the grouping code below. Keys, key validity and payloads are symbolic; every table size up to the bound, join kind, keep and validate value is an instance. Oracle: a nested loop over row pairs (the relational definition), written over the same symbolic cells.",
 "R03": "Encoded: rt_merge.merge_asof/merge_asof2 and their kernels. Oracle: for each left row, scan all right rows and keep the admissible one nearest in the direction.",
 "R04": "Encoded: rt_grouping.Grouping and its helpers; riptide_cpp's groupbyhash/groupbylex/groupbypack/ifirst/... are contracts. Oracle: pairwise key equality.",
 "R05": "Encoded: rt_categorical.Categorical/Categories, rt_enum, hstack of categoricals. Oracle: the list of row values kept beside the categorical and transformed by the obvious list operation.",
 "R06": "Encoded: rt_groupby, rt_groupbyops, rt_grouping calculators, rt_groupbynumba kernels. Oracle: collect the rows of each group by key equality, then aggregate that list.",
 "R07": "As R06, for row-shaped results: walk the rows in order and keep a state per group.",
 "R08": "Encoded: rt_datetime Date/DateTimeNano field code. A symbolic day number is decided against the calendar computed by counting (years, then months, then days).",
 "R09": "Encoded: rt_timezone's search of the transition tables and every field of DateTimeNano in a zone. Oracle: the zone's rules from Python's zoneinfo as a piecewise-constant offset, over all nanoseconds of the covered years; the table edges become solver case splits.",
 "R10": "Encoded: the arithmetic, comparison, reduction, resampling and bucket code of rt_datetime. Oracle: exact integer arithmetic on nanoseconds or days with a missing flag.",
 "R11": "Encoded: rt_str.FAString and the jitted character kernels (run from their Python bodies on symbolic characters). Oracle: Python-level definitions over the characters of each row. The regular-expression engine itself runs concretely: row texts are fixed by case splits first.",
 "R12": "Encoded: Dataset row selection, sort, duplicated/drop_duplicates, trim, masked assignment, sort settings. Each row carries an identifying cell in every column; assertions compare whole rows.",
 "R13": "Encoded: Struct/Dataset column operations. The operation, the names and positions are symbolic choices; an ordered list of (name, column) pairs is the oracle. Rejected operations are compared with the state before.",
 "R14": "Encoded: rt_hstack, rt_numpy.hstack/vstack, Dataset/Struct concatenation, stacking of categoricals. Oracle: list concatenation with a missing marker.",
 "R15": "Encoded: ismember, isin, unique, duplicated, searchsorted, issorted wrappers of rt_numpy/rt_grouping. Oracle: quadratic definitions.",
 "R16": "Encoded: FastArray reductions and their dispatch, Dataset reductions/arithmetic/masks/fillna/astype/putmask. Oracle: fold over the cells with validity flags.",
 "R17": "Encoded: rt_numpy.cut/qcut/quantile, rt_groupbynumba/quantile code, describe. Oracle: comparison with the edges; sorted rank interpolation in exact rational arithmetic.",
 "R18": "Encoded: rt_sds (save/load, sections, stacking, meta data and its reconstruction of every class). The compiled writer/reader is replaced by `sx/sdsmodel.py`, a contract of what it stores (names, flags, arrays, meta text) and returns (also stacked, filtered, with included columns). Replays write real files in a scratch directory and load them back.",
 "R19": "Encoded: rt_accum2, rt_accumtable, Accum helpers. Oracle: for each pair of labels, aggregate the rows holding both.",
 "R20": "Encoded: FastArray fill/replace/cumulative/shift/diff/transitions/rolling code and its kernels. Oracle: one pass over the rows with explicit state.",
 "R23": "Encoded: Dataset/Struct row forms, Dataset construction from rows, jagged helpers, melt, pivot, transpose, imatrix, one-hot. Oracle: a dictionary from (row, column) to value.",
}
def scen(i):
    out = []
    for n in ast.parse(open(f"{ROOT}/props/{i}.py").read()).body:
        if isinstance(n, ast.FunctionDef) and any("scenario" in ast.dump(d) for d in n.decorator_list):
            d = ast.get_docstring(n)
            out.append(f"`{n.name}`" + (" (" + " ".join(d.split("\n\n")[0].split()).rstrip(".") + ")" if d else ""))
    return out
P = [json.loads(l) for l in open(ROOT + "/properties.jsonl")]
M = json.load(open(ROOT + "/MANIFEST.json"))
na = {x["property"]: x["reason"] for x in M["not_applicable"]}
o = [open(ROOT + "/tools/design_head.md").read().rstrip(), "", "## Properties", ""]
for p in P:
    i = p["id"]
    o.append(f"### {i} {p['title']}\n")
    if i in na:
        o.append(f"Not applicable: {na[i]}.\n")
        continue
    b = re.search(r'^BOUNDS = "(.*)"$', open(f"{ROOT}/props/{i}.py").read(), re.M).group(1)
    o.append(HOW[i] + "\n")
    o.append("Scenarios: " + "; ".join(scen(i)) + ".\n")
    o.append("Bounds: " + b + ".\n")
o.append(open(ROOT + "/tools/design_tail.md").read().rstrip())
open(ROOT + "/DESIGN.md", "w").write("\n".join(o) + "\n")
