"""Contracts of the SDS file functions of riptide_cpp.

A saved file is a record (metadata, arrays, names and flags, file type) kept in
memory under its path; a real, empty file marks the path so that the library's
own existence, directory and overwrite logic runs unchanged.  Only the byte
format and compression of the extension are outside the encoding.
"""
import os, collections
import numpy as np
from .engine import *
from . import symnd as N
from .symnd import mk, elems, isobj, has_sym
from .rcmodel import symrc, fa_cls, mkfa, INV, conv_safe, rc

Item = collections.namedtuple("SDSContainerItem", "itemname flags")
Info = collections.namedtuple("SDSFileInfo", "column_metadata columns container_items file_header")
Cut = collections.namedtuple("SDSArrayCutoffs", "arrays array_infos array_cutoffs file_metadata filenames file_header")
STORE = {}
CALLS = {}


def _s(p):
    return p.decode() if isinstance(p, bytes) else os.fspath(p)


def _snap(a):
    if a is None:
        return None
    a = a.view(np.ndarray) if not isobj(a) else a
    dt = a.dtype
    return (list(elems(a)) if isobj(a) else list(np.asarray(a).ravel()), dt, a.shape)


def CompressFile(filename, meta, arrays, tups, comptype=1, level=2, filetype=0, sharename=None, bandsize=None, section=None):
    if Engine.cur is None:
        return rc.CompressFile(filename, meta, arrays, tups, comptype, level, filetype, bandsize=bandsize, section=section)
    if sharename is not None:
        raise Unsupported("shared memory")
    p = _s(filename)
    rec = dict(meta=bytes(meta), cols=[_snap(a) for a in arrays], items=[Item(bytes(t[0]), int(t[1])) for t in tups], ft=int(filetype), section=section)
    if len(rec["items"]) < len(rec["cols"]):
        rec["items"] += [Item(b"", 0)] * (len(rec["cols"]) - len(rec["items"]))
    if section is not None and os.path.exists(p) and p in STORE:
        STORE[p].append(rec)
    else:
        STORE[p] = [rec]
    with open(p, "wb"):
        pass


def _out(snap, rows=None):
    if snap is None:
        return None
    v, dt, shp = snap
    if rows is not None:
        w = int(np.prod(shp[1:])) if len(shp) > 1 else 1
        v = [v[r * w + j] for r in rows for j in range(w)]
        shp = (len(rows),) + tuple(shp[1:])
    if any(isinstance(x, Sym) for x in v):
        return mk(list(v), dt, shp, fa_cls())
    return np.array(v, dtype=dt).reshape(shp).view(fa_cls())


def _wanted(rec, include, folders):
    keep = []
    for it in rec["items"]:
        nm = it.itemname.decode()
        base = nm.split("!", 1)[0]
        ok = True
        if include is not None:
            ok = base in include or base.rsplit("/", 1)[-1] in include or nm.endswith("/")
        if ok and folders is not None:
            ok = any(nm.startswith(f.decode() if isinstance(f, bytes) else f) for f in folders)
        keep.append(ok)
    return keep


def _main(it):
    return bool(it.flags & 1) and not it.flags & (4 | 8) and b"!" not in it.itemname


def _rows(mask, start, n):
    return [r for r in range(n) if start + r < len(mask) and bool(mask[start + r])]


def _maskl(mask):
    return None if mask is None else list(elems(mask)) if isobj(mask) else [bool(x) for x in np.asarray(mask)]


def _nrows(rec):
    for it, c in zip(rec["items"], rec["cols"]):
        if c is not None and _main(it) and len(c[2]):
            return c[2][0]
    return 0


def _info(p, rec, include, folders, mask, nsec, allrec):
    rows = None
    if mask is not None and len(mask):
        rows = _rows(mask, 0, _nrows(rec))
    cols = []
    for ok, it, c in zip(_wanted(rec, include, folders), rec["items"], rec["cols"]):
        cols.append(_out(c, rows if _main(it) else None) if ok and c is not None else None)
    h = {"FileType": rec["ft"], "StackType": 0, "SectionOffset": 1000 * nsec, "Filename": p}
    if nsec == 0 and len(allrec) > 1:
        h["Sections"] = [r["section"] for r in allrec]
    return Info(rec["meta"], tuple(cols), list(rec["items"]), h)


def _load(p):
    if not os.path.exists(p) or p not in STORE:
        raise ValueError(f"Decompression error cannot create/open file: {p}.  Error: No such file or directory")
    return STORE[p]


def _multi(files, include, folders, mask):
    out = []
    for p in map(_s, files):
        recs = _load(p)
        for i, r in enumerate(recs):
            out.append(_info(p, r, include, folders, mask, i, recs))
    return out


def _inc(include):
    return None if include is None else [x.decode() if isinstance(x, bytes) else x for x in include]


def MultiDecompressFiles(files, mode=3, include=None, folders=None, sections=None, filter=None, mask=None, mustexist=False):
    if Engine.cur is None:
        return rc.MultiDecompressFiles(files, mode, include=include, folders=folders, sections=sections, filter=filter, mask=mask, mustexist=mustexist)
    if int(mode) != 3 or sections is not None:
        raise Unsupported("SDS info or sections")
    return _multi(files, _inc(include), folders, _maskl(mask))


def MultiPossiblyStackFiles(files, include=None, folders=None, sections=None, filter=None, mask=None, mustexist=False):
    if Engine.cur is None:
        return rc.MultiPossiblyStackFiles(files, include=include, folders=folders, sections=sections, filter=filter, mask=mask, mustexist=mustexist)
    if sections is not None:
        raise Unsupported("SDS sections")
    return _multi(files, _inc(include), folders, _maskl(mask))


def _common(dts):
    ks = {d.kind for d in dts}
    if ks <= set("S") or ks <= set("U"):
        return max(dts, key=lambda d: d.itemsize)
    if ks & set("SU") or (len(set(dts)) > 1 and "b" in ks):
        raise Unsupported("stacking files of unlike column types")
    r = dts[0]
    for d in dts[1:]:
        r = np.promote_types(r, d)
    return r


def MultiStackFiles(files, include=None, folders=None, sections=None, filter=None, mask=None, mustexist=False, reserve=0.0):
    if Engine.cur is None:
        return rc.MultiStackFiles(files, include=include, folders=folders, sections=sections, filter=filter, mask=mask, mustexist=mustexist, reserve=reserve)
    if sections is not None:
        raise Unsupported("SDS sections")
    include, mask = _inc(include), _maskl(mask)
    recs, names = [], []
    for p in map(_s, files):
        if os.path.exists(p) and p in STORE:
            for r in STORE[p]:
                recs.append(r)
                names.append(p.encode())
        elif mustexist:
            raise ValueError(f"cannot open file {p}")
    if not recs:
        return None
    order, flags = [], {}
    for r in recs:
        for ok, it in zip(_wanted(r, include, folders), r["items"]):
            if ok and it.itemname not in flags:
                flags[it.itemname] = it.flags
                order.append(it.itemname)
    # rows are counted over the selected columns of each file
    nr, sel, st = [], [], 0
    for r in recs:
        n = 0
        for ok, it, c in zip(_wanted(r, include, folders), r["items"], r["cols"]):
            if ok and _main(it) and c is not None and len(c[2]):
                n = c[2][0]
                break
        n = n or _nrows(r)
        nr.append(n)
        sel.append(None if mask is None else _rows(mask, st, n))
        st += n
    arrays, infos, cuts = [], [], []
    for nm in order:
        it = Item(nm, flags[nm])
        main = _main(it)
        snaps = []
        for r in recs:
            d = {i.itemname: c for i, c in zip(r["items"], r["cols"])}
            snaps.append(d.get(nm))
        have = [s for s in snaps if s is not None]
        if any(len(s[2]) != 1 for s in have):
            raise Unsupported("stacking files with matrix columns")
        dt = _common([s[1] for s in have])
        vals, cut = [], []
        for s, n, sl in zip(snaps, nr, sel):
            m = n if sl is None else len(sl)
            if s is None:
                part = [INV[dt] if dt.kind not in "SU" else (b"" if dt.kind == "S" else "")] * m
            elif main:
                part = list(s[0]) if sl is None else [s[0][i] for i in sl]
            else:
                part = list(s[0]) if sl is None or m or not n else []
            if s is not None and s[1] != dt and dt.kind not in "SU":
                part = [conv_safe(s[1].type(x) if not isinstance(x, Sym) else x, s[1], dt) for x in part]
            vals += part
            cut.append(len(vals))
        arrays.append(mkfa(vals, dt, (len(vals),)) if any(isinstance(x, Sym) for x in vals) else np.array(vals, dtype=dt).view(fa_cls()))
        infos.append(it)
        cuts.append(np.array(cut, dtype=np.int64).view(fa_cls()))
    return Cut(tuple(arrays), infos, cuts, [r["meta"] for r in recs], names, {"FileType": recs[0]["ft"], "StackType": 0})


def reset():
    STORE.clear()


def install():
    for f in (CompressFile, MultiDecompressFiles, MultiPossiblyStackFiles, MultiStackFiles):
        setattr(symrc, f.__name__, f)
