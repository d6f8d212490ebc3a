"""C16: junk between records affects no record."""
from itertools import combinations_with_replacement, product
from ..core import Obs, Violation, digest
from ..docs import DEFHDR, nav_cells, obs_cells, obs_sats, render, ns, at
from ..observe import cells, check_obs, diff, must, times_ns, tstr
from ..small import OBS, TYPES2, TYPES3, dtypes, load, opts_of

ID = "C16"
LEVEL = "fault_enumeration"
TECHNIQUE = "exhaustive fault enumeration: every placement of one and two junk lines of every kind in every slot between the records, every field of every record made unreadable"
RULE = "one case = one document with junk: load (with options) and gettime compared with the reference model of the records; trivial = no record loaded"
ASSUMPTIONS = ["a junk line is a line that cannot be read as an epoch or ephemeris line", "junk lines are at slots between records, not inside"]
CHUNK = 60

KINDS = ["", " ", " " * 80, "this line is not an epoch", "0", "*" * 100, "12345678901234567890123456789012345678901234567890", "# x\t\x00\x07", "END OF FILE", "END OF HEADER",
         "a comment".ljust(60) + "COMMENT", "G01", "-1.0", "EOF", "\x1a"]
CUT = {"o2": [" 18  7 29  0  1 30.00", " 18  7 29"], "o3": ["> 2018 07 29 00 01 30.0", ">", "> 2018"], "n2": [" 3 18  7 29 02", " 3 18"],
       "n3": ["G03 2018 07 29 02", "G03", "X03 2018 07 29 02 00 00 0.123456789012E-04 0.123456789012E-04 0.123456789012E-04"]}

E5 = [["G01", "G02"], ["G02"], ["G03", "G01"]]
DOCS = {
    "o2": dict(OBS["o2g"], ev=OBS["o2g"]["ev"][:3]),
    "o2m": dict(OBS["o2m"], ev=OBS["o2m"]["ev"][:3]),
    "o2c": {"k": "o2", "sys": "G", "types": TYPES2[:2], "hdr": DEFHDR, "trim": True,
            "ev": [{"e": 0, "s": [f"G{i:02d}" for i in range(1, 15)], "p": "v."}, {"e": 30, "s": ["G03"], "p": "b", "f": 1}, {"e": 60, "s": ["G03", "G20"], "p": ".v"}]},
    "o2ev": {"k": "o2", "sys": "G", "types": TYPES2[:2], "hdr": DEFHDR,
             "ev": [{"e": 0, "s": ["G01", "G12"]}, {"x": 4, "n": ["x".ljust(60) + "COMMENT"], "t": None}, {"e": 30, "s": ["G02"]}]},
    "o3m": dict(OBS["o3m"], ev=OBS["o3m"]["ev"][:3]),
    "o3g": dict(OBS["o3g"], ev=OBS["o3g"]["ev"][:3], trim=True),
    "o3ev": {"k": "o3", "sys": "G", "types": {"G": ["C1C", "L1C"]}, "hdr": DEFHDR,
             "ev": [{"e": 0, "s": ["G01", "G12"]}, {"x": 4, "n": ["x".ljust(60) + "COMMENT"], "t": None}, {"e": 30, "s": ["G02"]}]},
    "n2": {"k": "n2", "ft": "N", "ev": [{"sv": "G01", "t": 7200}, {"sv": "G12", "t": 0}, {"sv": "G01", "t": 0, "rs": 1}]},
    "n2g": {"k": "n2", "ft": "G", "ev": [{"sv": "R01", "t": 900}, {"sv": "R12", "t": 2700}, {"sv": "R01", "t": 2700}]},
    "n2e": {"k": "n2", "ft": "E", "ev": [{"sv": "E01", "t": 900}, {"sv": "E12", "t": 600}]},
    "n3": {"k": "n3", "ev": [{"sv": "G01", "t": 0}, {"sv": "R02", "t": 900}, {"sv": "G01", "t": 7200, "nf": 28}, {"sv": "G01", "t": 0}]},
    "n3m": {"k": "n3", "ev": [{"sv": "E01", "t": 0, "rs": 1}, {"sv": "C12", "t": 600}, {"sv": "S20", "t": 600}]},
    "n3i": {"k": "n3", "ev": [{"sv": "I01", "t": 0}, {"sv": "J02", "t": 600}, {"sv": "R21", "t": 600}, {"sv": "C05", "t": 600, "nf": 31}]},
}


def insert(doc, where):
    """where: [(slot, text)], slot i is before record i"""
    ev = list(doc["ev"])
    for slot, t in sorted(where, key=lambda x: -x[0]):
        ev.insert(slot, {"j": t})
    return dict(doc, ev=ev)


def spaces(tier):
    big = tier == "thorough"

    def kinds(k, all=True):
        ks = KINDS if all else KINDS[:4]
        # "END OF HEADER" must not come in the middle of what may be still the header; it does not: the header is over
        return ks + (CUT[k] if all else [])

    def opts(d):
        yield {}
        if d["k"] == "o2":
            yield {"fast": False}
        if d["k"][0] == "o":
            yield {"w": [30, 60]}
            yield {"interval": 60}
            yield {"ind": True}
            if d["sys"] == "M":
                yield {"use": ["R"]}
        else:
            yield {"w": [0, 1000]} if d["k"] == "n3" else {"w": [-10, 100000]}
            if d["k"] == "n3":
                yield {"use": [d["ev"][0]["sv"][0]]}

    def A():
        for name, d in DOCS.items():
            for o in opts(d):
                for slot in range(len(d["ev"]) + 1):
                    for t in kinds(d["k"]):
                        yield {"d": name, "where": [[slot, t]], **o}
    yield ("one junk line", A())

    def B():
        for name, d in DOCS.items():
            n = len(d["ev"]) + 1
            ks = kinds(d["k"], big)
            for a, b in combinations_with_replacement(range(n), 2):
                for x, y in product(ks, repeat=2):
                    if a != b or big or x <= y:
                        yield {"d": name, "where": [[a, x], [b, y]]}
    yield ("two junk lines", B())

    def C():
        for name, d in DOCS.items():
            for t in kinds(d["k"]):  # everywhere at once, many of them
                for rep in (1, 3, 12):
                    for o in opts(d):
                        yield {"d": name, "where": [[s, t] for s in range(len(d["ev"]) + 1) for _ in range(rep)], **o}
    yield ("junk everywhere", C())

    def D():
        for name, d in DOCS.items():
            if d["k"][0] != "n":
                continue
            for r, rec in enumerate(d["ev"]):
                nf = 15 if rec["sv"][0] in "RS" else 28
                for k in range(nf):
                    for t in ("xxxx", "1.2.3", "*" * 19, "--", "1,5", "0x1F") if big else ("xxxx", "*" * 19):
                        yield {"d": name, "bad": [r, k, t]}
                yield {"d": name, "badall": [r]}
            for rs in ([0, 1], [1, 2], [0, 2]):
                if max(rs) < len(d["ev"]):
                    yield {"d": name, "badall": rs}
    yield ("unreadable ephemerides", D())


def run(case, ctx):
    import georinex as gr
    d = DOCS[case["d"]]
    if "bad" in case or "badall" in case:
        ev = [dict(x) for x in d["ev"]]
        if "bad" in case:
            r, k, t = case["bad"]
            ev[r]["v"] = {str(k): t}
            bad = {r}
        else:
            for r in case["badall"]:
                ev[r]["v"] = {str(k): "garbage" for k in range(31)}
            bad = set(case["badall"])
        d2 = dict(d, ev=ev)
    else:
        d2 = insert(d, [tuple(x) for x in case["where"]])
        bad = set()
    txt = render(d2)
    fn = ctx.write("doc." + {"o2": "18o", "o3": "rnx", "n2": "18n", "n3": "rnx"}[d["k"]], txt)
    a, r = opts_of(dict(case, doc=d))
    try:
        ds = must(load, fn, _what=f"load({a})", **a)
        if d["k"][0] == "o":
            exp, times = obs_cells(d, **r)
            check_obs(ds, exp, dtypes(d), set(times), obs_sats(d, r.get("use")), f"load({a})")
            t = must(gr.gettime, fn, _what="gettime")
            et = obs_cells(d)[1]
        else:
            exp, recs = nav_cells(d, **r)
            allrecs = nav_cells(d)[1]
            skip = {allrecs[i] for i in bad}
            got = cells(ds)
            if skip:
                exp = {v: {k: x for k, x in c.items() if k not in skip} for v, c in exp.items()}
                got = {v: {k: x for k, x in c.items() if k not in skip} for v, c in got.items()}
                # the layout of another record of the satellite may have fields that are zero where this one omits them
            omit = {}
            for v, c in got.items():
                for k, x in c.items():
                    if x == 0 and k not in exp.get(v, {}) and k in recs:
                        omit.setdefault(v, set()).add(k)
            got = {v: {k: x for k, x in c.items() if k not in omit.get(v, ())} for v, c in got.items()}
            diff(got, exp, f"load({a})")
            t = must(gr.gettime, fn, _what="gettime")
            et = sorted({ns(at(d, x["t"])) for x in d["ev"]})
        if times_ns(t) != et:
            raise Violation(f"gettime returns {[tstr(x) for x in times_ns(t)]}, should be {[tstr(x) for x in et]}")
    except Violation as e:
        e.files["rnx"] = txt
        raise
    return Obs(digest(sorted((k, sorted(v.items())) for k, v in exp.items())), transitions=len(d2["ev"]), states=len(d2["ev"]) + 1, execs=2, trivial=not exp)
