"""Abstract RINEX/SP3 documents: a header plus a sequence of events.

A document is a small JSON value.  `render(doc)` writes the file it denotes,
`obs_cells(doc, ...)`, `nav_cells(doc, ...)` and `sp3_cells(doc)` are the
reference model: they step through the same events and accumulate what a reader
must return, without looking at the text.
"""
from __future__ import annotations
from datetime import datetime, timedelta
from math import ceil

SYS = "GRECJSI"
EPOCH0 = datetime(1970, 1, 1)


def ns(t: datetime) -> int:
    d = t - EPOCH0
    return ((d.days * 86400 + d.seconds) * 1000000 + d.microseconds) * 1000


def parse_t(s: str) -> datetime:
    return datetime.fromisoformat(s)


def at(doc, t) -> datetime:
    """time of an event: seconds (possibly fractional, ms resolution) after doc t0, or ISO string"""
    if isinstance(t, str):
        return parse_t(t)
    return parse_t(doc.get("t0", "2018-07-29T00:00:00")) + timedelta(milliseconds=round(t * 1000))


# ---------------------------------------------------------------- observation cells
def obs_value(sv: str, e: int, k: int, code: str) -> float:
    """distinct for every (satellite, epoch index, type index)"""
    s, n = SYS.index(sv[0]), int(sv[1:])
    v = (1 + s) * 1_000_000 + n * 10_000 + (e % 100) * 100 + k + ((7 * k + 3 * e + n) % 999 + 1) / 1000
    if code == "n" or code == "N":
        v = -v
    elif code == "w":  # fills all 14 columns
        v += 9_000_000_000
    elif code == "z":
        v = 0.0
    elif code == "c":  # the same everywhere
        v = 20000000.001
    elif code == "m":
        v = 0.001
    elif code == "q":  # fills all 14 columns, negative
        v = -(v + 900_000_000)
    return round(v, 3)


def lli_digit(sv: str, e: int, k: int) -> int:
    return (int(sv[1:]) + 2 * e + 3 * k) % 8


def ssi_digit(sv: str, e: int, k: int) -> int:
    return (2 * int(sv[1:]) + e + 5 * k) % 10


def code_of(p, sv: str, k: int) -> str:
    """one character for cell k of satellite sv:
    '.' blank, v value, n negative, w/q 14 columns wide (pos/neg), z zero, each without flags;
    b value+LLI+SSI, l value+LLI, s value+SSI, N negative value + both flags;
    f, g, h no value but both flags, LLI, SSI"""
    if isinstance(p, dict):
        p = p.get(sv, p.get(sv[0], p.get("*", "b")))
    return p[k % len(p)]


def cell_text(sv: str, e: int, k: int, c: str) -> str:
    if c == ".":
        return " " * 16
    v = obs_value(sv, e, k, c)
    t = " " * 14 if c in "fgh" else f"{v:14.3f}"
    assert len(t) == 14, t
    lli = str(lli_digit(sv, e, k)) if c in "blNfg" else " "
    ssi = str(ssi_digit(sv, e, k)) if c in "bsNfh" else " "
    return t + lli + ssi


# ---------------------------------------------------------------- header helpers
def hl(content: str, label: str) -> str:
    return f"{content:60.60s}{label:<20s}"


def first_line(ver: str, ftype: str, sysc: str) -> str:
    return hl(f"{float(ver):9.2f}{'':11s}{ftype:20s}{sysc:20s}", "RINEX VERSION / TYPE")


POS = (3970000.1234, -1400000.5678, 4760000.9012)


def obs_header(doc) -> list[str]:
    """header lines; doc["hdr"] lists optional lines, in order"""
    three = doc["k"] == "o3"
    sysc = doc.get("sys", "M")
    long = {"G": "G (GPS)", "R": "R (GLONASS)", "E": "E (Galileo)", "M": "M (Mixed)", "S": "S (SBAS)",
            "C": "C (BeiDou)", "J": "J (QZSS)", "I": "I (IRNSS)", " ": " "}[sysc]
    out = [first_line(doc.get("ver", "3.03" if three else "2.11"), "OBSERVATION DATA", long)]
    t0 = at(doc, doc.get("tfo", 0))
    ts = doc.get("ts", {"G": "GPS", "R": "GLO", "E": "GAL", "J": "QZS", "C": "BDT", "I": "IRN"}.get(sysc, "GPS"))
    typelines = []
    if three:
        for s, ty in doc["types"].items():
            for i in range(0, len(ty), 13):
                lead = f"{s}  {len(ty):3d}" if i == 0 else " " * 6
                typelines.append(hl(lead + "".join(f" {x:3s}" for x in ty[i : i + 13]), "SYS / # / OBS TYPES"))
    else:
        ty = doc["types"]
        for i in range(0, len(ty), 9):
            lead = f"{doc.get('nt', len(ty)):6d}" if i == 0 else " " * 6  # "nt": a wrong count
            typelines.append(hl(lead + "".join(f"    {x:>2s}" for x in ty[i : i + 9]), "# / TYPES OF OBSERV"))
    sec = t0.second + t0.microsecond / 1e6
    lines = {
        "pgm": [hl("mcrinex             model checking      20180729 000000 UTC", "PGM / RUN BY / DATE")],
        "com": [hl("a comment line", "COMMENT")],
        "com2": [hl("18  7 29  0  0  0.0000000  0  1G01", "COMMENT")],
        "com3": [hl("> 2018 07 29 00 00  0.0000000  0  1", "COMMENT")],
        "marker": [hl("MARK", "MARKER NAME")],
        "obsv": [hl("observer            agency", "OBSERVER / AGENCY")],
        "rec": [hl(f"{doc.get('recno', '1234'):20s}{doc.get('rectype', 'RECTYPE X'):20s}{'5.43':20s}", "REC # / TYPE / VERS")],
        "ant": [hl(f"{'77':20s}{'ANTTYPE        NONE':20s}", "ANT # / TYPE")],
        "pos": [hl("".join(f"{x:14.4f}" for x in doc.get("pos", POS)), "APPROX POSITION XYZ")],
        "pos_bad": [hl("  not a position", "APPROX POSITION XYZ")],
        "delta": [hl("".join(f"{x:14.4f}" for x in (0.1, 0.2, 0.3)), "ANTENNA: DELTA H/E/N")],
        "wave": [hl(f"{1:6d}{1:6d}", "WAVELENGTH FACT L1/2")],
        "types": typelines,
        "int": [hl(f"{doc.get('interval', 30):10.3f}", "INTERVAL")],
        "int_bad": [hl("   xx.x", "INTERVAL")],
        "tfo": [hl(f"{t0.year:6d}{t0.month:6d}{t0.day:6d}{t0.hour:6d}{t0.minute:6d}{sec:13.7f}     {ts:3s}",
                   "TIME OF FIRST OBS")],
        "tfo_nosys": [hl(f"{t0.year:6d}{t0.month:6d}{t0.day:6d}{t0.hour:6d}{t0.minute:6d}{sec:13.7f}",
                         "TIME OF FIRST OBS")],
        "tlo": [hl(f"{t0.year:6d}{t0.month:6d}{t0.day:6d}{t0.hour:6d}{t0.minute:6d}{sec:13.7f}     {ts:3s}",
                   "TIME OF LAST OBS")],
        "rcv": [hl(f"{doc.get('rcvclk', 0):6d}", "RCV CLOCK OFFS APPL")],
        "rcv_bad": [hl("   abc", "RCV CLOCK OFFS APPL")],
        "leap": [hl(f"{18:6d}", "LEAP SECONDS")],
        "nsat": [hl(f"{doc.get('nsat', 3):6d}", "# OF SATELLITES")],
        "phs": [hl("G L1C", "SYS / PHASE SHIFT")],
        "sig": [hl("DBHZ", "SIGNAL STRENGTH UNIT")],
    }
    for h in doc.get("hdr", ["pgm", "marker", "rec", "pos", "types", "int", "tfo"]):
        out += lines[h]
    out.append(hl("", "END OF HEADER"))
    return out


DEFHDR = ["pgm", "marker", "rec", "pos", "types", "int", "tfo"]
NOINT = ["pgm", "marker", "rec", "pos", "types", "tfo"]


def sp(s: str, doc) -> str:
    return s.rstrip() if doc.get("trim") else s


def finish(lines: list[str], doc) -> str:
    eol = "\r\n" if doc.get("eol") == "rn" else "\n"
    txt = eol.join(lines)
    if doc.get("last_eol", True):
        txt += eol
    return txt


# ---------------------------------------------------------------- RINEX 2 OBS
def render_o2(doc) -> str:
    return finish(lines_o2(doc)[0], doc)


def lines_o2(doc, pos=None):
    out = obs_header(doc)
    marks = [("header", len(out))]
    e = -1
    nt = len(doc["types"])
    for ev in doc["ev"]:
        if "j" in ev:
            out.append(ev["j"])
        elif "x" in ev:
            if "sl" in ev:  # cycle slips, written like observations
                sl = [s for s in ev["sl"] if doc["sys"] in ("M", s[0])]
                ln = f"{time_o2(at(doc, ev['t']), doc)}  {ev['x']}{len(sl):3d}"
                for i in range(0, max(len(sl), 1), 12):
                    out.append((ln if i == 0 else " " * 32) + "".join(sl[i : i + 12]))
                for s in sl:
                    cells = slip_cells(nt)
                    out += [sp("".join(cells[i : i + 5]), doc) for i in range(0, nt, 5)]
            elif ev.get("t") is None:
                out.append(f"{'':28s}{ev['x']}{len(ev['n']):3d}")
            else:
                out.append(f"{time_o2(at(doc, ev['t']), doc)}  {ev['x']}{len(ev['n']):3d}")
            out += ev.get("n", [])
        else:
            e += 1
            svs = ev["s"]
            shown = [(" " + s[1:] if doc.get("blankG") and s[0] == "G" else s) for s in svs]
            if doc.get("sp_num"):  # "G 7" style
                shown = [s[0] + f"{int(s[1:]):2d}" for s in shown]
            head = f"{time_o2(at(doc, ev['e']), doc)}  {ev.get('f', 0)}{len(svs):3d}"
            clk = ev.get("c")
            for i in range(0, max(len(shown), 1), 12):
                ln = (head if i == 0 else " " * 32) + "".join(shown[i : i + 12])
                if i == 0 and clk is not None:
                    ln = f"{ln:68s}{clk:12.9f}"
                out.append(ln)
            for s in svs:
                cells = [cell_text(s, e, k, code_of(ev.get("p", "b"), s, k)) for k in range(nt)]
                if pos is not None:
                    pos += [(e, s, k, len(out) + k // 5, k % 5 * 16) for k in range(nt)]
                for i in range(0, nt, 5):
                    out.append(sp("".join(cells[i : i + 5]), doc))
        marks.append((ev_name(ev), len(out)))
    return out, marks


def slip_cells(n):
    return [f"{(k - 3) * 1.0:14.3f}  " if k % 2 else " " * 16 for k in range(1, n + 1)]


def ev_name(ev):
    return "junk" if "j" in ev else ("special" if "x" in ev else "rec")


def time_o2(t: datetime, doc={}) -> str:
    if doc.get("zp"):  # leading zeros instead of blanks
        return f" {t.year % 100:02d} {t.month:02d} {t.day:02d} {t.hour:02d} {t.minute:02d} {t.second:02d}.{t.microsecond:06d}0"
    return (f" {t.year % 100:{'2d' if doc.get('yb') else '02d'}} {t.month:2d} {t.day:2d} {t.hour:2d} {t.minute:2d}"
            f"{t.second:3d}.{t.microsecond:06d}0")


# ---------------------------------------------------------------- RINEX 3 OBS
def time_o3(t: datetime, doc={}) -> str:
    if doc.get("zp"):
        return f"> {t.year:04d} {t.month:02d} {t.day:02d} {t.hour:02d} {t.minute:02d} {t.second:02d}.{t.microsecond:06d}0"
    if doc.get("yb"):  # blanks instead of leading zeros
        return f"> {t.year:4d} {t.month:2d} {t.day:2d} {t.hour:2d} {t.minute:2d} {t.second:2d}.{t.microsecond:06d}0"
    return (f"> {t.year:04d} {t.month:02d} {t.day:02d} {t.hour:02d} {t.minute:02d}"
            f" {t.second:2d}.{t.microsecond:06d}0")


def render_o3(doc) -> str:
    return finish(lines_o3(doc)[0], doc)


def lines_o3(doc, pos=None):
    out = obs_header(doc)
    marks = [("header", len(out))]
    e = -1
    for ev in doc["ev"]:
        if "j" in ev:
            out.append(ev["j"])
        elif "x" in ev:
            if "sl" in ev:
                sl = [s for s in ev["sl"] if s[0] in doc["types"]]
                out.append(f"{time_o3(at(doc, ev['t']), doc)}  {ev['x']}{len(sl):3d}")
                out += [sp(s + "".join(slip_cells(len(doc["types"][s[0]]))), doc) for s in sl]
            elif ev.get("t") is None:
                out.append(f"> {'':29s}{ev['x']}{len(ev['n']):3d}")
            else:
                out.append(f"{time_o3(at(doc, ev['t']), doc)}  {ev['x']}{len(ev['n']):3d}")
            out += ev.get("n", [])
        else:
            e += 1
            ln = f"{time_o3(at(doc, ev['e']), doc)}  {ev.get('f', 0)}{len(ev['s']):3d}"
            if ev.get("c") is not None:
                ln = f"{ln:41s}{ev['c']:15.12f}"
            out.append(ln)
            for s in ev["s"]:
                nt = len(doc["types"][s[0]])
                cells = [cell_text(s, e, k, code_of(ev.get("p", "b"), s, k)) for k in range(nt)]
                name = s[0] + f"{int(s[1:]):2d}" if doc.get("sp_num") else s
                if pos is not None:
                    pos += [(e, s, k, len(out), 3 + k * 16) for k in range(nt)]
                out.append(sp(name + "".join(cells), doc))
        marks.append((ev_name(ev), len(out)))
    return out, marks


# ---------------------------------------------------------------- reference model for OBS
def types_of(doc, sysc: str) -> list[str]:
    return doc["types"].get(sysc, []) if doc["k"] == "o3" else doc["types"]


def obs_epochs(doc) -> list[tuple[int, dict]]:
    """(ns time, event, epoch index) of the observation epochs, in file order"""
    out, e = [], -1
    for ev in doc["ev"]:
        if "e" in ev:
            e += 1
            out.append((ns(at(doc, ev["e"])), ev, e))
    return out


def thin(times: list[int], interval_ns: int | None) -> list[bool]:
    """C08: keep the first; as n-th further one, the first following at or after first+n*I"""
    keep, nxt = [], None
    for t in times:
        if interval_ns is None or interval_ns == 0:
            keep.append(True)
            continue
        if nxt is None:
            keep.append(True)
            nxt = t + interval_ns
        elif t >= nxt:
            keep.append(True)
            nxt += interval_ns
        else:
            keep.append(False)
    return keep


def as_list(x):
    if x is None:
        return None
    return [x] if isinstance(x, str) else list(x)


def obs_cells(doc, use=None, meas=None, tlim=None, interval=None, ind=False):
    """reference: {variable: {(ns, sv): value}}, kept epoch times"""
    use, meas = as_list(use), as_list(meas)
    eps = obs_epochs(doc)
    if tlim is not None:
        a, b = ns(tlim[0]), ns(tlim[1])
        eps = [x for x in eps if a <= x[0] <= b]
    keep = thin([x[0] for x in eps], interval)
    eps = [x for x, k in zip(eps, keep) if k]
    out: dict[str, dict] = {}
    for t, ev, e in eps:
        for s in ev["s"]:
            if use and s[0] not in use:
                continue
            for k, ty in enumerate(types_of(doc, s[0])):
                if meas and not any(ty.startswith(m) for m in meas):
                    continue
                c = code_of(ev.get("p", "b"), s, k)
                if c == ".":
                    continue
                if c not in "fgh":
                    out.setdefault(ty, {})[t, s] = obs_value(s, e, k, c)
                if ind and ty[0] in "CPLD":
                    if ty[0] == "L" and c in "blNfg":
                        out.setdefault(ty + "lli", {})[t, s] = float(lli_digit(s, e, k))
                    if c in "bsNfh":
                        out.setdefault(ty + "ssi", {})[t, s] = float(ssi_digit(s, e, k))
    return out, [x[0] for x in eps]


def obs_sats(doc, use=None):
    return {s for _, ev, _ in obs_epochs(doc) for s in ev["s"] if not use or s[0] in use}


# ---------------------------------------------------------------- NAV
F_GPS = ("SVclockBias SVclockDrift SVclockDriftRate IODE Crs DeltaN M0 Cuc Eccentricity Cus sqrtA Toe Cic Omega0 "
         "Cis Io Crc omega OmegaDot IDOT CodesL2 GPSWeek L2Pflag SVacc health TGD IODC TransTime FitIntvl").split()
F_GLO = "SVclockBias SVrelFreqBias MessageFrameTime X dX dX2 health Y dY dY2 FreqNum Z dZ dZ2 AgeOpInfo".split()
F_SBAS = "SVclockBias SVrelFreqBias MessageFrameTime X dX dX2 health Y dY dY2 URA Z dZ dZ2 IODN".split()
F_GAL2 = ("SVclockBias SVclockDrift SVclockDriftRate IODnav Crs DeltaN M0 Cuc Eccentricity Cus sqrtA Toe Cic Omega0 "
          "Cis Io Crc omega OmegaDot IDOT DataSrc GALWeek SISA health BGDe5a BGDe5b TransTime").split()
F_GAL3 = ("SVclockBias SVclockDrift SVclockDriftRate IODnav Crs DeltaN M0 Cuc Eccentricity Cus sqrtA Toe Cic Omega0 "
          "Cis Io Crc omega OmegaDot IDOT DataSrc GALWeek - SISA health BGDe5a BGDe5b TransTime - - -").split()
F_BDS = ("SVclockBias SVclockDrift SVclockDriftRate AODE Crs DeltaN M0 Cuc Eccentricity Cus sqrtA Toe Cic Omega0 "
         "Cis Io Crc omega OmegaDot IDOT - BDTWeek - SVacc SatH1 TGD1 TGD2 TransTime AODC - -").split()
F_IRN = ("SVclockBias SVclockDrift SVclockDriftRate IODEC Crs DeltaN M0 Cuc Eccentricity Cus sqrtA Toe Cic Omega0 "
         "Cis Io Crc omega OmegaDot IDOT - BDTWeek - URA health TGD - TransTime - - -").split()
F3 = {"G": F_GPS + ["-", "-"], "J": F_GPS + ["-", "-"], "R": F_GLO, "S": F_SBAS, "E": F_GAL3, "C": F_BDS, "I": F_IRN}
F2 = {"N": F_GPS, "G": F_GLO, "E": F_GAL2}
SYS2 = {"N": "G", "G": "R", "E": "E"}
KM = {"X", "dX", "dX2", "Y", "dY", "dY2", "Z", "dZ", "dZ2"}


def nav_text(sv: str, r: int, k: int, rec) -> str:
    """19 columns; distinct for every (satellite, record, field)"""
    if "v" in rec and str(k) in rec["v"]:
        x = rec["v"][str(k)]
        if isinstance(x, str):
            return f"{x:>19s}"
        s = f"{x:19.12E}"
    else:
        s_, n = SYS.index(sv[0]), int(sv[1:])
        m = 1 + (k % 9) + (s_ + 1) * 0.1 + n * 0.001 + (98 - r if rec.get("desc") else r + 1) * 0.00001 + k * 1e-8
        ex = (k * 5) % 13 - 6
        if k % 3 == 2:
            m = -m
        s = f"{m * 10.0 ** ex:19.12E}"
    letter = rec.get("D", True)  # E, e, D and d are allowed
    return s.replace("E", letter if isinstance(letter, str) else "D" if letter else "E")


def nav_rec_fields(doc, rec) -> list[str | None]:
    """parameter name (or '-' spare) of every 19-column field of the record, in order"""
    if doc["k"] == "n2":
        f = list(F2[doc["ft"]])
        return f[: rec["nf"]] if rec.get("nf") else f
    s = rec["sv"][0]
    f = list(F3[s])
    nf = rec.get("nf")
    if nf is None:
        nf = {"G": 29, "J": 29, "R": 15, "S": 15, "E": 28, "C": 29, "I": 28}[s]
    if s == "E" and nf == 27:  # neither the middle nor the trailing spares
        return f[:22] + f[23:28]
    if s == "C" and nf == 28:  # no spare before SVacc
        return f[:22] + f[23:29]
    if s == "C" and nf == 27:  # no middle spare fields
        return f[:20] + [f[21]] + f[23:29]
    return f[:nf]


def lines_nav(doc, pos=None):
    if doc["k"] == "n2":
        out = [first_line(doc.get("ver", "2.11"), {"N": "NAVIGATION DATA", "G": "GLONASS NAV DATA", "E": "E: GALILEO NAV DATA"}[doc["ft"]], doc.get("sys", ""))]
    else:
        long = {"G": "G: GPS", "R": "R: GLONASS", "E": "E: Galileo", "M": "M: MIXED", "S": "S: SBAS",
                "C": "C: BDS", "J": "J: QZSS", "I": "I: IRNSS"}[doc.get("sys", "M")]
        out = [first_line(doc.get("ver", "3.03"), "N: GNSS NAV DATA", long)]
    out += doc.get("hdr", [hl("mcrinex             model checking      20180729 000000 UTC", "PGM / RUN BY / DATE")])
    out.append(hl("", "END OF HEADER"))
    marks = [("header", len(out))]
    r = -1
    for rec in doc["ev"]:
        if "j" in rec:
            out.append(rec["j"])
            marks.append(("junk", len(out)))
            continue
        r += 1
        t = at(doc, rec["t"])
        names = nav_rec_fields(doc, rec)
        nl = 4 if rec["sv"][0] in "RS" else 8
        bl = rec.get("blank", [])
        f = [" " * 19 if k in bl else nav_text(rec["sv"], r, k, rec) for k in range(len(names))]
        if doc["k"] == "n2":
            n = int(rec["sv"][1:])
            sec = t.second + t.microsecond / 1e6
            head = (f"{n:2d} {t.year % 100:02d} {t.month:2d} {t.day:2d} {t.hour:2d} {t.minute:2d}{sec:5.1f}")
            if doc.get("zp"):
                head = f"{n:02d} {t.year % 100:02d} {t.month:02d} {t.day:02d} {t.hour:02d} {t.minute:02d}{sec:5.1f}"
            elif doc.get("yb"):
                head = head[:3] + f"{t.year % 100:2d}" + head[5:]
            ind = 3
        else:
            n = rec["sv"]
            if doc.get("sp_num"):
                n = n[0] + f"{int(n[1:]):2d}"
            head = f"{n} {t.year:04d} {t.month:02d} {t.day:02d} {t.hour:02d} {t.minute:02d} {t.second:02d}"
            if doc.get("yb"):
                head = f"{n} {t.year:4d} {t.month:2d} {t.day:2d} {t.hour:2d} {t.minute:2d} {t.second:2d}"
            ind = 4
        lines = [head + "".join(f[:3])]
        rest = f[3:]
        per = [4] * (nl - 1)
        if rec["sv"][0] == "E" and (doc["k"] == "n2" or rec.get("nf") == 27):
            per[4] = 3
        if rec["sv"][0] == "C" and rec.get("nf") in (27, 28):
            per[4] = rec["nf"] - 25
        if pos is not None:
            pos += [(r, rec["sv"], k, len(out), len(head) + 19 * k) for k in range(3)]
        k = 3
        for c in per:
            if pos is not None:
                pos += [(r, rec["sv"], k + i, len(out) + len(lines), ind + 19 * i) for i in range(min(c, len(names) - k))]
            k += c
            lines.append(" " * ind + "".join(rest[:c]) + ("  .000000000000D+00" if rec.get("sp2") and c == 3 else ""))
            rest = rest[c:]
        if rec.get("g5"):  # RINEX 3.05 GLONASS: status flags, group delay difference, accuracy, health
            lines.append(" " * ind + "".join(nav_text("G63", r, k, {}) for k in range(4)))
        if rec.get("pad"):
            lines = [f"{x:{79 if doc['k'] == 'n2' else 80}s}" for x in lines]
        elif rec.get("rs"):
            lines = [x.rstrip() for x in lines]
        out += lines
        marks.append(("rec", len(out)))
    return out, marks


def render_nav(doc) -> str:
    return finish(lines_nav(doc)[0], doc)


def nav_cells(doc, use=None, tlim=None):
    """reference: {param: {(ns, sv or sv_n): value}}, record list [(ns, name)]"""
    use = as_list(use)
    out: dict[str, dict] = {}
    recs = []
    seen: dict[tuple, int] = {}
    r = -1
    for rec in doc["ev"]:
        if "j" in rec:
            continue
        r += 1
        sv = rec["sv"]
        t = ns(at(doc, rec["t"]))
        if tlim is not None and not ns(tlim[0]) <= t <= ns(tlim[1]):
            continue
        if use and sv[0] not in use:
            continue
        n = seen.get((t, sv), 0)
        seen[t, sv] = n + 1
        name = sv if n == 0 else f"{sv}_{n}"
        recs.append((t, name))
        if rec.get("bad"):
            continue
        for k, p in enumerate(nav_rec_fields(doc, rec)):
            if p == "-":
                continue
            if k in rec.get("blank", []):
                v = 0.0  # an empty field means zero / not known in RINEX navigation files
                if rec.get("optional_blank"):
                    continue
            else:
                v = float(nav_text(sv, r, k, rec).upper().replace("D", "E"))
            if sv[0] in "RS" and p in KM:
                v *= 1000
            out.setdefault(p, {})[t, name] = v
    return out, recs


# ---------------------------------------------------------------- SP3
def sp3_val(sv: str, e: int, k: int, vel: bool, ev=None) -> float:
    if ev and "val" in ev and sv in ev["val"] and ev["val"][sv][k + 4 * vel] is not None:
        return ev["val"][sv][k + 4 * vel]
    s, n = SYS.index(sv[0]), int(sv[1:])
    v = ((1 + s) * 1000 + n * 10 + k) + e * 0.01 + 0.0001 * (k + 1) + (50000 if vel else 0)
    return round(-v if (n + k) % 2 else v, 6)


def time_sp3(doc, ev) -> str:
    if "raw_t" in ev:
        return ev["raw_t"]
    t = at(doc, ev["e"])
    return f"{t.year:4d} {t.month:2d} {t.day:2d} {t.hour:2d} {t.minute:2d} {t.second:2d}.{t.microsecond:06d}00"


def lines_sp3(doc, pos=None):
    v = doc.get("v", "c")
    svs = doc["sv"]
    ev0 = doc["ev"][0]
    out = [f"#{v}{'V' if doc.get('vel') else 'P'}{time_sp3(doc, ev0)} {doc.get('nep', len(doc['ev'])):7d} "
           f"{'ORBIT':5s} {doc.get('cs', 'IGS14')} {doc.get('ot', 'FIT')} {doc.get('ag', ' IGS'):4s}"]
    out.append("## 2012 172800.00000000   900.00000000 58316 0.0000000000000")
    ids = [f"{s[0] if not (doc.get('blankG') and s[0] == 'G') else ' '}{int(s[1:]):2d}" if doc.get("sp_num")
           else s for s in svs]
    nl = max(5, ceil(len(svs) / 17))
    if v in "ac":
        nl = 5
    for i in range(nl):
        chunk = ids[17 * i : 17 * i + 17] + ["  0"] * 17
        lead = f"+  {len(svs):3d}   " if i == 0 else "+        "
        out.append(lead + "".join(chunk[:17]))
    for i in range(nl):
        out.append("++       " + "  0" * 17)
    out += ["%c M  cc GPS ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc"] * 2
    out += ["%f  1.2500000  1.025000000  0.00000000000  0.000000000000000"] * 2
    out += ["%i    0    0    0    0      0      0      0      0         0"] * 2
    out += ["/* a comment"] * (doc.get("ncom", 4))
    marks = [("header", len(out))]
    for e, ev in enumerate(doc["ev"]):
        out.append("*  " + time_sp3(doc, ev))
        for s in ev.get("s", svs):
            sid = ids[svs.index(s)]
            def num(k, vel):
                c = code_of(ev.get("p", "v"), s, k)
                if c == "0" and not vel:
                    return f"{0:14.6f}" if k < 3 else f"{999999.999999:14.6f}"
                return f"{sp3_val(s, e, k, vel, ev):14.6f}"
            tail = " 10  9 11 102    P   P" if doc.get("sd") else ""
            if pos is not None:
                pos += [(e, s, k, len(out), 4 + 14 * k) for k in range(4)]
            out.append(f"P{sid}" + "".join(num(k, False) for k in range(4)) + tail)
            if ev.get("ep"):
                out.append("EP  55  55  55     222  1234567 -1234567  5999999      -30       21 -1230000")
            if s in ev.get("vs", svs if doc.get("vel") else []):
                if pos is not None:
                    pos += [(e, s, 4 + k, len(out), 4 + 14 * k) for k in range(4)]
                out.append(f"V{sid}" + "".join(num(k, True) for k in range(4)) + tail)
                if ev.get("ep"):
                    out.append("EV  22  22  22     111  1234567  1234567  1234567  1234567  1234567  1234567")
        marks.append(("rec", len(out)))
    if doc.get("eof", True):
        out.append("EOF")
    return out, marks


def render_sp3(doc) -> str:
    return finish(lines_sp3(doc)[0], doc)


def sp3_cells(doc):
    """{name: {(ns, sv): value}} with name in x,y,z,clock,vx,vy,vz,dclock"""
    out: dict[str, dict] = {k: {} for k in "x y z clock vx vy vz dclock".split()}
    svs = doc["sv"]
    for e, ev in enumerate(doc["ev"]):
        t = ns(parse_t(ev["true_t"])) if "true_t" in ev else ns(at(doc, ev["e"]))
        for s in ev.get("s", svs):
            for k, nm in enumerate(("x", "y", "z", "clock")):
                c = code_of(ev.get("p", "v"), s, k)
                out[nm][t, s] = (0.0 if k < 3 else 999999.999999) if c == "0" else sp3_val(s, e, k, False, ev)
            if s in ev.get("vs", svs if doc.get("vel") else []):
                for k, nm in enumerate(("vx", "vy", "vz", "dclock")):
                    out[nm][t, s] = sp3_val(s, e, k, True, ev)
    return out


RENDER = {"o2": render_o2, "o3": render_o3, "n2": render_nav, "n3": render_nav, "sp3": render_sp3}
LINES = {"o2": lines_o2, "o3": lines_o3, "n2": lines_nav, "n3": lines_nav, "sp3": lines_sp3}


def render(doc) -> str:
    return RENDER[doc["k"]](doc)
